"""Histories of updates of a streaming sketch against a dense model."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.sketch import stream_sketch
from tt_sketch.sketch_container import SketchContainer

RULE = (
    "Cases are histories: a tensor sketched with a pair of DRMs, followed by up "
    "to eight updates (add, subtract, in-place add, scale from either side, "
    "divide, negate, transpose, go back to an earlier sketch). Non-trivial: at "
    "least two updates of which one adds or subtracts a non-zero tensor."
)
ASSUMPTIONS = [
    "Reference: dense arithmetic, contracted with the matrices of the original "
    "DRMs; agreement up to 1e-11 times the accumulated norm bounds.",
]

GROUPS = [
    (["tt"], ("sparse", "tt", "dense", "cp", "tucker")),
    (["tt", "dense"], ("sparse", "tt", "dense")),
    (["tt", "dense", "sg", "ss"], ("sparse",)),
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(size=120, dmax=5, mode=6, big=0.05))
    d = len(shape)
    types, fmts = draw(st.sampled_from(GROUPS))
    left_rank, right_rank = draw(gen.rank_pair(d - 1, rmax=4, gap=3))
    scales = gen.weighted((1.0, 4), (-2.5, 1), (1e-3, 1), (50.0, 1))

    def tensor(sh):
        return draw(
            gen.tensor_of(sh, fmts, rmax=3, scales=scales, nnz_max=40, max_terms=2)
        )

    case = {
        "tensor": tensor(shape),
        "left": draw(gen.drm_spec(types, d - 1, cores=True)),
        "right": draw(gen.drm_spec(types, d - 1, cores=True)),
        "left_rank": left_rank,
        "right_rank": right_rank,
        "ops": [],
    }
    flips = [False]  # orientation of every sketch so far
    for _ in range(draw(st.integers(1, 8))):
        op = draw(
            st.sampled_from(
                ["add", "sub", "T", "mul", "rmul", "add", "neg", "div", "iadd", "back"]
            )
        )
        flip = flips[-1]
        step = {"op": op}
        if op in ("add", "sub", "iadd"):
            step["tensor"] = tensor(shape[::-1] if flip else shape)
        elif op in ("mul", "rmul", "div"):
            step["c"] = draw(
                st.sampled_from([2.0, -1.0, 0.5, -3, 1e-3, 10, 0.1])
            )
            if op != "div" and draw(st.integers(0, 15)) == 0:
                step["c"] = 0.0
        elif op == "T":
            flip = not flip
        elif op == "back":
            step["to"] = draw(st.integers(0, len(flips) - 1))
            flip = flips[step["to"]]
        case["ops"].append(step)
        flips.append(flip)
    return case


def flip_mats(mats, shape, transpose):
    """Matrices of a DRM for the transposed tensor"""
    d = len(shape)
    out = []
    for k in range(d - 1, 0, -1):  # splits of the transposed tensor
        mat = mats[k - 1]
        modes = shape[k:] if transpose else shape[:k]
        cube = mat.reshape((mat.shape[0],) + tuple(modes))
        perm = (0,) + tuple(range(len(modes), 0, -1))
        out.append(np.transpose(cube, perm).reshape(mat.shape))
    return out


class Model:
    def __init__(self, dense, bound, L, R, left_sizes, right_sizes):
        self.dense, self.bound, self.L, self.R = dense, bound, L, R
        self.sizes = (left_sizes, right_sizes)

    def scaled(self, c):
        return Model(self.dense * c, self.bound * abs(c), self.L, self.R, *self.sizes)

    def plus(self, m, sign):
        return Model(
            self.dense + sign * m.dense, self.bound + m.bound, self.L, self.R,
            *self.sizes,
        )

    def transposed(self):
        shape = self.dense.shape
        return Model(
            np.transpose(self.dense),
            self.bound,
            flip_mats(self.R, shape, True),
            flip_mats(self.L, shape, False),
            self.sizes[1][::-1],
            self.sizes[0][::-1],
        )

    def check(self, what, sk):
        psis, omegas = ref.sketch_reference(self.dense, self.L, self.R)
        scales = (self.bound, *self.sizes)
        ref.compare_sketch(
            what, sk.Psi_cores, sk.Omega_mats, psis, omegas, scales, 1e-11
        )
        equal(f"{what}: shape", tuple(sk.shape), self.dense.shape)
        lr = tuple(x.shape[0] for x in self.L)
        rr = tuple(x.shape[0] for x in self.R)
        equal(f"{what}: left_rank", tuple(sk.left_rank), lr)
        equal(f"{what}: right_rank", tuple(sk.right_rank), rr)
        equal(f"{what}: ndim", sk.ndim, self.dense.ndim)
        size = sum(p.size for p in psis) + sum(o.size for o in omegas)
        equal(f"{what}: size", int(sk.size), size)


def check(case):
    m = ref.make_tensor(case["tensor"])
    shape = m.dense.shape
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    left = ref.make_drm(case["left"], lr, shape, False)
    right = ref.make_drm(case["right"], rr, shape, True)
    L, R = ref.drm_mats(left, shape), ref.drm_mats(right, shape)
    sk = stream_sketch(m.lib, lr, rr, left_drm=left, right_drm=right)
    model = Model(
        m.dense, m.bound, L, R,
        ref.norms(L, case["left"], shape, False),
        ref.norms(R, case["right"], shape, True),
    )
    model.check("first sketch", sk)
    history = [(sk, model)]
    snaps = [Snapshot(sketch=sk, left_drm=left, right_drm=right)]
    added = 0
    for number, step in enumerate(case["ops"]):
        op = step["op"]
        what = f"after update {number} ({op})"
        if op in ("add", "sub", "iadd"):
            other = ref.make_tensor(step["tensor"])
            snap = Snapshot(argument=other.lib)
            if op == "add":
                sk = sk + other.lib
            elif op == "sub":
                sk = sk - other.lib
            else:
                sk += other.lib
            snap.check(what)
            model = model.plus(other, -1 if op == "sub" else 1)
            added += bool(np.any(other.dense))
        elif op == "mul":
            sk, model = sk * step["c"], model.scaled(step["c"])
        elif op == "rmul":
            sk, model = step["c"] * sk, model.scaled(step["c"])
        elif op == "div":
            sk, model = sk / step["c"], model.scaled(1 / step["c"])
        elif op == "neg":
            sk, model = -sk, model.scaled(-1)
        elif op == "T":
            sk, model = sk.T, model.transposed()
        else:
            sk, model = history[step["to"]]
        model.check(what, sk)
        history.append((sk, model))
        snaps.append(Snapshot(sketch=sk))
    for number, snap in enumerate(snaps):
        snap.check(f"a later update than {number}")
    for number, (old, old_model) in enumerate(history):
        old_model.check(f"sketch {number} at the end", old)
    labels = ["op=" + s["op"] for s in case["ops"]]
    labels += [f"drm={case['left']['type']}|{case['right']['type']}"]
    ops = [s["op"] for s in case["ops"]]
    if "T" in ops and any(
        o in ("add", "sub", "iadd") for o in ops[ops.index("T") + 1 :]
    ):
        labels.append("update after transposition")
    return added > 0 and len(ops) >= 2, labels


@st.composite
def container_cases(draw):
    shape = draw(gen.shapes(size=300, dmax=6, mode=8))
    n = len(shape) - 1
    kinds = gen.weighted(("random", 4), ("zero", 1), ("int", 1))
    case = {
        "shape": shape,
        "left_rank": draw(gen.ranks(n, 5)),
        "right_rank": draw(gen.ranks(n, 5)),
        "seed": draw(gen.data_seeds()),
        "kinds": [draw(kinds) for _ in range(draw(st.integers(1, 3)))],
        "layout": draw(gen.LAYOUTS),
        "ops": [],
    }
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["add", "sub", "T", "mul", "neg", "div"]))
        case["ops"].append({
            "op": op, "i": draw(st.integers(0, 20)), "j": draw(st.integers(0, 20)),
            "c": draw(st.sampled_from([3, 0.1, -1.0, 7.5, 1e-9, 1e7, 2, -49, 1 / 3])),
        })
    return case


def describe_container(what, box, psis, omegas):
    equal(f"{what}: number of cores", len(box.Psi_cores), len(psis))
    equal(f"{what}: number of linking matrices", len(box.Omega_mats), len(omegas))
    for name, got, wanted in (
        ("core", box.Psi_cores, psis), ("linking matrix", box.Omega_mats, omegas)
    ):
        for k, (a, (b, bound)) in enumerate(zip(got, wanted)):
            equal(f"{what}: shape of {name} {k}", np.shape(a), b.shape)
            diff = np.abs(np.asarray(a) - b)
            require(
                np.all(diff <= 1e-14 * bound),
                f"{what}: {name} {k} differs by {diff.max(initial=0):.2e}",
            )
    equal(f"{what}: shape", tuple(box.shape), tuple(p.shape[1] for p, _ in psis))
    equal(f"{what}: left rank", tuple(box.left_rank), tuple(p.shape[0] for p, _ in psis[1:]))
    equal(f"{what}: right rank", tuple(box.right_rank), tuple(p.shape[2] for p, _ in psis[:-1]))


def check_container(case):
    """Containers of components are added and scaled entry by entry"""
    shape = tuple(case["shape"])
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    values = []  # (container, cores, linking matrices, flipped), with bounds
    for number, kind in enumerate(case["kinds"]):
        if kind == "zero":
            box = SketchContainer.zero(shape, lr, rr)
            psis = [np.zeros(s) for s in zip((1,) + lr, shape, rr + (1,))]
            omegas = [np.zeros(s) for s in zip(lr, rr)]
        else:
            fill = "gauss" if kind == "random" else "int"
            seed = case["seed"] + number
            psis = [
                ref.make_array(s, fill, seed, k, case["layout"])
                for k, s in enumerate(zip((1,) + lr, shape, rr + (1,)))
            ]
            omegas = [
                ref.make_array(s, fill, seed, 100 + k, case["layout"])
                for k, s in enumerate(zip(lr, rr))
            ]
            box = SketchContainer([p.copy() for p in psis], [o.copy() for o in omegas])
        values.append((
            box, [(p, abs(p)) for p in psis], [(o, abs(o)) for o in omegas], False
        ))
        describe_container(f"container {number}", *values[-1][:3])
    snaps = [Snapshot(container=v[0]) for v in values]
    both = 0
    for number, step in enumerate(case["ops"]):
        op, c = step["op"], step["c"]
        what = f"after operation {number} ({op})"
        box, psis, omegas, flipped = values[step["i"] % len(values)]
        if op in ("add", "sub"):
            others = [v for v in values if v[3] == flipped]
            other, psis2, omegas2, _ = others[step["j"] % len(others)]
            box = box + other if op == "add" else box - other
            sign = 1 if op == "add" else -1

            def merge(one, two):
                return [
                    (x + sign * y, a + b) for (x, a), (y, b) in zip(one, two)
                ]

            psis, omegas = merge(psis, psis2), merge(omegas, omegas2)
            both += 1
        elif op == "T":
            box, flipped = box.T, not flipped
            psis = [tuple(x.transpose(2, 1, 0) for x in p) for p in psis[::-1]]
            omegas = [tuple(x.T for x in o) for o in omegas[::-1]]
        else:
            factor = {"mul": c, "neg": -1, "div": 1 / c}[op]
            box = {"mul": lambda: box * c, "neg": lambda: -box, "div": lambda: box / c}[op]()
            psis = [(x * factor, a * abs(factor)) for x, a in psis]
            omegas = [(x * factor, a * abs(factor)) for x, a in omegas]
        values.append((box, psis, omegas, flipped))
        describe_container(what, box, psis, omegas)
        for snap in snaps:
            snap.check(what)
        snaps.append(Snapshot(container=box))
    return both > 0, ["container op=" + s["op"] for s in case["ops"]]


SUBS = [
    Sub("container", lambda tier: container_cases(), check_container, 500),
    Sub("history", lambda tier: cases(), check, 1400),
    Sub("large", lambda tier: gen.large(cases()), check, 35),
]
