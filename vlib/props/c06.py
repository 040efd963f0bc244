"""Increasing the rank of a sketch equals sketching afresh."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.sketch import SketchedTensorTrain, stream_sketch
from tt_sketch.tensor import DenseTensor, TensorSum

RULE = (
    "Cases are histories: a sketch followed by up to five steps that increase "
    "the ranks (per mode, either or both sides), add a tensor, scale, or "
    "transpose. Non-trivial: at least one step increases a rank and the sketched "
    "tensor is non-zero."
)
ASSUMPTIONS = [
    "Reference: dense arithmetic, contracted with the matrices of the DRMs of "
    "the new sketch, whose first rows have to be those of the old DRMs. "
    "Agreement up to 1e-11 times the norm bounds.",
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(size=120, dmax=5, mode=6, big=0.05))
    d = len(shape)
    types, fmts = draw(
        st.sampled_from(
            [
                (["dense"], ("sparse", "tt", "dense")),
                (["dense", "sg"], ("sparse",)),
                (["sg"], ("sparse",)),
            ]
        )
    )
    left_rank, right_rank = draw(gen.rank_pair(d - 1, rmax=3, gap=3))
    scales = gen.weighted((1.0, 4), (-2.5, 1), (1e-3, 1))

    def tensor(sh):
        return draw(
            gen.tensor_of(sh, fmts, rmax=3, scales=scales, nnz_max=30, max_terms=2)
        )

    def spec():
        out = {"type": draw(st.sampled_from(types)), "seed": draw(gen.seeds())}
        if draw(st.integers(0, 5)) == 0:
            out["seed"] = None
        return out

    case = {
        "tensor": tensor(shape),
        "left": spec(),
        "right": spec(),
        "left_rank": left_rank,
        "right_rank": right_rank,
        "how": draw(st.sampled_from(["drm", "type"])),
        "seed": draw(gen.seeds()),
        "steps": [],
    }
    flip = False
    left_bigger = left_rank[0] > right_rank[0]
    lr, rr = list(left_rank), list(right_rank)
    for _ in range(draw(st.integers(1, 5))):
        op = draw(
            st.sampled_from(
                ["increase", "increase", "increase", "add", "mul", "T", "sub"]
            )
        )
        step = {"op": op}
        if op == "increase":
            side = draw(st.sampled_from(["both", "big", "both"]))
            grow = st.integers(0, 3)
            big, small = (lr, rr) if left_bigger else (rr, lr)
            if side == "both":
                ds = [draw(grow) for _ in small]
                small = [a + b for a, b in zip(small, ds)]
            big = [max(a + draw(grow), b + 1) for a, b in zip(big, small)]
            if side == "both" and draw(st.integers(0, 4)) == 0:
                small = [max(small)] * len(small)
                big = [max(max(big), small[0] + 1)] * len(big)
            lr, rr = (big, small) if left_bigger else (small, big)
            step.update(left_rank=lr, right_rank=rr)
            step["form"] = draw(st.sampled_from(["tuple", "list", "int"]))
        elif op in ("add", "sub"):
            step["tensor"] = tensor(shape[::-1] if flip else shape)
        elif op == "mul":
            step["c"] = draw(st.sampled_from([2.0, -0.5, 1e-2]))
        else:
            flip = not flip
            lr, rr = rr[::-1], lr[::-1]
            left_bigger = not left_bigger
        case["steps"].append(step)
    return case


def as_form(rank, form):
    if form == "int" and len(set(rank)) == 1:
        return rank[0]
    return list(rank) if form == "list" else tuple(rank)


def check_sketch(what, sk, dense, bound, lr, rr):
    shape = dense.shape
    L = ref.drm_mats(sk.left_drm, shape)
    R = ref.drm_mats(sk.right_drm, shape)
    equal(f"{what}: rank of left DRM", tuple(x.shape[0] for x in L), tuple(lr))
    equal(f"{what}: rank of right DRM", tuple(x.shape[0] for x in R), tuple(rr))
    equal(f"{what}: left_rank", tuple(sk.left_rank), tuple(lr))
    equal(f"{what}: right_rank", tuple(sk.right_rank), tuple(rr))
    equal(f"{what}: shape", tuple(sk.shape), shape)
    psis, omegas = ref.sketch_reference(dense, L, R)
    scales = (bound, ref.norms(L), ref.norms(R))
    ref.compare_sketch(
        what, sk.Psi_cores, sk.Omega_mats, psis, omegas, scales, 1e-11
    )
    return L, R


def check(case):
    m = ref.make_tensor(case["tensor"])
    shape = m.dense.shape
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    if case["how"] == "drm":
        left = ref.make_drm(case["left"], lr, shape, False)
        right = ref.make_drm(case["right"], rr, shape, True)
        sk = stream_sketch(m.lib, lr, rr, left_drm=left, right_drm=right)
    else:
        sk = stream_sketch(
            m.lib,
            lr,
            rr,
            seed=case["seed"],
            left_drm_type=ref.DRM_TYPES[case["left"]["type"]],
            right_drm_type=ref.DRM_TYPES[case["right"]["type"]],
        )
        lr, rr = tuple(sk.left_rank), tuple(sk.right_rank)  # trimmed
    total, dense, bound = m.lib, m.dense, m.bound
    L, R = check_sketch("first sketch", sk, dense, bound, lr, rr)
    history = [(sk, Snapshot(sketch=sk, left=sk.left_drm, right=sk.right_drm))]
    increased = 0
    for number, step in enumerate(case["steps"]):
        what = f"step {number} ({step['op']})"
        op = step["op"]
        if op == "increase":
            new_l = tuple(max(a, b) for a, b in zip(step["left_rank"], lr))
            new_r = tuple(max(a, b) for a, b in zip(step["right_rank"], rr))
            snap = Snapshot(tensor=total)
            old = sk
            sk = old.increase_rank(
                total, as_form(new_l, step["form"]), as_form(new_r, step["form"])
            )
            snap.check(what)
            require(
                isinstance(sk, SketchedTensorTrain), f"{what}: {type(sk)}"
            )
            L2, R2 = check_sketch(what, sk, dense, bound, new_l, new_r)
            for k in range(len(shape) - 1):
                for name, a, b in (("left", L, L2), ("right", R, R2)):
                    require(
                        np.array_equal(b[k][: a[k].shape[0]], a[k]),
                        f"{what}: rows of the {name} DRM changed",
                    )
                part = sk.Omega_mats[k][: lr[k], : rr[k]]
                require(
                    np.array_equal(part, old.Omega_mats[k]),
                    f"{what}: old part of linking matrix {k} changed",
                )
            for k, psi in enumerate(old.Psi_cores):
                part = sk.Psi_cores[k][: psi.shape[0], :, : psi.shape[2]]
                require(
                    np.array_equal(part, psi), f"{what}: old part of core {k} changed"
                )
            increased += new_l != lr or new_r != rr
            lr, rr, L, R = new_l, new_r, L2, R2
            # sketching afresh with the new DRMs
            fresh = stream_sketch(
                total, lr, rr, left_drm=sk.left_drm, right_drm=sk.right_drm
            )
            check_sketch(f"{what}, afresh", fresh, dense, bound, lr, rr)
        elif op in ("add", "sub"):
            other = ref.make_tensor(step["tensor"])
            if op == "add":
                sk, total, dense = sk + other.lib, total + other.lib, dense + other.dense
            else:
                sk, total, dense = sk - other.lib, total - other.lib, dense - other.dense
            bound += other.bound
            check_sketch(what, sk, dense, bound, lr, rr)
        elif op == "mul":
            c = step["c"]
            sk, total, dense = sk * c, total * c, dense * c
            bound *= abs(c)
            check_sketch(what, sk, dense, bound, lr, rr)
        else:
            sk, total, dense = sk.T, total.T, np.transpose(dense)
            shape = dense.shape
            lr, rr = rr[::-1], lr[::-1]
            L, R = check_sketch(what, sk, dense, bound, lr, rr)
        history.append(
            (sk, Snapshot(sketch=sk, left=sk.left_drm, right=sk.right_drm))
        )
    for number, (old, snap) in enumerate(history):
        snap.check(f"a step after {number}")
    ops = [s["op"] for s in case["steps"]]
    labels = ["op=" + o for o in ops]
    labels += [
        f"drm={case['left']['type']}|{case['right']['type']}",
        "fmt=" + case["tensor"]["fmt"],
        "how=" + case["how"],
        f"increases={increased}",
    ]
    if case["how"] == "drm" and None in (case["left"]["seed"], case["right"]["seed"]):
        labels.append("no seed")
    return increased > 0 and bool(np.any(m.dense)), labels


SUBS = [
    Sub("history", lambda tier: cases(), check, 1500),
    Sub("large", lambda tier: gen.large(cases()), check, 37),
]
