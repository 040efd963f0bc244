"""TT-matrices (MPOs) as linear operators."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.tensor import TensorTrain
from tt_sketch.tt_gmres import MPO

RULE = (
    "Cases are programs: one or two rectangular TT-matrices and TTs, and up to "
    "eight statements (scale from either side, divide, negate, transpose, apply "
    "to a TT, convert) on any earlier values. Sub-check basics: identity, "
    "conversion, norms and random TT-matrices. Non-trivial: at least one "
    "application of a non-zero operator to a non-zero TT."
)
ASSUMPTIONS = [
    "Reference: the dense operator from the cores (in and out index of every "
    "mode); agreement up to 1e-12 times the norms of absolute values.",
]


def mpo_dense(cores):
    """Array of shape (in_1, out_1, in_2, out_2, ...)"""
    res = np.ones((1,))
    for c in cores:
        res = np.tensordot(res, c, axes=(res.ndim - 1, 0))
    return res.reshape(res.shape[:-1])


def as_matrix(dense):
    """Matrix (out, in) of the operator"""
    d = dense.ndim // 2
    perm = [2 * k + 1 for k in range(d)] + [2 * k for k in range(d)]
    m = np.transpose(dense, perm)
    rows = int(np.prod(m.shape[:d], dtype=int))
    return m.reshape(rows, -1)


def make_mpo(spec):
    rank = (1,) + tuple(spec["rank"]) + (1,)
    cores = [
        ref.make_array(
            (rank[k], n, m, rank[k + 1]), spec["fill"], spec["seed"], k, spec["layout"]
        )
        for k, (n, m) in enumerate(zip(spec["in"], spec["out"]))
    ]
    for k, eps in spec.get("near_eye", []):  # nearly an identity on one mode
        c = cores[k]
        eye = np.einsum("ab,ij->aijb", np.eye(c.shape[0], c.shape[3]), np.eye(*c.shape[1:3]))
        cores[k] = ref._layout(eye + eps * c, spec["layout"])
    return cores


@st.composite
def mpo_spec(draw, d, in_shape=None, out_shape=None):
    def shape():
        out, left = [], 60
        for _ in range(d):
            n = draw(st.integers(1, max(1, min(5, left))))
            out.append(n)
            left //= n
        return out

    in_shape = in_shape or shape()
    square = out_shape is None and draw(st.integers(0, 3)) == 0
    spec = {
        "in": in_shape,
        "out": out_shape or (list(in_shape) if square else shape()),
        "rank": draw(gen.ranks(d - 1, 3)),
        "fill": draw(gen.FILLS_ALL),
        "seed": draw(gen.data_seeds()),
        "layout": draw(gen.LAYOUTS),
    }
    if square or draw(st.integers(0, 3)) == 0:
        spec["near_eye"] = [
            (k, draw(st.sampled_from([0.0, 1e-9, 1e-6, 1e-3])))
            for k in sorted(draw(st.sets(st.integers(0, d - 1), min_size=1)))
        ]
        if draw(st.booleans()):
            spec["rank"] = [1] * (d - 1)
    return spec


@st.composite
def cases(draw):
    d = draw(st.integers(2, 5))
    first = draw(mpo_spec(d))
    mpos = [first]
    if draw(st.booleans()):  # one that can be composed with it
        mpos.append(draw(mpo_spec(d, in_shape=list(first["out"]))))
    elif draw(st.booleans()):
        mpos.append(draw(mpo_spec(d, list(first["in"]), list(first["in"]))))
    tts = [
        draw(gen.tensor_of(s, ("tt",), rmax=3, sums=False))
        for s in (first["in"], first["out"])
    ]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(
            ["apply", "apply", "apply", "T", "mul", "rmul", "div", "neg", "to_tt", "numpy"]
        ))
        step = {"op": op, "i": draw(st.integers(0, 30)), "j": draw(st.integers(0, 30))}
        if op in ("mul", "rmul", "div"):
            step["c"] = draw(st.sampled_from([2, -1.5, 0.25, 1e-3, -1, 100.0]))
            step["np"] = draw(st.booleans())
        ops.append(step)
    return {"mpos": mpos, "tts": tts, "ops": ops}


class Op:
    def __init__(self, lib, dense, bound):
        self.lib, self.dense, self.bound = lib, dense, bound


def verify(what, op):
    d = op.dense.ndim // 2
    equal(f"{what}: in_shape", tuple(op.lib.in_shape), op.dense.shape[0::2])
    equal(f"{what}: out_shape", tuple(op.lib.out_shape), op.dense.shape[1::2])
    tol = 1e-12 * op.bound + 1e-300
    close(f"{what}: cores", mpo_dense(op.lib.cores), op.dense, tol)
    equal(
        f"{what}: shape", tuple(op.lib.shape),
        tuple(a * b for a, b in zip(op.dense.shape[0::2], op.dense.shape[1::2])),
    )
    equal(f"{what}: rank", tuple(op.lib.rank), tuple(c.shape[3] for c in op.lib.cores[:-1]))
    equal(f"{what}: size", int(op.lib.size), sum(c.size for c in op.lib.cores))


def check(case):
    ops, vecs = [], []
    for spec in case["mpos"]:
        cores = make_mpo(spec)
        ops.append(
            Op(
                MPO(cores), mpo_dense([c.copy() for c in cores]),
                float(np.linalg.norm(mpo_dense([abs(c) for c in cores]))),
            )
        )
    for spec in case["tts"]:
        m = ref.make_tensor(spec)
        vecs.append(Op(m.lib, m.dense, m.bound))
    snaps = [Snapshot(operator=o.lib) for o in ops]
    snaps += [Snapshot(tensor=v.lib) for v in vecs]
    applied, labels = 0, []
    for number, step in enumerate(case["ops"]):
        op, what = step["op"], f"statement {number} ({step['op']})"
        a = ops[step["i"] % len(ops)]
        new = None
        if op in ("mul", "rmul", "div"):
            c = step["c"]
            if step["np"]:
                c = np.float64(c)
            f = 1 / step["c"] if op == "div" else step["c"]
            lib = a.lib * c if op == "mul" else c * a.lib if op == "rmul" else a.lib / c
            new = Op(lib, a.dense * f, a.bound * abs(f))
        elif op == "neg":
            new = Op(-a.lib, -a.dense, a.bound)
        elif op == "T":
            d = a.dense.ndim // 2
            perm = [x for k in range(d) for x in (2 * k + 1, 2 * k)]
            new = Op(a.lib.T, np.transpose(a.dense, perm), a.bound)
            close(f"{what}: involution", mpo_dense(a.lib.T.T.cores), mpo_dense(a.lib.cores), 0.0)
        elif op == "to_tt":
            tt = a.lib.to_tt()
            require(isinstance(tt, TensorTrain), f"{what}: not a TT")
            shape = tuple(
                x * y for x, y in zip(a.dense.shape[0::2], a.dense.shape[1::2])
            )
            equal(f"{what}: shape", tuple(tt.shape), shape)
            close(what, ref.tt_dense(tt.cores), a.dense.reshape(shape), 1e-12 * a.bound + 1e-300)
        elif op == "numpy":
            close(what, a.lib.to_numpy(), a.dense, 1e-12 * a.bound + 1e-300)
        else:
            fitting = [
                (o, v) for o in ops for v in vecs if o.dense.shape[0::2] == v.dense.shape
                and max(v.lib.rank) <= 30
            ]
            if not fitting:
                continue
            o, v = fitting[(step["i"] + 31 * step["j"]) % len(fitting)]
            out = o.lib(v.lib)
            require(isinstance(out, TensorTrain), f"{what}: not a TT")
            dense = as_matrix(o.dense) @ v.dense.reshape(-1)
            w = Op(out, dense.reshape(o.dense.shape[1::2]), o.bound * v.bound)
            equal(f"{what}: shape", tuple(out.shape), w.dense.shape)
            close(what, ref.tt_dense(out.cores), w.dense, 1e-12 * w.bound + 1e-300)
            equal(
                f"{what}: rank attribute", tuple(out.rank),
                tuple(c.shape[2] for c in out.cores[:-1]),
            )
            # Adjoint
            ytt = ref.make_tensor({
                "fmt": "tt", "shape": w.dense.shape,
                "rank": [2] * (w.dense.ndim - 1), "seed": number,
            }).lib
            back = o.lib.T(ytt)
            yd = ref.tt_dense(ytt.cores)
            lhs = float(np.sum(ref.tt_dense(out.cores) * yd))
            rhs = float(np.sum(v.dense * ref.tt_dense(back.cores)))
            scale = w.bound * np.linalg.norm(yd)
            require(
                abs(lhs - rhs) <= 1e-11 * scale + 1e-300,
                f"{what}: <Mx, y> = {lhs!r} but <x, M^T y> = {rhs!r}",
            )
            vecs.append(w)
            snaps.append(Snapshot(result=out))
            applied += bool(np.any(o.dense) and np.any(v.dense))
        labels.append("op=" + op)
        if new is not None:
            require(isinstance(new.lib, MPO), f"{what}: not an MPO")
            verify(what, new)
            ops.append(new)
            snaps.append(Snapshot(operator=new.lib))
        for snap in snaps:
            snap.check(what)
    for k, o in enumerate(ops):
        verify(f"operator {k} at the end", o)
    return applied > 0, sorted(set(labels))


@st.composite
def basics(draw):
    d = draw(st.integers(2, 5))
    spec = draw(mpo_spec(d))
    return {
        "mpo": spec,
        "x": draw(gen.tensor_of(spec["in"], ("tt",), rmax=3, sums=False)),
        "z": draw(gen.tensor_of(spec["in"], ("tt",), rmax=3, sums=False)),
        "c": draw(st.sampled_from([2.0, -0.5, 3, 0])),
    }


def check_basics(case):
    spec = case["mpo"]
    cores = make_mpo(spec)
    mpo, dense = MPO(cores), mpo_dense(cores)
    bound = float(np.linalg.norm(mpo_dense([abs(c) for c in cores])))
    x, z = ref.make_tensor(case["x"]), ref.make_tensor(case["z"])
    eye = MPO.eye(tuple(spec["in"]))
    equal("identity: in_shape", tuple(eye.in_shape), tuple(spec["in"]))
    equal("identity: out_shape", tuple(eye.out_shape), tuple(spec["in"]))
    matrix = as_matrix(mpo_dense(eye.cores))
    close("identity", matrix, np.eye(len(matrix)), 0.0)
    close(
        "identity applied", ref.tt_dense(eye(x.lib).cores), x.dense,
        1e-13 * x.bound + 1e-300,
    )
    # Linear in the argument
    total = x.lib.add(z.lib * case["c"])
    expected = ref.tt_dense(mpo(x.lib).cores) + case["c"] * ref.tt_dense(mpo(z.lib).cores)
    close(
        "linearity", ref.tt_dense(mpo(total).cores), expected,
        1e-11 * bound * (x.bound + abs(case["c"]) * z.bound) + 1e-300,
    )
    # Composition with the identity and norms
    close(
        "composition", ref.tt_dense(mpo(eye(x.lib)).cores), ref.tt_dense(mpo(x.lib).cores),
        1e-12 * bound * x.bound + 1e-300,
    )
    norm = float(mpo.norm())
    true = float(np.linalg.norm(dense))
    require(
        abs(norm**2 - true**2) <= 1e-11 * bound**2 + 1e-300,
        f"norm {norm!r} instead of {true!r}",
    )
    return bool(np.any(dense) and np.any(x.dense)), [f"modes={len(cores)}"]


SUBS = [
    Sub("program", lambda tier: cases(), check, 2500),
    Sub("basics", lambda tier: basics(), check_basics, 800),
    Sub("large_program", lambda tier: gen.large(cases()), check, 62),
    Sub("large_basics", lambda tier: gen.large(basics()), check_basics, 24),
]
