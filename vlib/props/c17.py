"""Transposition, conversion, splitting, sizes and interface matrices."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.tensor import (
    CPTensor,
    DenseTensor,
    SparseTensor,
    TensorSum,
    TensorTrain,
    TuckerTensor,
)

RULE = (
    "Cases are a tensor in any format (nested sums included) and a chain of up "
    "to six conversions (transpose, dense, to_sparse, split into any number of "
    "summands, scaling, nesting in a sum). Sub-check interface: TTs and both "
    "directions of partial contraction. Non-trivial: a non-zero tensor with at "
    "least two entries and one conversion."
)
ASSUMPTIONS = [
    "Reference: dense arrays; conversions agree up to 1e-12 times the norm of "
    "the tensor of absolute values, transposing twice exactly. The size of a "
    "sparse tensor counts the entries and the indices stored for them.",
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=6, size=250, mode=8))
    spec = draw(gen.tensor_of(shape, rmax=5))
    if draw(st.integers(0, 9)) == 0:
        other = draw(gen.tensor_of(shape, rmax=3))
        spec = {"fmt": "sum", "shape": list(shape), "terms": [spec, other]}
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["T", "T", "dense", "sparse", "split", "mul", "nest"]))
        step = {"op": op}
        if op == "split":
            step["n"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 60)))
        if op == "mul":
            step["c"] = draw(st.sampled_from([2.0, -1, 0.5]))
        steps.append(step)
    return {"tensor": spec, "steps": steps}


def stored_size(t):
    if isinstance(t, TensorSum):
        return sum(stored_size(x) for x in t.tensors)
    if isinstance(t, DenseTensor):
        return np.asarray(t.data).size
    if isinstance(t, SparseTensor):
        return np.asarray(t.indices).size + np.asarray(t.entries).size
    if isinstance(t, TuckerTensor):
        return t.core.size + sum(U.size for U in t.factors)
    return sum(c.size for c in t.cores)


def rank_of(t):
    if isinstance(t, TensorTrain):
        return tuple(c.shape[2] for c in t.cores[:-1])
    if isinstance(t, CPTensor):
        return t.cores[0].shape[1]
    return t.core.shape


def verify(what, t, dense, tol, deep=True):
    equal(f"{what}: shape", tuple(t.shape), dense.shape)
    equal(f"{what}: number of modes", t.ndim, dense.ndim)
    close(f"{what}: stored data", ref.dense_of(t), dense, tol)
    close(f"{what}: to_numpy", t.to_numpy(), dense, tol)
    d = t.dense()
    require(isinstance(d, DenseTensor), f"{what}: dense() is {type(d).__name__}")
    close(f"{what}: dense", d.data, dense, tol)
    equal(f"{what}: shape of dense", tuple(d.shape), dense.shape)
    size = t.size
    require(
        isinstance(size, (int, np.integer)), f"{what}: size is {type(size).__name__}"
    )
    equal(f"{what}: size", int(size), stored_size(t))
    if isinstance(t, SparseTensor):
        equal(f"{what}: nnz", t.nnz, len(t.entries))
        equal(f"{what}: size", int(size), t.nnz * (dense.ndim + 1))
    if isinstance(t, (TensorTrain, CPTensor, TuckerTensor)):
        rank = t.rank if isinstance(t, CPTensor) else tuple(t.rank)
        equal(f"{what}: rank", rank, rank_of(t))
    if deep and isinstance(t, TensorSum):
        equal(f"{what}: number of summands", t.num_summands, len(t.tensors))


def check(case):
    m = ref.make_tensor(case["tensor"])
    t, dense, tol = m.lib, m.dense, 1e-12 * m.bound + 1e-300
    verify("tensor", t, dense, tol)
    history = [(t, dense)]
    for number, step in enumerate(case["steps"]):
        op, what = step["op"], f"conversion {number} ({step['op']})"
        snap = Snapshot(tensor=t)
        before = t
        if op == "T":
            t, dense = t.T, np.transpose(dense)
            require(
                type(t) is type(before),
                f"{what}: {type(before).__name__} became {type(t).__name__}",
            )
            close(f"{what}: involution", t.T.to_numpy(), before.to_numpy(), 0.0)
            equal(f"{what}: size", int(t.size), int(before.size))
            if isinstance(t, (TensorTrain, TuckerTensor)):
                equal(f"{what}: rank", tuple(t.rank), tuple(before.rank)[::-1])
        elif op == "dense":
            t = t.dense()
        elif op == "sparse":
            if not isinstance(t, DenseTensor):
                t = t.dense()
            t = t.to_sparse()
            require(isinstance(t, SparseTensor), f"{what}: not sparse")
        elif op == "split":
            if not isinstance(t, SparseTensor):
                if not isinstance(t, DenseTensor):
                    t = t.dense()
                t = t.to_sparse()
            whole = t
            t = t.split(step["n"])
            require(isinstance(t, TensorSum), f"{what}: not a sum")
            equal(f"{what}: summands", len(t.tensors), step["n"])
            for x in t.tensors:
                require(isinstance(x, SparseTensor), f"{what}: summand not sparse")
                equal(f"{what}: shape of summand", tuple(x.shape), dense.shape)
            inds = np.concatenate(
                [np.asarray(x.indices).reshape(dense.ndim, -1) for x in t.tensors],
                axis=1,
            )
            equal(f"{what}: total number of entries", inds.shape[1], whole.nnz)
            require(
                len(set(map(tuple, inds.T.tolist()))) == inds.shape[1],
                f"{what}: an entry is in several summands",
            )
            equal(f"{what}: size", int(t.size), int(whole.size))
        elif op == "mul":
            t, dense, tol = t * step["c"], dense * step["c"], tol * 2
        else:
            t = TensorSum([t])
        verify(what, t, dense, tol)
        snap.check(what)
        history.append((t, dense))
    labels = ["format=" + case["tensor"]["fmt"]]
    labels += sorted({"op=" + s["op"] for s in case["steps"]})
    return bool(np.any(dense)) and dense.size > 1, labels


@st.composite
def tts(draw):
    shape = draw(gen.shapes(dmin=2, dmax=7, size=400, mode=8))
    return {"tensor": draw(gen.tensor_of(shape, fmts=("tt",), sums=False, rmax=6))}


def check_interface(case):
    m = ref.make_tensor(case["tensor"])
    tt = m.lib
    d = len(tt.cores)
    snap = Snapshot(tensor=tt)
    lr, rl = tt.partial_dense("lr"), tt.partial_dense("rl")
    default = tt.partial_dense()
    equal("number of left contractions", len(lr), d - 1)
    equal("number of right contractions", len(rl), d - 1)
    equal("number of default contractions", len(default), d - 1)
    left = np.ones((1, 1))
    size = np.ones((1, 1))
    for k in range(d - 1):
        c = tt.cores[k]
        left = np.tensordot(left, c, axes=(1, 0)).reshape(-1, c.shape[2])
        size = np.tensordot(size, abs(c), axes=(1, 0)).reshape(-1, c.shape[2])
        tol = 1e-12 * float(np.max(size)) + 1e-300
        close(f"left contraction {k}", lr[k], left, tol)
        close(f"default contraction {k}", default[k], left, tol)
    right = np.ones((1, 1))
    size = np.ones((1, 1))
    for j in range(d - 1):
        c = tt.cores[d - 1 - j]
        right = np.tensordot(c, right, axes=(2, 0)).reshape(c.shape[0], -1)
        size = np.tensordot(abs(c), size, axes=(2, 0)).reshape(c.shape[0], -1)
        tol = 1e-12 * float(np.max(size)) + 1e-300
        close(f"right contraction {j}", rl[j], right, tol)
    for k in range(1, d):  # both together give the unfolding
        close(
            f"unfolding {k}", lr[k - 1] @ rl[d - 1 - k], ref.unfold(m.dense, k),
            1e-12 * m.bound * np.sqrt(m.dense.size) + 1e-300,
        )
    snap.check("partial_dense")
    return bool(np.any(m.dense)), [f"modes={d}"]


SUBS = [
    Sub("chain", lambda tier: cases(), check, 2500),
    Sub("interface", lambda tier: tts(), check_interface, 1000),
    Sub("large_chain", lambda tier: gen.large(cases()), check, 62),
    Sub("large_interface", lambda tier: gen.large(tts()), check_interface, 25),
    scaled.tt_sub(["dense"], 100),
]
