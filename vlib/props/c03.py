"""Assembling a streaming sketch into a tensor train."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.drm import TensorTrainDRM
from tt_sketch.sketch import (
    SketchedTensorTrain,
    assemble_sketched_tt,
    stream_sketch,
)
from tt_sketch.sketch_container import SketchContainer
from tt_sketch.tensor import DenseTensor, TensorTrain

RULE = (
    "Cases are streaming sketches: components filled directly (linking matrices "
    "with given singular values, some exactly singular), or the sketch of a "
    "tensor. Non-trivial: the assembled tensor is non-zero and every linking "
    "matrix is well-conditioned apart from exact zeros."
)
ASSUMPTIONS = [
    "Reference: dense chain of the cores and numpy's pseudo-inverse. Linking "
    "matrices have a condition up to 1e10 apart from exact zeros; agreement up "
    "to (5e-14 + 2e-15 cond) for every linking matrix, times the norms of it and "
    "of what is chained on either side.",
]


@st.composite
def synthetic(draw):
    shape = draw(gen.shapes(size=200, dmax=5))
    n = len(shape) - 1
    left_rank, right_rank = draw(gen.rank_pair(n, rmax=5))
    return {
        "shape": shape,
        "left_rank": left_rank,
        "right_rank": right_rank,
        "fill": draw(gen.weighted(("gauss", 3), ("int", 1), ("holes", 1))),
        "seed": draw(gen.data_seeds()),
        "cond": draw(gen.weighted((1.0, 1), (10.0, 2), (1e3, 1), (1e6, 1), (1e8, 1), (1e10, 1))),
        "scale": draw(gen.weighted((1.0, 3), (1e-8, 1), (1e6, 1))),
        "zeros": draw(gen.weighted((0, 3), (1, 1), (2, 1), (9, 1))),
        "layout": draw(gen.LAYOUTS),
    }


def make_omega(case, k, r1, r2):
    """Well-conditioned apart from exact zero rows and columns"""
    s = min(r1, r2)
    z = min(case["zeros"], s) if k % 2 == 0 else 0
    rng = np.random.default_rng([case["seed"], k, 11])
    a, b = r1 - z, r2 - z
    if min(a, b) == 0:
        return np.zeros((r1, r2))
    u = np.linalg.qr(rng.standard_normal((a, a)))[0]
    v = np.linalg.qr(rng.standard_normal((b, b)))[0]
    m = min(a, b)
    sv = case["cond"] ** (-np.arange(m) / max(1, m - 1)) * case["scale"]
    core = (u[:, :m] * sv) @ v[:, :m].T
    omega = np.zeros((r1, r2))
    rows = np.sort(rng.permutation(r1)[:a])
    cols = np.sort(rng.permutation(r2)[:b])
    omega[np.ix_(rows, cols)] = core
    return omega


def reference(psis, omegas):
    """Dense value, bound of the rounding errors, bound of the size"""
    bound = np.linalg.norm(psis[0])
    pinvs, conds, sizes = [], [], []
    for omega, psi in zip(omegas, psis[1:]):
        s = np.linalg.svd(omega, compute_uv=False)
        s = s[s > 1e-13 * s[0]] if s[0] > 0 else s[:0]
        conds.append(s[0] / s[-1] if len(s) else 1.0)
        sizes.append(1 / s[-1] if len(s) else 0.0)
        bound *= np.linalg.norm(psi) * (1 / s[-1] if len(s) else 1.0)
        pinvs.append(np.linalg.pinv(omega, rcond=1e-13))
    # Chains of everything before and after each linking matrix
    before = [psis[0].reshape(-1, psis[0].shape[2])]
    for pinv, psi in zip(pinvs, psis[1:]):
        step = before[-1] @ (pinv @ psi.reshape(psi.shape[0], -1))
        before.append(step.reshape(-1, psi.shape[2]))
    after = [psis[-1].reshape(psis[-1].shape[0], -1)]
    for pinv, psi in zip(pinvs[::-1], psis[-2::-1]):
        step = (psi.reshape(-1, psi.shape[2]) @ pinv) @ after[-1]
        after.append(step.reshape(psi.shape[0], -1))
    after.reverse()  # after[k] starts with core k
    norm = np.linalg.norm
    error = 0.0
    for k, (cond, size) in enumerate(zip(conds, sizes)):
        eps = 5e-14 + 2e-15 * cond
        # Errors of a core times the pseudo-inverse, on either side
        left = norm(before[k - 1]) * (sizes[k - 1] if k else 0) if k else 1.0
        right = norm(after[k + 2]) * sizes[k + 1] if k + 1 < len(sizes) else 1.0
        error += eps * size * left * norm(psis[k]) * norm(after[k + 1])
        error += eps * size * norm(before[k]) * norm(psis[k + 1]) * right
    shape = tuple(p.shape[1] for p in psis)
    return before[-1].reshape(shape), error, bound


def compare(sk, container, psis, omegas, other):
    dense, error, bound = reference(psis, omegas)
    tol = error + 1e-300
    shape = dense.shape
    lr = tuple(p.shape[0] for p in psis[1:])
    rr = tuple(p.shape[2] for p in psis[:-1])
    snap = Snapshot(sketch=sk)
    right = TensorTrain(assemble_sketched_tt(container, direction="right"))
    left = TensorTrain(assemble_sketched_tt(container, direction="left"))
    auto = TensorTrain(assemble_sketched_tt(container))
    tt = sk.to_tt()
    for name, t in (("right", right), ("left", left), ("auto", auto), ("to_tt", tt)):
        equal(f"{name}: shape", tuple(t.shape), shape)
        close(f"{name}: value", ref.tt_dense(t.cores), dense, tol)
    for name in ("left", "right", "auto"):
        cores = sk.C_cores(direction=name)
        close(f"C_cores {name}", ref.tt_dense(cores), dense, tol)
    equal("rank when absorbing to the right", tuple(right.rank), lr)
    equal("rank when absorbing to the left", tuple(left.rank), rr)
    smaller = rr if all(a > b for a, b in zip(lr, rr)) else lr
    equal("automatic rank", tuple(auto.rank), smaller)
    equal("rank of to_tt", tuple(tt.rank), smaller)
    close("to_numpy", sk.to_numpy(), dense, tol)
    if not 1e-140 < bound < 1e140:  # squares leave the range of numbers
        snap.check("converting")
        return dense
    norm = np.linalg.norm(dense)
    size = np.sqrt(dense.size)
    close("norm", sk.norm(), norm, 10 * tol * size + 1e-7 * norm)
    onorm = np.linalg.norm(other)
    lib_other = DenseTensor(other)
    dot_tol = 10 * size * tol * onorm + 1e-11 * norm * onorm
    value = float(np.sum(dense * other))
    close("inner product", sk.dot(lib_other), value, dot_tol)
    close("reversed inner product", lib_other.dot(sk), value, dot_tol)
    err = float(np.linalg.norm(dense - other))
    err_tol = 10 * size * tol + 1e-11 * (norm + onorm)
    close("error", sk.error(lib_other), err, err_tol)
    if onorm > 0:
        close(
            "relative error",
            sk.error(lib_other, relative=True),
            err / onorm,
            err_tol / onorm,
        )
    snap.check("converting")
    return dense


def check_synthetic(case):
    shape = tuple(case["shape"])
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    psis = [
        ref.make_array(
            ((1,) + lr)[k : k + 1] + (shape[k],) + (rr + (1,))[k : k + 1],
            case["fill"],
            case["seed"],
            k,
            case["layout"],
        )
        for k in range(len(shape))
    ]
    omegas = [make_omega(case, k, a, b) for k, (a, b) in enumerate(zip(lr, rr))]
    container = SketchContainer(
        [p.copy() if case["layout"] == "C" else p for p in psis],
        [o.copy() for o in omegas],
    )
    equal("shape", tuple(container.shape), shape)
    equal("left rank", tuple(container.left_rank), lr)
    equal("right rank", tuple(container.right_rank), rr)
    left = TensorTrainDRM(lr, shape, transpose=False, seed=1)
    right = TensorTrainDRM(rr, shape, transpose=True, seed=2)
    sk = SketchedTensorTrain(container, left, right)
    other = ref.make_array(shape, "gauss", case["seed"], 99)
    dense = compare(sk, container, psis, omegas, other)
    labels = [f"zeros={case['zeros']}", f"cond={case['cond']:g}"]
    labels.append("left bigger" if lr > rr else "right bigger")
    return bool(np.any(dense)), labels


@st.composite
def sketched(draw):
    shape = draw(gen.shapes(size=200, dmax=4, mode=7))
    n = len(shape) - 1
    # full TT-rank is at least the sketch rank: generic linking matrices
    left_rank, right_rank = draw(gen.rank_pair(n, rmax=4))
    return {
        "shape": shape,
        "left_rank": left_rank,
        "right_rank": right_rank,
        "data": draw(gen.data_seeds()),
        "fmt": draw(st.sampled_from(["dense", "sparse"])),
        "drm": draw(st.sampled_from(["tt", "dense"])),
        "seed": draw(gen.seeds()),
        "op": draw(st.sampled_from(["none", "T", "neg"])),
    }


def check_sketched(case):
    shape = tuple(case["shape"])
    data = ref.make_array(shape, "gauss", case["data"])
    tensor = DenseTensor(data)
    if case["fmt"] == "sparse":
        tensor = tensor.to_sparse()
    sk = stream_sketch(
        tensor,
        tuple(case["left_rank"]),
        tuple(case["right_rank"]),
        seed=case["seed"],
        left_drm_type=ref.DRM_TYPES[case["drm"]],
        right_drm_type=ref.DRM_TYPES[case["drm"]],
    )
    other = data
    if case["op"] == "T":
        sk, other = sk.T, np.transpose(data)
    elif case["op"] == "neg":
        sk = -sk
    psis = [np.array(p) for p in sk.Psi_cores]
    omegas = [np.array(o) for o in sk.Omega_mats]
    for omega in omegas:
        s = np.linalg.svd(omega, compute_uv=False)
        if s[-1] < 1e-10 * s[0]:
            return False, ["ill-conditioned, not compared"]
    compare(sk, sk.sketch_, psis, omegas, np.ascontiguousarray(other))
    return True, [f"drm={case['drm']}", f"fmt={case['fmt']}", f"op={case['op']}"]


SUBS = [
    Sub("synthetic", lambda tier: synthetic(), check_synthetic, 1200),
    Sub("sketched", lambda tier: sketched(), check_sketched, 500),
    Sub("large_synthetic", lambda tier: gen.large(synthetic()), check_synthetic, 30),
    Sub("large_sketched", lambda tier: gen.large(sketched()), check_sketched, 24),
    scaled.sketch_sub(["stream"], 400, extreme=(-560, 540)),
]
