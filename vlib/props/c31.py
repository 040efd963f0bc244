"""Sketches are nearly as good as the best approximation of lower rank."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra
from vlib.harness import Sub, require
from vlib.ref import equal
from vlib.props.c04 import trimmed
from vlib.props.c18 import capacity

from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch
from tt_sketch.tensor import CPTensor, DenseTensor, SparseTensor, TensorTrain, TuckerTensor

RULE = (
    "Cases are a tensor with decaying singular values in one of the formats, a "
    "sketching method, DRM types, ranks with oversampling and a base seed; the "
    "sketch is made for 24 seeds. Non-trivial: the best approximation of the lower "
    "rank has an error above 1e-9 of the norm."
)
ASSUMPTIONS = [
    "Reference: mean squared error of randomised projections with Gaussian matrices "
    "(Halko, Martinsson and Tropp, theorem 10.5) added up over the splits, from dense "
    "SVDs of the unfoldings. The median of the 24 errors may exceed its root FACTOR "
    "times (other DRM types and the chain of splits are not covered by the theorem; "
    "the factors are more than twice the largest ratio seen in calibration runs).",
    "Sparse sign DRMs are judged only if every unfolding has at least eight rows and "
    "columns (a few random signs are dependent with a probability that counts).",
    "No error may be below the best possible one of the result's ranks.",
]

SEEDS = 24
FACTOR = {"hmt": 1.8, "orth": 1.1, "stream": 1.9}
SIGN_FACTOR = 3.0


@st.composite
def cases(draw):
    d = draw(st.integers(2, 5))
    top = {2: 24, 3: 9, 4: 6, 5: 4}[d]
    shape = [draw(st.integers(max(2, top // 2), top)) for _ in range(d)]
    if d > 2 and draw(st.integers(0, 4)) == 0:
        shape[draw(st.integers(0, d - 1))] = 1
    fmt = draw(st.sampled_from(["dense", "sparse", "tt", "cp", "tucker", "sum"]))
    method = draw(st.sampled_from(["hmt", "orth", "stream", "stream"]))
    fmts = {"sum": {"sparse", "tt"}}.get(fmt, {fmt})
    types = gen.drm_types_for(fmts)
    rank = [draw(st.integers(4, 8)) for _ in range(d - 1)]
    if draw(st.booleans()):
        rank = rank[:1] * (d - 1)
    return {
        "shape": shape, "fmt": fmt, "method": method,
        "left": draw(st.sampled_from(types + ["default"])),
        "right": draw(st.sampled_from(types + ["default"])),
        "decay": draw(st.sampled_from([0.9, 0.6, 0.3, 0.1])),
        "terms": draw(st.integers(2, 12)),
        "noise": draw(st.sampled_from([0.0, 1e-8, 1e-4, 1e-2])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-8, 1e9])),
        "rank": rank,
        "gap": [draw(st.integers(4, 8)) for _ in range(d - 1)],
        "left_bigger": method == "stream" and draw(st.booleans()),
        "as_int": draw(st.booleans()),
        "data": draw(gen.data_seeds()), "seed": draw(st.integers(0, 2**31)),
    }


def build(case):
    """Tensor and its dense value"""
    rng = np.random.default_rng([case["data"], 77])
    shape = tuple(case["shape"])
    fmt, noise, scale = case["fmt"], case["noise"], case["scale"]
    weights = case["decay"] ** np.arange(case["terms"])
    vecs = [rng.standard_normal((n, case["terms"])) for n in shape]
    vecs = [v / np.linalg.norm(v, axis=0) for v in vecs]
    if fmt == "cp":
        vecs[0] = vecs[0] * weights * scale
        return CPTensor([v.copy() for v in vecs]), ref.cp_dense(vecs)
    vecs[0] = vecs[0] * weights * scale
    dense = ref.cp_dense(vecs)
    size = float(np.linalg.norm(dense))
    if fmt == "tucker":
        core = dense + noise * size * rng.standard_normal(shape) / np.sqrt(dense.size)
        rot = [np.linalg.qr(rng.standard_normal((n, n)))[0] for n in shape]
        full = core
        for k, q in enumerate(rot):
            full = np.moveaxis(np.tensordot(q, full, axes=(0, k)), 0, k)
        return TuckerTensor([q.copy() for q in rot], core.copy()), full
    if fmt in ("tt", "sum"):
        # exact TT of the decaying tensor, split by split
        cores, rest, r = [], dense, 1
        for n in shape[:-1]:
            u, s, vt = np.linalg.svd(rest.reshape(r * n, -1), full_matrices=False)
            cores.append(u.reshape(r, n, -1))
            r, rest = len(s), s[:, None] * vt
        cores.append(rest.reshape(r, shape[-1], 1))
        tt = TensorTrain(cores)
        if fmt == "tt":
            return tt, dense
        count = min(6, dense.size)
        flat = rng.choice(dense.size, count, replace=False)
        add = noise * size * rng.standard_normal(count)
        sparse = SparseTensor(shape, np.array(np.unravel_index(flat, shape)), add)
        total = dense.copy().reshape(-1)
        total[flat] += add
        return tt + sparse, total.reshape(shape)
    dense = dense + noise * size * rng.standard_normal(shape) / np.sqrt(dense.size)
    if fmt == "sparse":
        dense = dense * (rng.random(shape) < 0.7)
        if not np.any(dense):
            dense[(0,) * len(shape)] = scale
        inds = np.array(np.nonzero(dense))
        return SparseTensor(shape, inds, dense[tuple(inds)]), dense
    return DenseTensor(dense.copy()), dense


def expected(dense, small, large, exact=True):
    """Root mean squared error of projections with Gaussian matrices"""
    total = 0.0
    cap = capacity(dense.shape)
    for s, r, big, c in zip(spectra.svals(dense), small, large, cap):
        best = 0.0 if exact and r >= c else np.inf
        for j in range(0, r - 1):
            best = min(best, (1 + j / (r - j - 1)) * np.sum(s[j:] ** 2))
        if big is not None:
            best *= 1 + r / (big - r - 1)
        total += best
    return float(np.sqrt(total))


def used_rank(side, drm, want, shape):
    """The DRM has the rank that was asked for, or all that can matter"""
    got = list(drm.rank[::-1] if side == "right" else drm.rank)
    low = trimmed(shape, want)
    require(
        len(got) == len(want) and all(a <= r <= w for a, r, w in zip(low, got, want)),
        f"{side} DRM of rank {got} is used for the requested rank {want}",
    )


def sketch(case, tensor, seed):
    """Cores of the result"""
    d = len(case["shape"])
    rank = tuple(case["rank"])
    large = tuple(r + g for r, g in zip(rank, case["gap"]))
    if case["as_int"]:
        rank, large = rank[:1] * (d - 1), (rank[0] + case["gap"][0],) * (d - 1)
    form = (lambda r: r[0]) if case["as_int"] else tuple
    shape = tuple(case["shape"])
    types = {}
    for side in ("left", "right"):
        if case[side] != "default":
            types[side + "_drm_type"] = ref.DRM_TYPES[case[side]]
    if case["method"] == "hmt":
        kwargs = {}
        if case["right"] != "default":
            kwargs["drm_type"] = ref.DRM_TYPES[case["right"]]
        out, drm = hmt_sketch(tensor, form(rank), seed=seed, return_drm=True, **kwargs)
        used_rank("right", drm, rank, shape)
    elif case["method"] == "orth":
        out, left, right = orthogonal_sketch(
            tensor, form(rank), form(large), seed=seed, return_drm=True, **types
        )
        used_rank("left", left, rank, shape)
        used_rank("right", right, large, shape)
    else:
        if case["left_bigger"]:
            rank, large = large, rank
        out, left, right = stream_sketch(
            tensor, form(rank), form(large), seed=seed, return_drm=True, **types
        )
        out = out.to_tt()
        used_rank("left", left, rank, shape)
        used_rank("right", right, large, shape)
    equal("shape", tuple(out.shape), tuple(case["shape"]))
    return out.cores


def check(case):
    tensor, dense = build(case)
    d = dense.ndim
    size = float(np.linalg.norm(dense))
    small = list(case["rank"])
    large = [r + g for r, g in zip(small, case["gap"])]
    if case["as_int"]:
        small = small[:1] * (d - 1)
        large = large[:1] * (d - 1)
    used = [case["right"]] if case["method"] == "hmt" else [case["left"], case["right"]]
    exact = "ss" not in used
    if case["method"] == "hmt":
        bound = expected(dense, small, [None] * (d - 1), exact)
    else:
        bound = expected(dense, small, large, exact)
    factor = FACTOR[case["method"]] * (1 if exact else SIGN_FACTOR)
    sv = spectra.svals(dense)
    errors = []
    for k in range(SEEDS):
        cores = sketch(case, tensor, (case["seed"] + k * 7919) % 2**32)
        value = ref.tt_dense(cores)
        error = float(np.linalg.norm(value - dense))
        ranks = [c.shape[2] for c in cores[:-1]]
        require(
            all(r <= s for r, s in zip(ranks, small)),
            f"ranks {ranks} exceed the requested {small}",
        )
        worst = float(max(spectra.tails(sv, ranks), default=0))
        require(
            error >= worst * (1 - 1e-7) - 1e-11 * size,
            f"error {error:.3e} is below the best possible {worst:.3e}",
        )
        errors.append(error)
    median = float(np.median(errors))
    floor = 1e-9 * size
    ratio = median / (bound + floor)
    if os.environ.get("CALIBRATE") and bound > floor:
        with open("/tmp/c31-calibrate.log", "a") as file:
            file.write(f"{case['method']}{exact} {ratio:.2f} {case}\n")
    require(
        ratio <= factor or not exact and min(capacity(dense.shape)) < 8,
        f"median error {median:.3e} of {SEEDS} sketches, {bound:.3e} is expected",
    )
    labels = [
        f"method={case['method']}", f"format={case['fmt']}",
        f"drm={case['left']}|{case['right']}",
    ]
    return bound > 1e-9 * size, labels


SUBS = [Sub("quasi", lambda tier: cases(), check, 480)]
