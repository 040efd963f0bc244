"""A DRM acts as one fixed linear map on every tensor format."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.tensor import SparseTensor

RULE = (
    "Cases are a DRM (any type, either side, whole or a slice, any seed) and a "
    "history of uses: tensors of every format it supports, subsets and repeats "
    "of positions in any order, its transpose, uses interleaved with each "
    "other. Non-trivial: at least two uses with a non-zero tensor."
)
ASSUMPTIONS = [
    "The matrices are read once, from a sparse tensor with all positions; every "
    "use has to agree with them up to 1e-11 times the norms.",
    "For right DRMs applied to dense and Tucker tensors, the modes of a "
    "contraction may be listed in either direction.",
]


@st.composite
def deep_shapes(draw):
    d = draw(st.integers(7, 10))
    return [2 if draw(st.integers(0, 2)) else 1 for _ in range(d)]


@st.composite
def cases(draw, deep=False):
    shape = draw(deep_shapes() if deep else gen.shapes(size=160, dmax=5, mode=7))
    d = len(shape)
    drm = draw(gen.drm_spec(n=d - 1, cores=True))
    if deep and draw(st.booleans()):
        drm = {"type": "tt", "seed": drm["seed"]}
        cores = draw(st.sampled_from(["small", "small", "gauss", "ones", None]))
        if cores:
            drm["cores"] = cores
    fmts = sorted(ref.DRM_FORMATS[drm["type"]])
    rank = draw(gen.ranks(d - 1, 6))
    part = None
    if draw(st.integers(0, 2)) == 0:
        lo = [draw(st.integers(0, r - 1)) for r in rank]
        part = [lo, [draw(st.integers(a + 1, r)) for a, r in zip(lo, rank)]]
    uses = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(gen.weighted(("tensor", 4), ("positions", 2), ("pair", 1)))
        use = {"kind": kind, "T": draw(st.integers(0, 3)) == 0}
        spec = gen.tensor_of(shape, fmts, rmax=4, sums=False, scales=st.just(1.0))
        if kind == "tensor":
            use["tensor"] = draw(spec)
        elif kind == "pair":
            use["tensor"], use["other"] = draw(spec), draw(spec)
        else:
            use["seed"] = draw(gen.data_seeds())
            use["n"] = draw(st.integers(0, 12))
        uses.append(use)
    return {
        "shape": shape,
        "drm": drm,
        "rank": rank,
        "right": draw(st.booleans()),
        "part": part,
        "uses": uses,
    }


METHOD = {
    "sparse": "sketch_sparse",
    "tt": "sketch_tt",
    "cp": "sketch_cp",
    "tucker": "sketch_tucker",
    "dense": "sketch_dense",
}


def half_tt(cores, k, right):
    """Interface matrix: (modes on one side of the split, rank)"""
    if right:
        res = np.ones((1, 1))
        for core in cores[:k - 1 : -1]:
            res = np.tensordot(core, res, axes=(2, 0))
            res = res.reshape(core.shape[0], -1)
        return res.T
    res = np.ones((1, 1))
    for core in cores[:k]:
        res = np.tensordot(res, core, axes=(1, 0)).reshape(-1, core.shape[2])
    return res


def half_cp(cores, k, right):
    mats = cores[k:] if right else cores[:k]
    res = np.ones((1, mats[0].shape[1]))
    for m in mats:
        res = (res[:, None, :] * m[None, :, :]).reshape(-1, m.shape[1])
    return res


def half_tucker(factors, k, right, flip):
    """(modes, ranks); ``flip`` lists the ranks in reverse order"""
    mats = factors[k:] if right else factors[:k]
    res = np.ones((1, 1))
    for U in mats:
        res = np.kron(res, U)  # (ranks, modes)
    if flip:
        ranks = [U.shape[0] for U in mats]
        cube = res.reshape(ranks + [-1])
        perm = tuple(range(len(ranks)))[::-1] + (len(ranks),)
        res = np.transpose(cube, perm).reshape(res.shape)
    return res.T


def expected(lib, fmt, mats, k, right, shape, flip):
    M = mats[k - 1]
    if fmt == "tt":
        return half_tt(lib.cores, k, right).T @ M.T
    if fmt == "cp":
        return half_cp(lib.cores, k, right).T @ M.T
    if fmt == "tucker":
        return half_tucker(lib.factors, k, right, flip).T @ M.T
    if fmt == "dense":
        if not flip:
            return M
        modes = tuple(shape[k:] if right else shape[:k])
        cube = M.reshape((M.shape[0],) + modes)
        perm = (0,) + tuple(range(len(modes), 0, -1))
        return np.transpose(cube, perm).reshape(M.shape)
    inds = np.asarray(lib.indices, dtype=np.int64)
    modes = shape[k:] if right else shape[:k]
    rows = inds[k:] if right else inds[:k]
    flat = np.zeros(inds.shape[1], dtype=np.int64)
    for n, row in zip(modes, rows):
        flat = flat * n + row
    return M[:, flat]


def magnitude(lib, fmt, size, k, right):
    """Bound of what rounding errors are relative to"""
    if fmt == "tt":
        return size * np.linalg.norm(half_tt([abs(c) for c in lib.cores], k, right))
    if fmt == "cp":
        return size * np.linalg.norm(half_cp([abs(c) for c in lib.cores], k, right))
    if fmt == "tucker":
        return size * np.linalg.norm(
            half_tucker([abs(c) for c in lib.factors], k, right, False)
        )
    return size


def compare(what, outs, lib, fmt, mats, sizes, right, shape, flip_splits):
    """``flip_splits``: outputs belong to the transposed problem"""
    d = len(shape)
    equal(f"{what}: number of contractions", len(outs), d - 1)
    orders = (False, True) if fmt in ("dense", "tucker") else (False,)
    failures = []
    for flip in orders:
        try:
            for k in range(1, d):
                want = expected(lib, fmt, mats, k, right, shape, flip)
                tol = 1e-11 * magnitude(lib, fmt, sizes[k - 1], k, right) + 1e-300
                out = outs[d - 1 - k] if flip_splits else outs[k - 1]
                close(f"{what}: contraction {k}", out, want, tol)
            return
        except Exception as exc:
            failures.append(exc)
            if not right and not flip_splits:
                raise
    raise failures[0]


def check(case):
    shape = tuple(case["shape"])
    d = len(shape)
    right = case["right"]
    drm = ref.make_drm(case["drm"], case["rank"], shape, right)
    rank = tuple(case["rank"])
    if case["part"] is not None:
        lo, hi = (tuple(x) for x in case["part"])
        drm = drm.slice(lo, hi)
        rank = tuple(b - a for a, b in zip(lo, hi))
    snap = Snapshot(drm=drm)
    equal("rank", tuple(drm.rank[::-1] if right else drm.rank), rank)
    # The matrices; constant along the other modes
    vectors = ref.drm_vectors(drm, shape, ref.all_positions(shape))
    equal("number of contractions", len(vectors), d - 1)
    mats = []
    for k, vec in enumerate(vectors, start=1):
        rows = rank[k - 1]
        n = int(np.prod(shape, dtype=int))
        equal(f"shape of contraction {k}", vec.shape, (rows, n))
        lsize = int(np.prod(shape[:k], dtype=int))
        cube = vec.reshape(rows, lsize, -1)
        mat = cube[:, 0, :] if right else cube[:, :, 0]
        whole = mat[:, None, :] if right else mat[:, :, None]
        close(
            f"contraction {k} depends on modes of the other side",
            cube,
            np.broadcast_to(whole, cube.shape),
            1e-12 * np.abs(mat).max(initial=0.0) + 1e-300,
        )
        mats.append(mat.copy())
    sizes = ref.norms(mats, case["drm"], shape, right, rank=list(case["rank"]))
    nonzero = 0
    labels = [f"drm={case['drm']['type']}", f"right={right}"]
    labels.append("slice" if case["part"] is not None else "whole")
    transposed = drm.T
    equal("shape of transposed DRM", tuple(transposed.shape), shape[::-1])
    require(bool(transposed.transpose) != right, "side of transposed DRM")
    tsnap = Snapshot(transposed=transposed)
    for number, use in enumerate(case["uses"]):
        what = f"use {number}"
        if use["kind"] == "positions":
            rng = np.random.default_rng([use["seed"], 5])
            inds = np.array(
                [rng.integers(0, n, use["n"]) for n in shape], dtype=np.int64
            ).reshape(d, use["n"])
            libs = [SparseTensor(shape, inds, np.ones(use["n"]))]
            fmts = ["sparse"]
        else:
            ms = [ref.make_tensor(use["tensor"])]
            if use["kind"] == "pair":
                ms.append(ref.make_tensor(use["other"]))
            libs = [m.lib for m in ms]
            fmts = [m.fmt for m in ms]
            nonzero += any(np.any(m.dense) for m in ms)
        tens = Snapshot(tensors=libs)
        actor = transposed if use["T"] else drm
        args = [lib.T if use["T"] else lib for lib in libs]
        gens = [
            getattr(actor, METHOD[fmt])(arg) for fmt, arg in zip(fmts, args)
        ]
        outs = [[] for _ in gens]
        for _ in range(d - 1):  # interleaved
            for gen_, out in zip(gens, outs):
                out.append(np.array(next(gen_)))
        for gen_ in gens:
            require(next(gen_, None) is None, f"{what}: too many contractions")
        for lib, fmt, out in zip(libs, fmts, outs):
            compare(
                f"{what} ({fmt}{', transposed' if use['T'] else ''})",
                out,
                lib,
                fmt,
                mats,
                sizes,
                right,
                shape,
                use["T"],
            )
            labels.append(f"fmt={fmt}{' T' if use['T'] else ''}")
        tens.check(what)
    snap.check("use")
    tsnap.check("use")
    again = ref.drm_vectors(drm, shape, ref.all_positions(shape))
    for k, (a, b) in enumerate(zip(vectors, again), start=1):
        require(np.array_equal(a, b), f"contraction {k} changed by using the DRM")
    return nonzero >= 1 and len(case["uses"]) >= 2, labels


SUBS = [
    Sub("uses", lambda tier: cases(), check, 1600),
    Sub("deep", lambda tier: cases(deep=True), check, 200),
    Sub("large", lambda tier: gen.large(cases()), check, 40),
]
