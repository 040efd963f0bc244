"""Exact recovery of tensors whose TT-rank fits the sketch rank."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.sketch import (
    SketchedTensorTrain,
    hmt_sketch,
    orthogonal_sketch,
    stream_sketch,
)
from tt_sketch.tensor import DenseTensor, TensorTrain

RULE = (
    "Cases are tensors of known TT-rank in every format, sketched by one of the "
    "three methods with ranks that are at least the TT-rank (up to far beyond "
    "what the shape allows), with DRMs given by type, as objects or by default. "
    "Non-trivial: non-zero tensor, TT-rank above one or several modes, and the "
    "drawn sketch is well-conditioned."
)
ASSUMPTIONS = [
    "Sketches with a condition above 1e5 on the range of the tensor, computed "
    "from the DRM's own matrices, are not compared (counted as trivial).",
    "Relative error up to 1e-12 times the condition and the root of the number "
    "of entries, capped at 1e-6 (more than 100 times what was observed).",
]

FILL = gen.weighted(("gauss", 5), ("int", 1), ("pos", 1), ("holes", 1))


@st.composite
def cases(draw, many=False):
    shape = draw(gen.many_shapes() if many else gen.shapes(size=300, dmax=5, mode=8))
    d = len(shape)
    fmt = draw(
        st.sampled_from(
            ["tt", "cp", "tucker", "dense", "sparse", "sum", "subsparse"]
            + ["tucker"] * (4 if many else 0)
        )
    )
    base = {
        "shape": shape,
        "fill": draw(FILL),
        "seed": draw(gen.data_seeds()),
        "scale": draw(gen.SCALES),
        "layout": draw(gen.LAYOUTS),
    }
    n_terms = 1
    if fmt in ("tt", "dense", "sparse"):
        base.update(fmt="tt", rank=draw(gen.ranks(d - 1, 3)), scale_at=0)
    elif fmt == "cp":
        base.update(fmt="cp", rank=draw(st.integers(1, 4)))
    elif fmt == "tucker":
        rank = [draw(st.integers(1, 3)) for _ in range(d)]
        if draw(st.booleans()):
            rank = [draw(st.integers(2, 3)) if many else rank[0]] * d
        base.update(fmt="tucker", rank=rank)
    elif fmt == "subsparse":  # few non-zeros
        base.update(
            fmt="sparse",
            nnz=draw(st.integers(0, 4)),
            order="random",
            idx=draw(st.sampled_from(["array", "tuple", "F"])),
        )
    else:
        n_terms = draw(st.integers(1, 3))
        terms = []
        for k in range(n_terms):
            kind = draw(st.sampled_from(["tt", "cp", "tucker", "sparse"]))
            term = dict(base, fmt=kind, seed=base["seed"] + k)
            if kind == "tt":
                term.update(rank=draw(gen.ranks(d - 1, 2)), scale_at=k)
            elif kind == "cp":
                term.update(rank=draw(st.integers(1, 2)))
            elif kind == "tucker":
                term.update(rank=[draw(st.integers(1, 2)) for _ in range(d)])
            else:
                term.update(nnz=draw(st.integers(1, 3)), idx="array")
            terms.append(term)
        base = {"fmt": "sum", "terms": terms, "shape": shape}
    method = draw(st.sampled_from(["hmt", "orth", "stream", "stream"]))
    if fmt == "sum":
        types = gen.drm_types_for(gen.formats_in(base))
    else:
        types = gen.drm_types_for({"sparse" if fmt == "subsparse" else fmt})
    form = draw(st.sampled_from(["tuple", "int", "huge"]))
    return {
        "tensor": base,
        "as": fmt,
        "method": method,
        "form": form,
        "extra": [draw(st.integers(0, 3)) for _ in range(d - 1)],
        "gap": [draw(st.integers(1, 4)) for _ in range(d - 1)],
        "left_bigger": method == "stream" and draw(st.booleans()),
        "left": draw(gen.drm_spec(types, d - 1)),
        "right": draw(gen.drm_spec(types, d - 1)),
        "how": draw(st.sampled_from(["type", "drm", "default", "one"])),
        "seed": draw(gen.seeds()),
    }


def numerical_ranks(dense):
    """TT-ranks, or None if not well-defined"""
    out = []
    for k in range(1, dense.ndim):
        s = np.linalg.svd(ref.unfold(dense, k), compute_uv=False)
        if s[0] == 0:
            out.append(0)
            continue
        r = int(np.sum(s > 1e-11 * s[0]))
        if s[r - 1] < 1e-4 * s[0]:
            return None
        out.append(r)
    return out


def condition(mat, r):
    if r == 0:
        return 1.0
    s = np.linalg.svd(mat, compute_uv=False)
    if len(s) < r or s[r - 1] <= 1e-12 * s[0]:
        return np.inf
    return s[0] / s[r - 1]


def enough_rows(what, mats, tt_ranks):
    """The requested ranks are at least the TT-ranks"""
    for k, (mat, r) in enumerate(zip(mats, tt_ranks), start=1):
        require(
            mat.shape[0] >= r,
            f"the {what} has rank {mat.shape[0]} at split {k}, below the TT-rank {r}",
        )


def trimmed(shape, rank):
    """Largest ranks satisfying the bounds of mode sizes and neighbours"""
    d = len(shape)
    full = [1] + list(rank) + [1]
    out = []
    for k in range(1, d):
        best = full[k]
        for step in (1, -1):
            prod, j = 1, k
            while 0 < j < d and prod < best:
                prod *= shape[j if step > 0 else j - 1]
                j += step
                best = min(best, full[j] * prod)
        out.append(best)
    return tuple(out)


def check(case):
    m = ref.make_tensor(case["tensor"])
    dense = m.dense
    shape = dense.shape
    d = len(shape)
    lib = m.lib
    if case["as"] in ("dense", "sparse"):
        data = ref._layout(dense, case["tensor"]["layout"])
        lib = DenseTensor(data)
        if case["as"] == "sparse":
            lib = lib.to_sparse()
    tt_ranks = numerical_ranks(dense)
    if tt_ranks is None:
        return False, ["tensor ill-conditioned, not compared"]
    bounds = [max(1, r) for r in tt_ranks]
    if case["form"] == "tuple":
        small = tuple(r + e for r, e in zip(bounds, case["extra"]))
        large = tuple(r + g for r, g in zip(small, case["gap"]))
    elif case["form"] == "int":
        small = max(bounds) + case["extra"][0]
        large = small + case["gap"][0]
    else:
        small = max(bounds) + 9 + 5 * case["extra"][0]
        large = small + case["gap"][0]

    def full(rank):
        return (rank,) * (d - 1) if isinstance(rank, int) else rank

    method, how = case["method"], case["how"]
    lt = ref.DRM_TYPES[case["left"]["type"]]
    rt = ref.DRM_TYPES[case["right"]["type"]]
    if how == "drm":  # the ranks of given DRMs are not trimmed
        small = trimmed(shape, full(small))
        large = tuple(r + g for r, g in zip(small, case["gap"]))
    snap = Snapshot(tensor=lib)
    if method == "hmt":
        kwargs = {"seed": case["seed"], "return_drm": True}
        if how == "drm":
            drm = ref.make_drm(case["right"], small, shape, True)
            kwargs["drm"] = drm
        elif how != "default":
            kwargs["drm_type"] = rt
        res, right = hmt_sketch(lib, small, **kwargs)
        tt = res
        R = ref.drm_mats(right, shape)
        enough_rows("right DRM", R, tt_ranks)
        conds = [
            condition(ref.unfold(dense, k) @ R[k - 1].T, tt_ranks[k - 1])
            for k in range(1, d)
        ]
    else:
        func = stream_sketch if method == "stream" else orthogonal_sketch
        lr, rr = (large, small) if case["left_bigger"] else (small, large)
        kwargs = {"seed": case["seed"], "return_drm": True}
        if how == "drm":
            kwargs["left_drm"] = ref.make_drm(case["left"], lr, shape, False)
            kwargs["right_drm"] = ref.make_drm(case["right"], rr, shape, True)
        elif how == "type":
            kwargs.update(left_drm_type=lt, right_drm_type=rt)
        elif how == "one":
            if case["seed"] % 2:
                kwargs.update(left_drm_type=lt)
            else:
                kwargs.update(right_drm_type=rt)
        res, left, right = func(lib, lr, rr, **kwargs)
        tt = res.to_tt() if method == "stream" else res
        if method == "stream":
            require(
                isinstance(res, SketchedTensorTrain), "wrong type of sketch"
            )
        L, R = ref.drm_mats(left, shape), ref.drm_mats(right, shape)
        enough_rows("left DRM", L, tt_ranks)
        enough_rows("right DRM", R, tt_ranks)
        conds = []
        for k in range(1, d):
            X = ref.unfold(dense, k)
            r = tt_ranks[k - 1]
            conds.append(condition(L[k - 1] @ X, r))
            conds.append(condition(X @ R[k - 1].T, r))
            conds.append(condition(L[k - 1] @ X @ R[k - 1].T, r))
    snap.check("sketching")
    require(isinstance(tt, TensorTrain), f"wrong type {type(tt).__name__}")
    equal("shape", tuple(tt.shape), shape)
    limit = full(small)
    require(
        all(a <= b for a, b in zip(tt.rank, limit)),
        f"rank {tt.rank} exceeds the requested {limit}",
    )
    label = [
        f"method={method}",
        f"as={case['as']}",
        f"how={how}",
        f"form={case['form']}",
        f"drm={case['left']['type']}|{case['right']['type']}",
    ]
    cond = max(conds)
    if not cond < 1e5:
        return False, ["sketch ill-conditioned, not compared"]
    got = ref.tt_dense(tt.cores)
    norm = np.linalg.norm(dense)
    if norm == 0:
        close("zero tensor", got, dense, 1e-200)
        return False, label + ["zero tensor"]
    tol = min(1e-6, 1e-12 * cond * dense.size**0.5)
    require(np.all(np.isfinite(got)), "result is not finite")
    err = np.linalg.norm(got - dense) / norm
    if os.environ.get("CALIBRATE"):
        with open("/tmp/c04.cal", "a") as f:
            f.write(f"{err:.3e} {cond:.3e} {err/tol:.3e} {method} {case['how']} {case['form']} {m.bound/norm:.2e}\n")
    require(
        err <= tol,
        f"{method}: relative error {err:.3e} (tolerance {tol:.1e}, condition "
        f"{cond:.1e}, TT-rank {tt_ranks}, sketch rank {limit})",
    )
    err2 = res.error(DenseTensor(dense), relative=True)
    close("reported error", err2, err, 1e-10 + 1e-6 * err)
    return max(tt_ranks) > 1 or d > 2, label


SUBS = [
    Sub("recovery", lambda tier: cases(), check, 1600),
    Sub("modes", lambda tier: cases(many=True), check, 200),
    Sub("large", lambda tier: gen.large(cases()), check, 40),
    scaled.sketch_sub(["stream", "orth", "hmt"], 400),
]
