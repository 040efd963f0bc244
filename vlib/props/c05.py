"""HMT and orthogonal sketches are orthogonal projections."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, scaled
from vlib.harness import Sub, require
from vlib.props.c04 import trimmed
from vlib.ref import Snapshot, close, equal

from tt_sketch.sketch import hmt_sketch, orthogonal_sketch
from tt_sketch.tensor import DenseTensor, TensorTrain

RULE = (
    "Cases are tensors in all formats (low rank, full rank, decaying, sums) with "
    "ranks mostly below what recovers them, DRMs by type, object or default. "
    "Non-trivial: the error is between 1e-8 and 1 relative to the tensor, so "
    "the projection is a proper one."
)
ASSUMPTIONS = [
    "The range of the sketched tensor is computed from the result's own cores "
    "and the DRM's matrices; for the orthogonal sketch it is compared where "
    "the two-sided contraction has a condition below 1e10.",
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(size=300, dmax=5, mode=8))
    d = len(shape)
    groups = [
        ("sparse",),
        ("sparse", "tt", "dense"),
        ("sparse", "tt", "dense", "cp", "tucker"),
        ("tt",),
        ("dense",),
        ("tucker", "cp"),
    ]
    fmts = draw(st.sampled_from(groups))
    fills = draw(gen.weighted((gen.FILLS_ALL, 3), (gen.weighted(("steep", 1)), 1)))
    tensor = draw(gen.tensor_of(shape, fmts, fills, rmax=7))
    types = gen.drm_types_for(gen.formats_in(tensor))
    left_rank = draw(gen.ranks(d - 1, 5))
    form = draw(gen.weighted(("tuple", 3), ("int", 1)))
    return {
        "tensor": tensor,
        "method": draw(st.sampled_from(["hmt", "orth"])),
        "form": form,
        "rank": left_rank,
        "gap": [draw(st.integers(1, 4)) for _ in range(d - 1)],
        "left": draw(gen.drm_spec(types, d - 1)),
        "right": draw(gen.drm_spec(types, d - 1)),
        "how": draw(st.sampled_from(["type", "drm", "default", "one"])),
        "seed": draw(gen.seeds()),
    }


def orthonormal(what, mat):
    close(what, mat.T @ mat, np.eye(mat.shape[1]), 1e-11)


def check(case):
    m = ref.make_tensor(case["tensor"])
    dense, lib = m.dense, m.lib
    shape = dense.shape
    d = len(shape)
    small = tuple(case["rank"])
    large = tuple(r + g for r, g in zip(small, case["gap"]))
    if case["form"] == "int":
        small, large = small[0], large[0]
    how, method = case["how"], case["method"]

    def full(rank):
        return (rank,) * (d - 1) if isinstance(rank, int) else tuple(rank)

    if how == "drm":
        small = trimmed(shape, full(small))
        large = tuple(r + g for r, g in zip(small, case["gap"]))
    lt = ref.DRM_TYPES[case["left"]["type"]]
    rt = ref.DRM_TYPES[case["right"]["type"]]
    kwargs = {"seed": case["seed"], "return_drm": True}
    snap = Snapshot(tensor=lib)
    left = None
    if method == "hmt":
        if how == "drm":
            kwargs["drm"] = ref.make_drm(case["right"], small, shape, True)
        elif how != "default":
            kwargs["drm_type"] = rt
        tt, right = hmt_sketch(lib, small, **kwargs)
    else:
        if how == "drm":
            kwargs["left_drm"] = ref.make_drm(case["left"], small, shape, False)
            kwargs["right_drm"] = ref.make_drm(case["right"], large, shape, True)
        elif how == "type":
            kwargs.update(left_drm_type=lt, right_drm_type=rt)
        elif how == "one":
            if case["seed"] % 2:
                kwargs.update(left_drm_type=lt)
            else:
                kwargs.update(right_drm_type=rt)
        tt, left, right = orthogonal_sketch(lib, small, large, **kwargs)
        if how != "drm":
            equal("left DRM type", type(left), {
                "type": lt,
                "one": lt if case["seed"] % 2 else rt,
                "default": ref.DRM_TYPES["tt"],
            }[how])
        L = ref.drm_mats(left, shape)
    snap.check("sketching")
    R = ref.drm_mats(right, shape)
    require(isinstance(tt, TensorTrain), f"wrong type {type(tt).__name__}")
    equal("shape", tuple(tt.shape), shape)
    want = trimmed(shape, full(small))
    equal("rank", tuple(tt.rank), want)
    if method == "orth":
        equal("rank of right DRM", tuple(x.shape[0] for x in R), full(large))
    else:
        equal("rank of right DRM", tuple(x.shape[0] for x in R), want)

    cores = [np.array(c) for c in tt.cores]
    equal("number of cores", len(cores), d)
    scale = m.bound + 1e-300
    U = np.ones((1, 1))
    compared = 0
    for k in range(1, d):
        core = cores[k - 1]
        r1, n, r2 = core.shape
        Q = core.reshape(r1 * n, r2)
        orthonormal(f"core {k - 1} is not left-orthonormal", Q)
        # range of the sketched tensor, given the earlier cores
        cube = dense.reshape(U.shape[0], n, -1)
        W = np.tensordot(U.T, cube, axes=(1, 0)).reshape(r1 * n, -1)
        W = W @ R[k - 1].T
        factor = np.linalg.norm(R[k - 1])
        ok = True
        cond = 1.0
        if method == "orth":
            omega = L[k - 1] @ ref.unfold(dense, k) @ R[k - 1].T
            u, s, vt = np.linalg.svd(omega, full_matrices=False)
            keep = s > ref.EPS * max(s[0], 1e-300)
            cond = s[0] / s[keep][-1] if s[0] > 0 else 1.0
            ok = cond < 1e10
            W = (W @ vt[keep].T) / s[keep] if s[0] > 0 else W * 0
            factor = factor / (s[keep][-1] if s[0] > 0 else 1.0)
        if ok:
            compared += 1
            defect = W - Q @ (Q.T @ W)
            close(
                f"part of the sketched range missing in core {k - 1}",
                defect,
                np.zeros_like(defect),
                (1e-11 + 3e-14 * cond) * factor * scale + 1e-300,
            )
        U = np.tensordot(U.reshape(-1, r1), core, axes=(1, 0)).reshape(-1, r2)
    best = U.T @ ref.unfold(dense, d - 1)
    close(
        "last core is not the projection of the tensor",
        cores[-1].reshape(best.shape),
        best,
        1e-11 * scale,
    )
    got = ref.tt_dense(cores)
    norm, gnorm = np.linalg.norm(dense), np.linalg.norm(got)
    require(gnorm <= norm + 1e-11 * scale, "the norm of the result is larger")
    err = dense - got
    inner = float(np.sum(err * got))
    close("error is not orthogonal to the result", inner, 0.0, 1e-10 * scale**2)
    enorm = np.linalg.norm(err)
    close(
        "Pythagoras",
        np.sqrt(enorm**2 + gnorm**2),
        norm,
        1e-10 * scale,
    )
    close("reported error", tt.error(DenseTensor(dense)), enorm, 1e-7 * scale)
    labels = [
        f"method={method}",
        "fmt=" + case["tensor"]["fmt"],
        f"how={how}",
        f"drm={case['left']['type']}|{case['right']['type']}",
        f"cores compared={compared}/{d - 1}",
    ]
    proper = norm > 0 and 1e-8 < enorm / norm < 1
    return bool(proper), labels


SUBS = [
    Sub("projection", lambda tier: cases(), check, 1800),
    Sub("large", lambda tier: gen.large(cases()), check, 45),
    scaled.sketch_sub(["orth", "hmt"], 400),
]
