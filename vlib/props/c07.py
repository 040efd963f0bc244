"""Block-wise sketches equal the sketch computed at once."""
import copy

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, equal

from tt_sketch.sketch import blocked_stream_sketch, stream_sketch

RULE = (
    "Cases are tensors in all formats, pairs of DRM types supporting them, and "
    "partitions of the left and right ranks into one to four blocks, cut "
    "independently in every mode. Non-trivial: more than one block on a side "
    "and a non-zero tensor."
)
ASSUMPTIONS = [
    "Reference: the sketch computed at once, and the contraction with the DRMs' "
    "matrices; agreement up to 1e-11 times the norm bounds. Blocks may be empty in "
    "some modes.",
]


@st.composite
def partition(draw, ranks, blocks):
    """Cumulative ranks; sometimes with blocks that are empty in some modes"""
    cols = []
    if draw(st.integers(0, 2)) == 0:
        for r in ranks:
            cuts = draw(
                st.lists(st.integers(0, r), min_size=blocks - 1, max_size=blocks - 1)
            )
            cols.append([0] + sorted(cuts) + [r])
        return [list(row) for row in zip(*cols)]
    for r in ranks:
        if r < blocks:
            blocks = r
    for r in ranks:
        cuts = draw(
            st.lists(
                st.integers(1, r - 1) if r > 1 else st.nothing(),
                min_size=blocks - 1,
                max_size=blocks - 1,
                unique=True,
            )
        )
        cols.append([0] + sorted(cuts) + [r])
    return [list(row) for row in zip(*cols)]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(size=160, dmax=5, mode=6, big=0.05))
    d = len(shape)
    groups = [
        ("sparse",),
        ("sparse", "tt", "dense"),
        ("sparse", "tt", "dense", "cp", "tucker"),
        ("cp", "tucker"),
        ("tt",),
        ("dense",),
    ]
    fmts = draw(st.sampled_from(groups))
    tensor = draw(gen.tensor_of(shape, fmts, rmax=4, nnz_max=40, max_terms=2))
    types = gen.drm_types_for(gen.formats_in(tensor))
    b1, b2 = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    small = draw(gen.ranks(d - 1, 6, rmin=2))
    large = [r + draw(st.integers(1, 3)) for r in small]
    if draw(st.booleans()):
        small, large = large, small
    return {
        "tensor": tensor,
        "left": draw(gen.drm_spec(types, d - 1, cores=True)),
        "right": draw(gen.drm_spec(types, d - 1, cores=True)),
        "left_rank": small,
        "right_rank": large,
        "left_parts": draw(partition(small, b1)),
        "right_parts": draw(partition(large, b2)),
    }


def check(case):
    m = ref.make_tensor(case["tensor"])
    shape = m.dense.shape
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    left = ref.make_drm(case["left"], lr, shape, False)
    right = ref.make_drm(case["right"], rr, shape, True)
    L, R = ref.drm_mats(left, shape), ref.drm_mats(right, shape)
    psis, omegas = ref.sketch_reference(m.dense, L, R)
    scales = (
        m.bound,
        ref.norms(L, case["left"], shape, False),
        ref.norms(R, case["right"], shape, True),
    )
    lp = [tuple(x) for x in case["left_parts"]]
    rp = [tuple(x) for x in case["right_parts"]]
    lp2, rp2 = copy.deepcopy(lp), copy.deepcopy(rp)
    snap = Snapshot(tensor=m.lib, left_drm=left, right_drm=right)
    sk = blocked_stream_sketch(m.lib, left, right, lp, rp)
    snap.check("sketching in blocks")
    equal("list of left ranks", lp, lp2)
    equal("list of right ranks", rp, rp2)
    ref.compare_sketch(
        "blocked", sk.Psi_cores, sk.Omega_mats, psis, omegas, scales, 1e-11
    )
    equal("shape", tuple(sk.shape), shape)
    equal("left rank", tuple(sk.left_rank), lr)
    equal("right rank", tuple(sk.right_rank), rr)
    whole = stream_sketch(m.lib, lr, rr, left_drm=left, right_drm=right)
    ref.compare_sketch(
        "blocked, compared to the whole",
        sk.Psi_cores,
        sk.Omega_mats,
        whole.Psi_cores,
        whole.Omega_mats,
        scales,
        1e-11,
    )
    b1, b2 = len(lp) - 1, len(rp) - 1
    labels = [
        "fmt=" + case["tensor"]["fmt"],
        f"drm={case['left']['type']}|{case['right']['type']}",
        f"blocks={b1}x{b2}",
    ]
    return b1 * b2 > 1 and bool(np.any(m.dense)), labels


SUBS = [
    Sub("blocks", lambda tier: cases(), check, 1500),
    Sub("large", lambda tier: gen.large(cases()), check, 37),
]
