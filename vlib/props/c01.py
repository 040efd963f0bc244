"""Streaming sketch components are the two-sided contractions."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal

from tt_sketch.sketch import SketchedTensorTrain, stream_sketch
from tt_sketch.tensor import SparseTensor

RULE = (
    "Cases are tensors in all formats (and sums of them) built from explicit "
    "arrays, with pairs of DRM types supporting them, ranks and seeds. "
    "Non-trivial: the tensor is non-zero, and the sketch has a linking matrix "
    "with more than one entry."
)
ASSUMPTIONS = [
    "A DRM's matrices are read through its contraction with a sparse tensor "
    "holding every position; C08 checks that this is one fixed matrix.",
    "Agreement up to 1e-11 times the product of the Frobenius norms.",
]


@st.composite
def small_cases(draw):
    shape = draw(gen.shapes(size=draw(gen.weighted((260, 4), (1200, 1)))))
    d = len(shape)
    groups = [
        ("sparse",),
        ("sparse", "tt", "dense"),
        ("sparse", "tt", "dense", "cp", "tucker"),
        ("cp",),
        ("tucker",),
        ("cp", "tucker", "tt"),
    ]
    fmts = draw(st.sampled_from(groups))
    tensor = draw(gen.tensor_of(shape, fmts))
    types = gen.drm_types_for(gen.formats_in(tensor))
    left_rank, right_rank = draw(gen.rank_pair(d - 1, rmax=6))
    return {
        "tensor": tensor,
        "left": draw(gen.drm_spec(types, d - 1, cores=True)),
        "right": draw(gen.drm_spec(types, d - 1, cores=True)),
        "left_rank": left_rank,
        "right_rank": right_rank,
        "how": draw(st.sampled_from(["drm", "type", "mixed", "default"])),
        "seed": draw(gen.seeds()),
    }


def make_sketch(case, tensor):
    """Sketch by one of the ways to specify the DRMs"""
    shape = tensor.shape
    lr, rr = tuple(case["left_rank"]), tuple(case["right_rank"])
    how = case["how"]
    if how == "default":
        return stream_sketch(tensor, lr, rr, seed=case["seed"], return_drm=True)
    if how == "type":
        return stream_sketch(
            tensor,
            lr,
            rr,
            seed=case["seed"],
            left_drm_type=ref.DRM_TYPES[case["left"]["type"]],
            right_drm_type=ref.DRM_TYPES[case["right"]["type"]],
            return_drm=True,
        )
    left = ref.make_drm(case["left"], lr, shape, False)
    right = ref.make_drm(case["right"], rr, shape, True)
    if how == "mixed":
        sk, left2, right2 = stream_sketch(
            tensor,
            lr,
            rr,
            seed=case["seed"],
            left_drm=left,
            right_drm_type=ref.DRM_TYPES[case["right"]["type"]],
            return_drm=True,
        )
        require(left2 is left, "the given left DRM is not used")
        return sk, left2, right2
    before = Snapshot(left_drm=left, right_drm=right)
    sk, left2, right2 = stream_sketch(
        tensor, lr, rr, left_drm=left, right_drm=right, return_drm=True
    )
    require(left2 is left and right2 is right, "the given DRMs are not used")
    before.check("sketching")
    return sk, left, right


def check_small(case):
    m = ref.make_tensor(case["tensor"])
    before = Snapshot(tensor=m.lib)
    sk, left, right = make_sketch(case, m.lib)
    before.check("sketching")
    require(isinstance(sk, SketchedTensorTrain), "wrong type of sketch")
    shape = m.dense.shape
    L = ref.drm_mats(left, shape)
    R = ref.drm_mats(right, shape)
    if case["how"] == "drm":
        equal("left rank", tuple(x.shape[0] for x in L), tuple(case["left_rank"]))
        equal(
            "right rank", tuple(x.shape[0] for x in R), tuple(case["right_rank"])
        )
    psis, omegas = ref.sketch_reference(m.dense, L, R)
    scales = (
        m.bound,
        ref.norms(L, case["left"], shape, False),
        ref.norms(R, case["right"], shape, True),
    )
    ref.compare_sketch(
        "sketch", sk.Psi_cores, sk.Omega_mats, psis, omegas, scales, 1e-11
    )
    equal("shape", tuple(sk.shape), shape)
    equal("left_rank", tuple(sk.left_rank), tuple(x.shape[0] for x in L))
    equal("right_rank", tuple(sk.right_rank), tuple(x.shape[0] for x in R))
    nontrivial = bool(np.any(m.dense)) and max(o.size for o in omegas) > 1
    labels = [
        "fmt=" + case["tensor"]["fmt"],
        f"drm={case['left']['type']}|{case['right']['type']}",
        "how=" + case["how"],
        f"d={len(shape)}",
    ]
    if 1 in shape:
        labels.append("mode of size 1")
    if max(shape) > 20:
        labels.append("long mode")
    return nontrivial, labels


@st.composite
def huge_cases(draw):
    d = draw(st.integers(3, 14))
    bits = 0.0
    shape = []
    for _ in range(d):
        n = draw(
            gen.weighted((2, 1), (3, 1), (7, 1), (16, 2), (50, 3), (120, 3), (300, 2))
        )
        bits += np.log2(n)
        if bits > 62.5:
            break
        shape.append(n)
    d = len(shape)
    types = ["tt", "sg", "ss"]
    left_rank, right_rank = draw(gen.rank_pair(d - 1, rmax=4))
    return {
        "tensor": {
            "fmt": "sparse",
            "shape": shape,
            "fill": draw(gen.FILLS),
            "seed": draw(gen.data_seeds()),
            "nnz": draw(st.one_of(st.integers(1, 20), st.integers(21, 150))),
            "order": "random",
            "idx": draw(st.sampled_from(["array", "tuple", "F"])),
        },
        "left": draw(gen.drm_spec(types, d - 1, cores=True)),
        "right": draw(gen.drm_spec(types, d - 1, cores=True)),
        "left_rank": left_rank,
        "right_rank": right_rank,
        "how": draw(st.sampled_from(["drm", "type"])),
        "seed": draw(gen.seeds()),
        "perm": draw(gen.data_seeds()),
        "split": draw(st.integers(1, 4)),
    }


def check_huge(case):
    m = ref.make_tensor(case["tensor"], dense=False)
    tensor = m.lib
    shape = tuple(tensor.shape)
    before = Snapshot(tensor=tensor)
    sk, left, right = make_sketch(case, tensor)
    before.check("sketching")
    inds = ref.sparse_positions(case["tensor"])
    entries = np.array(tensor.entries)
    L = ref.drm_vectors(left, shape, inds)
    R = ref.drm_vectors(right, shape, inds)
    psis, omegas = ref.sketch_reference_sparse(shape, inds, entries, L, R)
    scales = (
        m.bound,
        ref.norms(L, case["left"], shape, False, inds),
        ref.norms(R, case["right"], shape, True, inds),
    )
    ref.compare_sketch(
        "sketch", sk.Psi_cores, sk.Omega_mats, psis, omegas, scales, 1e-11
    )
    # Other order, and as a sum
    perm = np.random.default_rng(case["perm"]).permutation(len(entries))
    other = SparseTensor(shape, inds[:, perm], entries[perm])
    lr, rr = tuple(left.rank), tuple(right.rank[::-1])
    sk2 = stream_sketch(other, lr, rr, left_drm=left, right_drm=right)
    ref.compare_sketch(
        "sketch of permuted tensor",
        sk2.Psi_cores,
        sk2.Omega_mats,
        psis,
        omegas,
        scales,
        1e-11,
    )
    cuts = np.array_split(np.arange(len(entries)), case["split"])
    total = None
    for cut in cuts:
        part = SparseTensor(shape, inds[:, cut], entries[cut])
        total = part if total is None else total + part
    sk3 = stream_sketch(total, lr, rr, left_drm=left, right_drm=right)
    ref.compare_sketch(
        "sketch of sum",
        sk3.Psi_cores,
        sk3.Omega_mats,
        psis,
        omegas,
        scales,
        1e-11,
    )
    size = 1.0
    for n in shape:
        size *= n
    labels = [f"drm={case['left']['type']}|{case['right']['type']}"]
    labels.append("entries>2^31" if size > 2**31 else "entries<=2^31")
    return bool(np.any(entries)), labels


SUBS = [
    Sub("small", lambda tier: small_cases(), check_small, 2400),
    Sub("huge", lambda tier: huge_cases(), check_huge, 280),
    Sub("large", lambda tier: gen.large(small_cases()), check_small, 60),
]
