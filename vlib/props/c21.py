"""TT-SVD."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c04 import trimmed
from vlib.props.c18 import capacity

from tt_sketch.tensor import DenseTensor, TensorTrain
from tt_sketch.tt_svd import tt_svd

RULE = (
    "Cases are tensors in any format (nested sums, decaying spectra, exact low "
    "rank, zero tensors, unusual memory layouts) and a rank limit: none, an "
    "integer, or one per split as tuple, list or array. Non-trivial: a non-zero "
    "tensor with a limit that truncates."
)
ASSUMPTIONS = [
    "Reference: dense SVDs of the unfoldings; bounds are checked up to 1e-11 "
    "times the norm of the tensor of absolute values.",
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=6, size=300, mode=9))
    n = len(shape) - 1
    kind = draw(gen.weighted(("any", 5), ("spectrum", 3)))
    case = {"shape": shape, "kind": kind}
    if kind == "any":
        case["tensor"] = draw(gen.tensor_of(shape, rmax=5))
    else:
        case["seed"] = draw(gen.data_seeds())
        case["base"] = draw(st.sampled_from([0.9, 0.5, 0.1, 1e-2]))
        case["noise"] = draw(st.sampled_from([0.0, 1e-10, 1e-5, 1e-2]))
    limit = draw(gen.weighted(("none", 1), ("int", 2), ("tuple", 2), ("list", 1), ("array", 1)))
    case["limit"] = limit
    if limit == "int":
        case["rank"] = draw(st.integers(1, 8))
    elif limit != "none":
        case["rank"] = draw(gen.ranks(n, 6))
    return case


def build(case):
    """Tensor, dense value, bound"""
    if case["kind"] == "any":
        m = ref.make_tensor(case["tensor"])
        return m.lib, m.dense, m.bound
    rng = np.random.default_rng([case["seed"], 41])
    shape = tuple(case["shape"])
    dense = np.zeros(shape)
    for k in range(6):  # decaying sum of rank-one tensors
        term = np.ones(())
        for n in shape:
            v = rng.standard_normal(n)
            term = np.multiply.outer(term, v / np.linalg.norm(v))
        dense += case["base"] ** k * term
    dense += case["noise"] * rng.standard_normal(shape)
    return DenseTensor(dense.copy()), dense, float(np.linalg.norm(dense))


def check(case):
    lib, dense, bound = build(case)
    shape = dense.shape
    d = len(shape)
    snap = Snapshot(tensor=lib)
    if case["limit"] == "none":
        out = tt_svd(lib)
        asked = capacity(shape)
    else:
        rank = case["rank"]
        if not isinstance(rank, int):
            rank = {"tuple": tuple, "list": list, "array": np.array}[case["limit"]](rank)
        out = tt_svd(lib, rank)
        asked = case["rank"]
        asked = [asked] * (d - 1) if isinstance(asked, int) else list(asked)
    snap.check("tt_svd")
    require(isinstance(out, TensorTrain), "result is not a TT")
    equal("shape", tuple(out.shape), shape)
    rank = tuple(int(c.shape[2]) for c in out.cores[:-1])
    equal("rank attribute", tuple(out.rank), rank)
    cap = capacity(shape)
    for k in range(d - 1):
        require(
            1 <= rank[k] <= min(asked[k], cap[k]),
            f"rank {rank} exceeds the request {asked} or the shape {cap}",
        )
    defect = spectra.left_defect(out.cores)
    require(defect <= 1e-10, f"cores are not left-orthonormal ({defect:.1e})")
    value = ref.tt_dense(out.cores)
    require(np.all(np.isfinite(value)), "values are not finite")
    delta = 1e-11 * bound + 1e-300
    error = float(np.linalg.norm(value - dense))
    if case["limit"] == "none":
        require(error <= delta, f"error {error:.3e} without a rank limit")
    sv = spectra.svals(dense)
    keep = [min(a, b) for a, b in zip(trimmed(shape, asked), cap)]
    allowed = float(np.sqrt(np.sum(spectra.tails(sv, keep) ** 2)))
    require(
        error <= allowed * (1 + 1e-9) + delta,
        f"error {error:.3e} exceeds the discarded values {allowed:.3e}",
    )
    worst = float(max(spectra.tails(sv, rank)))
    require(
        error >= worst * (1 - 1e-9) - delta,
        f"error {error:.3e} is below the best possible {worst:.3e}",
    )
    inner = float(np.sum(value * (value - dense)))
    require(
        abs(inner) <= 10 * delta * (bound + float(np.linalg.norm(value))),
        f"error is not orthogonal to the result ({inner:.3e})",
    )
    truncates = allowed > 1e-9 * bound
    fmt = case["tensor"]["fmt"] if case["kind"] == "any" else "spectrum"
    return truncates, [f"format={fmt}", "limit=" + case["limit"], f"modes={d}"]


SUBS = [
    Sub("svd", lambda tier: cases(), check, 5000),
    Sub("large", lambda tier: gen.large(cases()), check, 125),
    scaled.sketch_sub(["svd"], 400, fmts=("dense",)),
]
