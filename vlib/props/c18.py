"""Rounding of tensor trains."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c04 import trimmed

from tt_sketch.tensor import TensorTrain

RULE = (
    "Cases are TTs (random, redundant sums, with prescribed decay or with the same "
    "prescribed singular values for all unfoldings, zero, with "
    "over-sized ranks) and a request: nothing, a tolerance (also one "
    "next to a singular value), ranks (integer, list or tuple), or both; as they are or already orthogonalised. "
    "Non-trivial: a non-zero TT with a rank above 1 that is to be truncated."
)
ASSUMPTIONS = [
    "Reference: dense SVDs of the unfoldings. Error bounds are checked up to "
    "1e-11 times the norm of the TT of absolute values; the number of singular "
    "values a tolerance has to keep is known up to the error made in other "
    "modes, so it is checked from both sides with that margin.",
]


@st.composite
def tts(draw, size=250, dmax=6):
    shape = draw(gen.shapes(dmin=2, dmax=dmax, size=size, mode=8))
    kind = draw(
        gen.weighted(
            ("tt", 4), ("decay", 3), ("sum", 2), ("product", 1), ("diag", 2), ("nearly", 1)
        )
    )
    n = len(shape) - 1
    if kind == "diag":  # all unfoldings have the same singular values
        terms = draw(st.integers(1, 5))
        shape = [max(m, terms) if m > 1 or k in (0, n) else 1 for k, m in enumerate(shape)]
        while gen.size_of(shape) > 20000:
            terms -= 1
            shape = [min(m, max(terms, 2)) for m in shape]
        return {
            "kind": kind, "shape": shape, "seed": draw(gen.data_seeds()),
            "coeffs": [
                draw(st.sampled_from([1.0, 0.7, -0.3, 0.1, 0.04, 0.01, 1e-4, 1e-9]))
                for _ in range(terms)
            ],
        }
    spec = {"kind": kind, "shape": shape, "seed": draw(gen.data_seeds())}
    if kind == "tt":
        spec["spec"] = draw(gen.tensor_of(shape, fmts=("tt",), sums=False, rmax=6))
    elif kind == "decay":  # random orthogonal-like cores with decaying links
        spec["rank"] = draw(gen.ranks(n, 8, rmin=2))
        spec["base"] = draw(st.sampled_from([0.5, 0.1, 1e-2, 0.9, 1e-4]))
        spec["scale"] = draw(gen.weighted((1.0, 3), (1e-7, 1), (1e6, 1)))
    elif kind == "nearly":  # cores are orthonormal up to small errors
        spec["rank"] = draw(gen.ranks(n, 5))
        spec["off"] = draw(st.sampled_from([1e-3, 1e-5, 1e-7, 3e-8, 1e-9, 1e-10]))
        spec["how"] = draw(st.sampled_from(["scale", "noise", "both", "column", "one"]))
        spec["right"] = draw(st.booleans())
        spec["scale"] = draw(gen.weighted((1.0, 3), (1e-7, 1), (1e6, 1)))
    elif kind == "sum":  # redundant
        spec["rank"] = draw(gen.ranks(n, 2))
        spec["coeffs"] = draw(
            st.lists(st.sampled_from([1.0, -1.0, 0.5, 1e-6]), min_size=2, max_size=4)
        )
    else:
        spec["rank"] = draw(gen.ranks(n, 4))
    return spec


def block_sum(parts):
    """Sum of TTs by block cores"""
    d = len(parts[0])
    out = []
    for k in range(d):
        cs = [p[k] for p in parts]
        if k == 0:
            out.append(np.concatenate(cs, axis=2))
        elif k == d - 1:
            out.append(np.concatenate(cs, axis=0))
        else:
            r1, r2 = sum(c.shape[0] for c in cs), sum(c.shape[2] for c in cs)
            big = np.zeros((r1, cs[0].shape[1], r2))
            i = j = 0
            for c in cs:
                big[i : i + c.shape[0], :, j : j + c.shape[2]] = c
                i, j = i + c.shape[0], j + c.shape[2]
            out.append(big)
    return out


def diagonal(spec):
    """Sum of products of orthonormal vectors"""
    rng = np.random.default_rng([spec["seed"], 43])
    shape, coeffs = spec["shape"], np.array(spec["coeffs"])
    r = len(coeffs)
    out = []
    for k, n in enumerate(shape):
        core = np.zeros((r, n, r))
        q = np.linalg.qr(rng.standard_normal((n, n)))[0]
        for i in range(r):
            core[i, :, i] = q[:, i] if n > 1 else 1.0
        if k == 0:
            core = core.sum(axis=0, keepdims=True)
        if k == len(shape) - 1:
            core = np.tensordot(core, coeffs.reshape(-1, 1), axes=(2, 0))
        out.append(core)
    return out


def nearly(spec):
    """Cores that are orthonormal up to small errors, but for one end"""
    rng = np.random.default_rng([spec["seed"], 53])
    shape, off, how = spec["shape"], spec["off"], spec["how"]
    if spec["right"]:
        shape = shape[::-1]
    rank = [1] + list(spec["rank"]) + [1]
    for k, n in enumerate(shape[:-1]):
        rank[k + 1] = min(rank[k + 1], rank[k] * n)
    out = []
    for k, n in enumerate(shape):
        mat = rng.standard_normal((rank[k] * n, rank[k + 1]))
        if k < len(shape) - 1:
            mat = np.linalg.qr(mat)[0]
            if how == "one" and k != spec["seed"] % (len(shape) - 1):
                out.append(mat.reshape(rank[k], n, -1))
                continue
            if how in ("scale", "both"):
                mat = mat * (1 + off)
            if how in ("noise", "both", "one"):
                mat = mat + off * rng.standard_normal(mat.shape)
            if how == "column":
                mat[:, -1] *= 1 + off
        else:
            mat = mat * spec["scale"]
        out.append(mat.reshape(rank[k], n, -1))
    if spec["right"]:
        out = [np.ascontiguousarray(c.transpose(2, 1, 0)) for c in out[::-1]]
    return out


def make_tt(spec):
    """Cores"""
    if spec["kind"] == "tt":
        return ref.make_tensor(spec["spec"]).lib.cores
    shape = spec["shape"]
    if spec["kind"] == "diag":
        return diagonal(spec)
    if spec["kind"] == "nearly":
        return nearly(spec)
    rank = (1,) + tuple(spec["rank"]) + (1,)
    rng = np.random.default_rng([spec["seed"], 37])

    def cores():
        return [
            rng.standard_normal((rank[k], n, rank[k + 1])) for k, n in enumerate(shape)
        ]

    if spec["kind"] == "decay":
        out = cores()
        for k in range(len(out) - 1):
            out[k] = out[k] * spec["base"] ** np.arange(rank[k + 1])
        out[-1] = out[-1] * spec["scale"]
        return out
    if spec["kind"] == "sum":
        first = cores()
        parts = []
        for number, c in enumerate(spec["coeffs"]):
            part = [x.copy() for x in (first if number % 2 == 0 else cores())]
            part[0] = part[0] * c
            parts.append(part)
        return block_sum(parts)
    return cores()


def bound_of(cores):
    return float(np.linalg.norm(ref.tt_dense([abs(c) for c in cores])))


@st.composite
def requests(draw, n):
    kind = draw(gen.weighted(("none", 1), ("eps", 3), ("rank", 4), ("both", 2), ("near", 2)))
    out = {"kind": kind}
    if kind == "near":  # a tolerance next to a singular value
        out["near"] = [draw(st.integers(0, 10)), draw(st.integers(0, 10))]
        out["delta"] = draw(st.sampled_from([1e-2, 1e-3, 1e-5, 1e-8, 1e-10])) * draw(
            st.sampled_from([-1, 1])
        )
    if kind in ("eps", "both"):
        out["eps"] = draw(
            st.sampled_from([0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.03, 0.2, 0.5, 0.9, 1.0])
        )
    if kind in ("rank", "both"):
        if draw(st.integers(0, 2)) == 0:
            out["rank"] = draw(st.integers(1, 8))
        else:
            out["rank"] = draw(gen.ranks(n, 6))
            out["as"] = draw(st.sampled_from(["tuple", "list", "array"]))
    return out


@st.composite
def cases(draw):
    spec = draw(tts())
    return {
        "tt": spec,
        "request": draw(requests(len(spec["shape"]) - 1)),
        "orthogonalized": draw(gen.weighted((False, 3), (True, 1))),
    }


def near_tolerance(request, dense):
    """The request with the tolerance it stands for"""
    if request["kind"] != "near":
        return request
    sv = spectra.svals(dense)
    k, i = request["near"]
    s = sv[k % len(sv)]
    s = s[s > 1e-6 * s[0]] if s[0] > 0 else s[:1]
    eps = s[i % len(s)] / s[0] * (1 + request["delta"]) if s[0] > 0 else 0.5
    return dict(request, eps=float(eps))


def request_args(request):
    kwargs = {}
    if "eps" in request:
        kwargs["eps"] = request["eps"]
    if "rank" in request:
        r = request["rank"]
        if not isinstance(r, int):
            r = {"tuple": tuple, "list": list, "array": np.array}[request["as"]](r)
        kwargs["max_rank"] = r
    return kwargs


def capacity(shape):
    d = len(shape)
    return [
        min(gen.size_of(shape[:k]), gen.size_of(shape[k:])) for k in range(1, d)
    ]


def check_rounded(what, out, cores, dense, bound, request, eps=None):
    """Properties of a rounded TT; also used for rounding sums"""
    shape = dense.shape
    d = len(shape)
    delta = 1e-11 * bound + 1e-300
    equal(f"{what}: shape", tuple(out.shape), shape)
    rank = tuple(int(c.shape[2]) for c in out.cores[:-1])
    equal(f"{what}: rank", tuple(out.rank), rank)
    equal(
        f"{what}: matching cores", rank, tuple(int(c.shape[0]) for c in out.cores[1:])
    )
    limits = list(capacity(shape))
    if cores is not None:
        limits = [min(l, c.shape[2]) for l, c in zip(limits, cores[:-1])]
    asked = request.get("rank")
    if asked is not None:
        asked = [asked] * (d - 1) if isinstance(asked, int) else list(asked)
        limits = [min(l, a) for l, a in zip(limits, asked)]
    for k in range(d - 1):
        require(
            1 <= rank[k] <= limits[k],
            f"{what}: rank {rank} exceeds the limits {limits}",
        )
    defect = spectra.right_defect(out.cores)
    require(
        defect <= 1e-10,
        f"{what}: cores are not right-orthonormal (deviation {defect:.1e})",
    )
    value = ref.tt_dense(out.cores)
    require(np.all(np.isfinite(value)), f"{what}: values are not finite")
    error = float(np.linalg.norm(value - dense))
    sv = spectra.svals(dense)
    keep = limits
    if asked is not None:
        keep = [min(k, t) for k, t in zip(keep, trimmed(shape, asked))]
    if eps is None:
        eps = request.get("eps") or 0.0
    # Largest ranks allowed, or what is below the tolerance in addition
    allowed2 = 0.0
    for s, r in zip(sv, keep):
        allowed2 += float(np.sum(s[r:] ** 2))
        allowed2 += float(np.sum(np.minimum(s[:r], eps * s[0]) ** 2)) if eps else 0.0
    require(
        error <= np.sqrt(allowed2) * (1 + 1e-9) + delta,
        f"{what}: error {error:.3e} exceeds {np.sqrt(allowed2):.3e}",
    )
    total = np.sqrt(np.sum(spectra.tails(sv, rank) ** 2))
    require(
        error <= total * (1 + 1e-9) + delta,
        f"{what}: error {error:.3e} exceeds the discarded values {total:.3e}",
    )
    worst = max(spectra.tails(sv, rank))
    require(
        error >= worst * (1 - 1e-9) - delta,
        f"{what}: error {error:.3e} is below the best possible {worst:.3e}",
    )
    # The truncation is an orthogonal projection
    inner = float(np.sum(value * (value - dense)))
    require(
        abs(inner) <= delta * (bound + np.linalg.norm(value)) * 10,
        f"{what}: error is not orthogonal to the result ({inner:.3e})",
    )
    # The tolerance, from both sides
    cut = spectra.tails(sv, rank)
    for k, s in enumerate(sv):
        # Error made in the other modes
        other = min(error, np.sqrt(max(0.0, np.sum(np.delete(cut, k) ** 2)))) * (1 + 1e-9)
        low = int(np.sum(s > eps * s[0] + other * (1 + eps) + delta))
        high = int(np.sum(s > eps * (s[0] - other) - other - delta))
        low = min(low, keep[k])
        require(
            rank[k] >= low,
            f"{what}: rank {rank[k]} at split {k}, but {low} singular values are "
            f"above the tolerance {eps}",
        )
        require(
            rank[k] <= max(1, high),
            f"{what}: rank {rank[k]} at split {k}, but only {high} singular values "
            f"are above the tolerance {eps}",
        )
    return error, rank, sv


def check(case):
    cores = make_tt(case["tt"])
    dense, bound = ref.tt_dense(cores), bound_of(cores)
    tt = TensorTrain([c.copy() for c in cores])
    request = near_tolerance(case["request"], dense)
    if case["orthogonalized"]:
        # Left-orthonormal cores, computed here
        new, R = [], np.ones((1, 1))
        for k, c in enumerate(cores):
            c = np.tensordot(R, c, axes=(1, 0))
            if k < len(cores) - 1:
                q, R = np.linalg.qr(c.reshape(-1, c.shape[2]))
                new.append(q.reshape(c.shape[0], c.shape[1], -1))
            else:
                new.append(c)
        tt = TensorTrain(new)
        cores = new
    kwargs = request_args(request)
    snap = Snapshot(tensor=tt)
    if case["orthogonalized"]:
        out = tt.round(orthogonalized=True, **kwargs)
    else:
        out = tt.round(**kwargs)
    snap.check("rounding")
    require(isinstance(out, TensorTrain), "result is not a TT")
    error, rank, sv = check_rounded("round", out, cores, dense, bound, request)
    if request["kind"] == "none":
        close("value", ref.tt_dense(out.cores), dense, 1e-11 * bound + 1e-300)
    truncates = any(
        r < min(c.shape[2], m) for r, c, m in zip(rank, cores[:-1], capacity(dense.shape))
    )
    labels = [
        "request=" + request["kind"],
        "tt=" + case["tt"]["kind"],
        f"truncates={truncates}",
    ]
    if error > 1e-9 * bound:
        labels.append("lossy")
    return bool(np.any(dense)) and truncates, labels


SUBS = [
    Sub("round", lambda tier: cases(), check, 8000),
    Sub("large", lambda tier: gen.large(cases()), check, 400),
    scaled.tt_sub(["round"], 600),
]
