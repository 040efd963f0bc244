"""Rounding of sums of tensor trains."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c04 import numerical_ranks, trimmed
from vlib.props.c18 import capacity, check_rounded

from tt_sketch.tensor import TensorSum, TensorTrain
from tt_sketch.tt_gmres import round_tt_sum

RULE = (
    "Cases are sums of 1 to 12 TTs (independent, repeated, cancelling, zero, of "
    "very different scale, of decaying singular values), a method, ranks (int "
    "or one per split) and for the deterministic methods a tolerance, for the "
    "sketching ones an oversampling factor. Non-trivial: a non-zero sum of at "
    "least two summands, or one that is truncated."
)
ASSUMPTIONS = [
    "Reference: the dense sum and SVDs of its unfoldings (of all partial sums "
    "for the pairwise method). Bounds hold up to 1e-11 times the sum of the "
    "norms of absolute values.",
    "The sketching methods recover a sum whose ranks fit for almost all random "
    "matrices: the best of four sketches has to agree up to 1e-6 of the sum of "
    "norms. Sums with singular values between 1e-11 and 1e-4 of the largest are "
    "not compared for them.",
]


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=200, mode=7))
    n = len(shape) - 1
    count = draw(gen.weighted((1, 2), (2, 3), (3, 3), (4, 2), (6, 1), (12, 1)))
    terms = []
    for k in range(count):
        kind = draw(gen.weighted(("new", 4), ("again", 2 if k else 0), ("zero", 1)))
        if kind == "again":
            terms.append({
                "like": draw(st.integers(0, k - 1)),
                "c": draw(st.sampled_from([-1.0, 1.0, -0.5, 2.0, 1e-9])),
            })
            continue
        spec = {
            "kind": kind,
            "rank": draw(gen.ranks(n, draw(gen.weighted((3, 3), (8, 1))))),
            "seed": draw(gen.data_seeds()),
            "base": draw(gen.weighted((1.0, 3), (0.2, 1), (1e-3, 1))),
            "scale": draw(gen.weighted((1.0, 5), (-1e-5, 1), (1e4, 1))),
            "layout": draw(gen.LAYOUTS),
        }
        terms.append(spec)
    method = draw(st.sampled_from(
        ["exact", "exact", "pairwise", "pairwise", "sketch", "sketch", "orth_sketch",
         "orth_sketch", "default", "none"]
    ))
    case = {"shape": shape, "terms": terms, "method": method}
    if draw(st.booleans()):
        case["rank"] = draw(gen.ranks(n, 8))
        case["as"] = draw(st.sampled_from(["tuple", "list", "array"]))
    else:
        case["rank"] = draw(st.one_of(st.integers(1, 8), st.integers(9, 40)))
    if method in ("exact", "pairwise"):
        case["eps"] = draw(
            st.sampled_from([None, None, 0.0, 1e-12, 1e-8, 1e-3, 0.1, 0.5])
        )
    elif method in ("sketch", "orth_sketch"):
        case["factor"] = draw(st.sampled_from([None, 2, 1.5, 1.01, 3, 2.5]))
    return case


def make_terms(case):
    shape = case["shape"]
    terms = []
    for spec in case["terms"]:
        if "like" in spec:
            cores = [c.copy() for c in terms[spec["like"]]]
            cores[-1] = cores[-1] * spec["c"]
        else:
            rank = (1,) + tuple(spec["rank"]) + (1,)
            rng = np.random.default_rng([spec["seed"], 41])
            cores = []
            for k, n in enumerate(shape):
                c = rng.standard_normal((rank[k], n, rank[k + 1])) / np.sqrt(n)
                if k < len(shape) - 1:
                    c = c * spec["base"] ** np.arange(rank[k + 1])
                cores.append(ref._layout(c, spec["layout"]))
            scale = 0.0 if spec["kind"] == "zero" else spec["scale"]
            cores[0] = ref._layout(cores[0] * scale, spec["layout"])
        terms.append(cores)
    return terms


def partial_bound(parts, ranks, eps):
    """Largest error of rounding after every addition"""
    error, total = 0.0, parts[0]
    # With several summands the first one is not rounded on its own
    steps = parts[1:] if len(parts) > 1 else [None]
    for part in steps:
        if part is not None:
            total = total + part
        bound2 = 0.0
        for s, r in zip(spectra.svals(total), ranks):
            bound2 += (np.linalg.norm(s[r:]) + error) ** 2
            if eps:
                top = s + error
                bound2 += np.sum(np.minimum(top[:r], eps * (s[0] + error)) ** 2)
        error += np.sqrt(bound2)
    return error


def check(case):
    terms = make_terms(case)
    shape = tuple(case["shape"])
    d = len(shape)
    parts = [ref.tt_dense(c) for c in terms]
    dense = sum(parts)
    bound = sum(
        float(np.linalg.norm(ref.tt_dense([abs(x) for x in c]))) for c in terms
    )
    total = TensorSum([TensorTrain(list(c)) for c in terms])
    count = len(terms)
    asked = case["rank"]
    full = [asked] * (d - 1) if isinstance(asked, int) else list(asked)
    if not isinstance(asked, int):
        asked = {"tuple": tuple, "list": list, "array": np.array}[case["as"]](asked)
    method = case["method"]
    snap = Snapshot(sum=total, **{f"summand{k}": t for k, t in enumerate(total.tensors)})
    kwargs = {} if method == "default" else {"method": None if method == "none" else method}
    if "eps" in case and case["eps"] is not None:
        kwargs["eps"] = case["eps"]
    if case.get("factor") is not None:
        kwargs["oversample_factor"] = case["factor"]
    labels = [f"method={method}", f"summands={min(count, 5)}"]
    if method == "none":
        out = round_tt_sum(total, asked, **kwargs)
        require(isinstance(out, TensorSum), "a sum that is not rounded changed its type")
        equal("number of summands", len(out.tensors), count)
        close("value", ref.dense_of(out), dense, 0.0 if out is total else 1e-12 * bound)
        snap.check("not rounding")
        return count > 1 and bool(np.any(dense)), labels
    delta = 1e-11 * bound + 1e-300
    limits = [min(a, c) for a, c in zip(full, capacity(shape))]
    truncates = False
    if method in ("exact", "pairwise"):
        out = round_tt_sum(total, asked, **kwargs)
        snap.check("rounding")
        require(isinstance(out, TensorTrain), "result is not a TT")
        eps = case["eps"] or 0.0
        if method == "exact" or count <= 2:
            request = {"rank": full}
            if eps:
                request["eps"] = eps
            error, rank, sv = check_rounded(method, out, None, dense, bound, request)
        else:
            equal("shape", tuple(out.shape), shape)
            rank = tuple(int(c.shape[2]) for c in out.cores[:-1])
            equal("rank", tuple(out.rank), rank)
            require(
                all(1 <= r <= m for r, m in zip(rank, limits)),
                f"rank {rank} exceeds {limits}",
            )
            value = ref.tt_dense(out.cores)
            require(np.all(np.isfinite(value)), "values are not finite")
            error = float(np.linalg.norm(value - dense))
            allowed = partial_bound(parts, trimmed(shape, full), eps)
            require(
                error <= allowed * (1 + 1e-9) + delta * count,
                f"{method}: error {error:.3e} exceeds {allowed:.3e}",
            )
            sv = spectra.svals(dense)
            best = max(spectra.tails(sv, limits))
            require(
                error >= best * (1 - 1e-9) - delta,
                f"{method}: error {error:.3e} below the best possible {best:.3e}",
            )
        truncates = error > 1e-9 * bound
        labels += [f"eps={'yes' if eps else 'no'}", f"truncates={truncates}"]
        return bool(np.any(dense)) and (count > 1 or truncates), labels
    # Sketching
    factor = case.get("factor") or 2
    ranks = numerical_ranks(dense) if np.any(dense) else [0] * (d - 1)
    if np.any(dense) and np.linalg.norm(dense) < 1e-4 * bound:
        ranks = None  # only noise may be left of the sum
    fits = ranks is not None and all(
        r <= a for r, a in zip(ranks, trimmed(shape, full))
    )
    errors = []
    for attempt in range(4):
        np.random.seed(attempt)
        out = round_tt_sum(total, asked, **kwargs)
        snap.check("rounding")
        require(isinstance(out, TensorTrain), "result is not a TT")
        equal("shape", tuple(out.shape), shape)
        rank = tuple(int(c.shape[2]) for c in out.cores[:-1])
        equal("rank", tuple(out.rank), rank)
        require(
            all(1 <= r <= m for r, m in zip(rank, limits)),
            f"rank {rank} exceeds {limits}",
        )
        value = ref.tt_dense(out.cores)
        require(np.all(np.isfinite(value)), "values are not finite")
        error = float(np.linalg.norm(value - dense))
        if ranks is not None:
            best = max(spectra.tails(spectra.svals(dense), limits))
            require(
                error >= best * (1 - 1e-9) - delta,
                f"{method}: error {error:.3e} below the best possible {best:.3e}",
            )
        errors.append(error)
        if not fits or error <= 1e-6 * bound + 1e-300:
            break
    if fits:
        require(
            min(errors) <= 1e-6 * bound + 1e-300,
            f"{method}: errors {errors} of a sum with ranks {ranks} that fit {full} "
            f"(norms {bound:.3e}, factor {factor})",
        )
    labels += [f"factor={case.get('factor')}", f"fits={fits}"]
    return count > 1 and bool(np.any(dense)), labels


def check_unknown(case):
    terms = make_terms(case)
    total = TensorSum([TensorTrain(c) for c in terms])
    for method in ("Exact", "svd", "", "sketching", 0, False, "none"):
        try:
            round_tt_sum(total, 2, method=method)
        except ValueError:
            continue
        except Exception as e:  # noqa: BLE001
            require(False, f"method {method!r}: {type(e).__name__} instead of ValueError")
        require(False, f"method {method!r} was not refused")
    return len(terms) > 1, []


SUBS = [
    Sub("round", lambda tier: cases(), check, 6000),
    Sub("unknown", lambda tier: cases(), check_unknown, 160),
    Sub("large", lambda tier: gen.large(cases()), check, 150),
    scaled.tt_sub(["exact", "pairwise"], 400, count=3),
]
