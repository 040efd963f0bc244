"""What the experiment functions report about the approximation they time."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra
from vlib.harness import Sub, require
from vlib.ref import Snapshot, equal
from vlib.props.c04 import trimmed

from scripts.experiment_base import (
    experiment_hmt_sketch,
    experiment_orthogonal_sketch,
    experiment_stream_sketch,
    experiment_tt_round,
    experiment_tt_svd,
)
from tt_sketch.sketch import SketchedTensorTrain
from tt_sketch.tensor import TensorTrain

RULE = (
    "Cases are an experiment function, a tensor in a format it takes, ranks, DRM "
    "types, an optional recompression rank and metadata that does not matter. The "
    "function runs from one state of the random generator with and without an error "
    "function. Non-trivial: the approximation has an error above 1e-6."
)
ASSUMPTIONS = [
    "Without a seed, results depend only on the state of numpy's global generator.",
    "Errors are compared to 1e-6 plus the accuracy of the formula for TTs "
    "(root of the machine precision times the norms).",
]

RUNNERS = {
    "stream": experiment_stream_sketch, "orth": experiment_orthogonal_sketch,
    "hmt": experiment_hmt_sketch, "svd": experiment_tt_svd, "round": experiment_tt_round,
}


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=300, mode=8))
    n = len(shape) - 1
    kind = draw(st.sampled_from(["stream", "orth", "hmt", "svd", "round"]))
    fmts = ("tt",) if kind == "round" else ("sparse", "tt", "dense", "cp", "tucker")
    tensor = draw(gen.tensor_of(
        shape, fmts, rmax=6,
        fills=gen.weighted(("gauss", 3), ("pos", 1), ("holes", 1), ("steep", 1)),
        scales=gen.weighted((1.0, 3), (1e-6, 1), (1e6, 1)), sums=kind != "round",
    ))
    types = gen.drm_types_for(gen.formats_in(tensor))
    case = {
        "kind": kind, "shape": shape, "tensor": tensor,
        "left": draw(st.sampled_from(types)), "right": draw(st.sampled_from(types)),
        "state": draw(st.integers(0, 2**31)),
        "recompress": draw(gen.weighted((None, 2), (1, 1), (2, 1), (3, 1), (30, 1))),
        "meta": draw(st.sampled_from([{}, {"run": 3}, {"n_dims": 7, "name2": "x"}])),
        "value": draw(st.sampled_from([0.25, -1.0, float("inf"), "text"])),
    }
    if draw(st.booleans()):
        rank = [draw(st.integers(1, 5))] * n
        case["as_int"] = True
    else:
        rank = draw(gen.ranks(n, 5))
        case["as_int"] = False
    gap = draw(st.integers(1, 4))
    case["small"], case["large"] = rank, [r + gap for r in rank]
    case["left_bigger"] = kind == "stream" and draw(st.booleans())
    return case


def recording(drm_type, made, side):
    """The same type of DRM, with a record of those made"""

    class Recording(drm_type):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            made.append((side, bool(self.transpose)))

    return Recording


def arguments(case, recompress, made):
    def form(rank):
        return rank[0] if case["as_int"] else tuple(rank)

    kind = case["kind"]
    args = dict(case["meta"])
    small, large = form(case["small"]), form(case["large"])
    if kind in ("stream", "orth"):
        if case["left_bigger"]:
            small, large = large, small
        args.update(left_rank=small, right_rank=large)
        args["left_drm_type"] = recording(ref.DRM_TYPES[case["left"]], made, "left")
        args["right_drm_type"] = recording(ref.DRM_TYPES[case["right"]], made, "right")
    elif kind == "hmt":
        kind_of_drm = recording(ref.DRM_TYPES[case["right"]], made, "right")
        args.update(rank=small, drm_type=kind_of_drm)
    else:
        args.update(rank=small)
    if kind in ("stream", "orth", "hmt") and recompress is not None:
        args["recompression_rank"] = recompress
    return args


def run(case, tensor, recompress, probe):
    """Result, and what the error function was given"""
    np.random.seed(case["state"])
    made = []
    args = arguments(case, recompress, made)
    seen = []
    if probe:

        def error_func(*given):
            seen.append(given)
            return case["value"]

        args["error_func"] = error_func
    result = RUNNERS[case["kind"]](tensor, **args)
    equal("keys of the result", sorted(result), ["error", "time_taken"])
    require(
        isinstance(result["time_taken"], float) and 0 <= result["time_taken"] < 150,
        f"time taken is {result['time_taken']!r}",
    )
    for side in ("left", "right"):
        if any(f"{side}_drm_type" == key for key in args) or (
            side == "right" and "drm_type" in args
        ):
            require(
                (side, side == "right") in made,
                f"no {side} DRM of the requested type was made, but {made}",
            )
            require(
                (side, side == "left") not in made,
                f"a DRM of the type requested for the {side} is on the other side",
            )
    return result, seen


def cores_of(what, approx):
    if isinstance(approx, SketchedTensorTrain):
        approx = approx.to_tt()
    require(isinstance(approx, TensorTrain), f"{what} is {type(approx).__name__}")
    return approx.cores


def probe_run(case, model, recompress):
    result, seen = run(case, model.lib, recompress, True)
    equal("calls of the error function", len(seen), 1)
    equal("arguments of the error function", len(seen[0]), 2)
    equal("reported error", result["error"], case["value"])
    require(seen[0][1] is model.lib, "the error function got another tensor")
    cores = cores_of("approximation", seen[0][0])
    ranks = [c.shape[2] for c in cores[:-1]]
    value = ref.tt_dense(cores)
    equal("shape", value.shape, model.dense.shape)
    return ranks, value


def check(case):
    model = ref.make_tensor(case["tensor"])
    dense = model.dense
    norm = float(np.linalg.norm(dense))
    kind, recompress = case["kind"], case["recompress"]
    if kind in ("svd", "round"):
        recompress = None
    snap = Snapshot(tensor=model.lib)
    ranks, value = probe_run(case, model, recompress)
    result, _ = run(case, model.lib, recompress, False)
    snap.check(kind)
    labels = [f"kind={kind}", f"recompress={recompress}"]
    for k, r in enumerate(ranks):
        limit = case["small"][k]
        if recompress is not None:
            limit = min(limit, recompress)
        require(r <= limit, f"rank {r} of split {k + 1} exceeds {limit}")
    if not np.all(np.isfinite(value)):
        return False, labels + ["not finite"]
    error = float(np.linalg.norm(value - dense))
    scale = float(np.linalg.norm(value)) + norm
    if norm == 0:
        require(
            result["error"] == 0 or not np.isfinite(result["error"]),
            f"error {result['error']} relative to zero",
        )
        return False, labels + ["zero"]
    slack = 1e-12 * (scale + model.bound) / norm
    reported = float(result["error"])
    require(
        abs(reported - error / norm) <= slack + 1e-6 * reported,
        f"reported error {reported:.6e}, that of the approximation is {error / norm:.6e}",
    )
    if kind in ("svd", "round"):
        sv = spectra.svals(dense)
        keep = trimmed(dense.shape, case["small"])
        allowed = float(np.sqrt(np.sum(spectra.tails(sv, keep) ** 2)))
        require(
            error <= allowed * (1 + 1e-9) + 1e-13 * model.bound,
            f"error {error:.3e} exceeds the discarded values {allowed:.3e}",
        )
    if recompress is not None:
        _, before = probe_run(case, model, None)
        if np.all(np.isfinite(before)):
            sv = spectra.svals(before)
            keep = trimmed(before.shape, [recompress] * len(sv))
            allowed = np.sqrt(np.sum(spectra.tails(sv, keep) ** 2))
            size = float(np.linalg.norm(before))
            require(
                np.linalg.norm(value - before) <= allowed * (1 + 1e-6) + 1e-7 * size,
                "recompression loses more than the discarded singular values",
            )
    return error > 1e-6 * norm, labels


SUBS = [
    Sub("report", lambda tier: cases(), check, 2000),
    Sub("large", lambda tier: gen.large(cases()), check, 50),
]
