"""Addition, orthogonalisation and norm of tensor trains."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref, spectra, scaled
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props.c18 import bound_of, capacity, make_tt, tts

from tt_sketch.tensor import TensorTrain

RULE = (
    "Cases are chains of two to four TTs of one shape (random, redundant, "
    "rank-deficient, zero, over-sized ranks) that are added and orthogonalised "
    "in generated order. Non-trivial: a non-zero total with a rank above 1."
)
ASSUMPTIONS = [
    "Reference: dense sums; agreement up to 1e-12 times the norms of the TTs of "
    "absolute values (1e-11 after orthogonalisation).",
]


@st.composite
def cases(draw):
    first = draw(tts(dmax=7))
    shape = first["shape"]
    n = draw(st.integers(1, 4))
    specs = [first]
    for _ in range(n - 1):
        spec = {
            "kind": "tt",
            "shape": shape,
            "spec": draw(
                gen.tensor_of(shape, fmts=("tt",), sums=False, rmax=5)
            ),
        }
        specs.append(spec)
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["add", "add", "orth", "orth"]))
        step = {"op": op, "i": draw(st.integers(0, 20))}
        if op == "add":
            step["j"] = draw(st.integers(0, 20))
        ops.append(step)
    return {"tts": specs, "ops": ops}


def check(case):
    values = []  # (lib, dense, bound)
    for spec in case["tts"]:
        cores = make_tt(spec)
        values.append(
            (
                TensorTrain([c.copy() for c in cores]),
                ref.tt_dense(cores),
                bound_of(cores),
            )
        )
    seen = 0
    for number, step in enumerate(case["ops"]):
        what = f"step {number} ({step['op']})"
        snaps = [Snapshot(**{f"TT {k}": v[0]}) for k, v in enumerate(values)]
        tt, dense, bound = values[step["i"] % len(values)]
        if step["op"] == "add":
            other, dense2, bound2 = values[step["j"] % len(values)]
            if max(tt.rank + other.rank) > 40:
                continue
            out = tt.add(other)
            dense, bound = dense + dense2, bound + bound2
            equal(
                f"{what}: rank", tuple(out.rank),
                tuple(a + b for a, b in zip(tt.rank, other.rank)),
            )
            tol = 1e-12 * bound
        else:
            out = tt.orthogonalize()
            tol = 1e-11 * bound
            for k, (a, b, c) in enumerate(
                zip(out.rank, tt.rank, capacity_left(dense.shape))
            ):
                require(
                    1 <= a <= min(b, c),
                    f"{what}: rank {a} at split {k} with rank {b} before and {c} rows",
                )
            defect = spectra.left_defect(out.cores)
            require(
                defect <= 1e-10,
                f"{what}: cores are not left-orthonormal (deviation {defect:.1e})",
            )
            norm = float(np.linalg.norm(out.cores[-1]))
            true = float(np.linalg.norm(dense))
            require(
                abs(norm - true) <= tol + 1e-300,
                f"{what}: norm of the last core {norm!r} is not {true!r}",
            )
        require(isinstance(out, TensorTrain), f"{what}: result is not a TT")
        equal(f"{what}: shape", tuple(out.shape), dense.shape)
        close(f"{what}: value", ref.tt_dense(out.cores), dense, tol + 1e-300)
        equal(
            f"{what}: rank attribute", tuple(out.rank),
            tuple(c.shape[2] for c in out.cores[:-1]),
        )
        norm, true = float(out.norm()), float(np.linalg.norm(dense))
        require(
            abs(norm - true) <= 1e-11 * bound + 1e-300,
            f"{what}: norm {norm!r} instead of {true!r}",
        )
        for snap in snaps:
            snap.check(what)
        values.append((out, dense, bound))
        seen += 1
    nontrivial = (
        seen > 0
        and bool(np.any(values[-1][1]))
        and max(values[-1][0].rank) > 1
    )
    return nontrivial, sorted({"op=" + s["op"] for s in case["ops"]}) + [
        "tt=" + case["tts"][0]["kind"], f"modes={len(values[0][1].shape)}"
    ]


def capacity_left(shape):
    return [gen.size_of(shape[:k]) for k in range(1, len(shape))]


SUBS = [
    Sub("chain", lambda tier: cases(), check, 4000),
    Sub("large", lambda tier: gen.large(cases()), check, 100),
    scaled.tt_sub(["orthogonalize", "norm", "add"], 800, count=3),
]
