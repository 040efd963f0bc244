"""Programs of tensor arithmetic against the same programs on dense arrays."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import Sub, require
from vlib.ref import Snapshot, close, equal
from vlib.props import c03

from tt_sketch.sketch import SketchedTensorTrain, stream_sketch
from tt_sketch.tensor import DenseTensor, TensorSum

RULE = (
    "Cases are programs: a pool of two to four tensors of one shape in any "
    "formats (sums and sketched tensors included) and up to ten statements "
    "(a+b, a-b, -a, a*c, c*a, a/c, a+=b, weighted sum, nested sum, dense) whose "
    "operands are any earlier values. Non-trivial: at least two statements, one "
    "of which combines tensors, and a non-zero result."
)
ASSUMPTIONS = [
    "Reference: the same program on dense arrays; agreement up to 1e-12 times "
    "the sum of the norms of the terms.",
    "A sketched tensor as left operand of + updates the sketch instead (C02); "
    "it is used as any other operand here, with the value it has (C03).",
]

NUMBERS = gen.weighted(
    (2, 2), (-1, 2), (0.5, 2), (-3.25, 2), (1e-3, 1), (1e4, 1), (0, 1), (3, 1),
    (0.1, 1), (1, 1), (-0.7, 1)
)
KINDS = gen.weighted(("py", 3), ("np", 2))


@st.composite
def cases(draw):
    shape = draw(gen.shapes(dmin=2, dmax=5, size=150, mode=6))
    n = draw(st.integers(2, 4))
    pool = []
    sketched = [False] * n
    for k in range(n):
        spec = draw(
            gen.tensor_of(
                shape,
                rmax=3,
                nnz_max=30,
                scales=gen.weighted((1.0, 4), (-2.0, 1), (1e-4, 1), (1e3, 1)),
            )
        )
        if k > 0 and draw(st.integers(0, 9)) == 0:
            spec = {
                "fmt": "sketch",
                "shape": list(shape),
                "of": draw(
                    gen.tensor_of(shape, fmts=("tt", "dense"), rmax=2, sums=False,
                                  fills=gen.weighted(("gauss", 1)))
                ),
                "left": draw(gen.ints(1, 2)),
                "right": draw(gen.ints(3, 4)),
                "seed": draw(gen.ints(0, 1000)),
            }
            sketched[k] = True
        pool.append(spec)
    ops = []
    kinds = ["sketch" if s else "any" for s in sketched]
    for _ in range(draw(st.integers(1, 10))):
        op = draw(
            st.sampled_from(
                ["add", "add", "sub", "sub", "mul", "rmul", "div", "neg", "iadd",
                 "iadd", "wsum", "nest", "dense"]
            )
        )
        i = draw(st.integers(0, len(kinds) - 1))
        j = draw(st.integers(0, len(kinds) - 1))
        step = {"op": op, "i": i}
        if op in ("add", "sub", "iadd"):
            if kinds[i] == "sketch":
                step["i"] = i = 0
            step["j"] = j
            kinds.append("sum")
        elif op in ("mul", "rmul", "div"):
            step["c"] = draw(NUMBERS)
            if op == "div" and step["c"] == 0:
                step["c"] = 4
            step["kind"] = draw(KINDS)
            kinds.append(kinds[i])
        elif op == "wsum":
            parts = draw(st.lists(st.integers(0, len(kinds) - 1), min_size=1, max_size=4))
            step["parts"] = parts
            step["coeffs"] = [draw(NUMBERS) for _ in parts]
            step["as"] = draw(st.sampled_from(["list", "array", "tuple", "gen", "intarray"]))
            step["left"] = draw(st.booleans())
            kinds.append("sum")
        elif op == "nest":
            step["parts"] = draw(
                st.lists(st.integers(0, len(kinds) - 1), min_size=1, max_size=3)
            )
            kinds.append("sum")
        elif op == "dense":
            kinds.append("any")
        else:
            kinds.append(kinds[i])
        ops.append(step)
    return {"shape": shape, "pool": pool, "ops": ops}


class Value:
    def __init__(self, lib, dense, bound):
        self.lib, self.dense, self.bound = lib, dense, bound
        self.frozen = False  # is part of a nested sum
        self.object = self  # the first value that is this same object


def build(spec):
    if spec["fmt"] != "sketch":
        m = ref.make_tensor(spec)
        return Value(m.lib, m.dense, m.bound)
    m = ref.make_tensor(spec["of"])
    sk = stream_sketch(m.lib, spec["left"], spec["right"], seed=spec["seed"])
    dense, error, _ = c03.reference(sk.Psi_cores, sk.Omega_mats)
    norm = float(np.linalg.norm(dense))
    if error > 1e-7 * norm:
        return Value(m.lib, m.dense, m.bound)
    # Rounding errors are below 1e-12 times this
    return Value(sk, dense, norm + error * 1e12)


def number(c, kind):
    if kind == "np":
        return np.int64(c) if isinstance(c, int) else np.float64(c)
    return c


def verify(what, v):
    tol = 1e-12 * v.bound + 1e-300
    equal(f"{what}: shape", tuple(v.lib.shape), v.dense.shape)
    equal(f"{what}: number of modes", v.lib.ndim, v.dense.ndim)
    close(f"{what}: value", v.lib.to_numpy(), v.dense, tol)


def check(case):
    values = [build(s) for s in case["pool"]]
    for k, v in enumerate(values):
        verify(f"tensor {k}", v)
    combined = 0
    for number_, step in enumerate(case["ops"]):
        op = step["op"]
        what = f"statement {number_} ({op})"
        snaps = [Snapshot(**{f"value {k}": v.lib}) for k, v in enumerate(values)]
        a = values[step["i"]]
        target = None
        if op in ("add", "sub", "iadd"):
            b = values[step["j"]]
            if op == "iadd" and isinstance(a.lib, TensorSum):
                if a.object.frozen:  # changes other values too, on purpose
                    op = "add"
            sign = -1 if op == "sub" else 1
            dense, bound = a.dense + sign * b.dense, a.bound + b.bound
            x = a.lib
            if op == "add":
                out = a.lib + b.lib
            elif op == "sub":
                out = a.lib - b.lib
            else:
                x += b.lib
                out = x
                if isinstance(a.lib, TensorSum):
                    require(out is a.lib, f"{what}: gave another object")
                    target = step["i"]
            require(isinstance(out, TensorSum), f"{what}: not a TensorSum")
            new = Value(out, dense, bound)
            combined += 1
        elif op in ("mul", "rmul", "div"):
            c = number(step["c"], step["kind"])
            factor = 1 / step["c"] if op == "div" else float(step["c"])
            if op == "mul":
                out = a.lib * c
            elif op == "rmul":
                out = c * a.lib
            else:
                out = a.lib / c
            require(
                type(out) is type(a.lib),
                f"{what}: {type(a.lib).__name__} became {type(out).__name__}",
            )
            new = Value(out, a.dense * factor, a.bound * abs(factor))
        elif op == "neg":
            out = -a.lib
            require(type(out) is type(a.lib), f"{what}: changed the type")
            new = Value(out, -a.dense, a.bound)
        elif op == "dense":
            out = a.lib.dense()
            require(isinstance(out, DenseTensor), f"{what}: not dense")
            new = Value(out, a.dense.copy(), a.bound)
        elif op == "nest":
            parts = [values[k] for k in step["parts"]]
            for p in parts:
                p.object.frozen = True
            new = Value(
                TensorSum([p.lib for p in parts]),
                sum(p.dense for p in parts),
                sum(p.bound for p in parts),
            )
            new.frozen = False
        else:
            parts = [values[k] for k in step["parts"]]
            coeffs = list(step["coeffs"])
            kind = step["as"]
            if kind == "intarray":
                coeffs = [int(c) for c in coeffs]
            given = {
                "list": list,
                "array": np.array,
                "tuple": tuple,
                "gen": iter,
                "intarray": np.array,
            }[kind](coeffs)
            total = TensorSum([p.lib for p in parts])
            if step["left"] and kind in ("list", "tuple", "gen"):
                out = given * total
            else:
                out = total * given
            new = Value(
                out,
                sum(p.dense * c for p, c in zip(parts, coeffs)),
                sum(p.bound * abs(c) for p, c in zip(parts, coeffs)),
            )
            combined += 1
        for k, snap in enumerate(snaps):
            if target is None or values[k].object is not values[target].object:
                snap.check(what)
        if target is not None:
            new.object = values[target].object
            for v in values:
                if v.object is new.object:
                    v.dense, v.bound = new.dense, new.bound
        verify(what, new)
        values.append(new)
    for k, v in enumerate(values):
        verify(f"value {k} at the end", v)
    labels = sorted({"op=" + s["op"] for s in case["ops"]})
    labels += sorted({"format=" + s["fmt"] for s in case["pool"]})
    nontrivial = combined > 0 and len(case["ops"]) >= 2
    return nontrivial and bool(np.any(values[-1].dense)), labels


SUBS = [
    Sub("program", lambda tier: cases(), check, 1600),
    Sub("large", lambda tier: gen.large(cases()), check, 160),
]
