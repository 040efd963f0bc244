"""Histories of the experiment log."""
import csv
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vlib import gen
from vlib.harness import SCRATCH, Sub, require
from vlib.ref import equal

from scripts.experiment_base import Experiment
from tt_sketch.drm import DenseGaussianDRM, SparseGaussianDRM, TensorTrainDRM
from tt_sketch.sketch import hmt_sketch, orthogonal_sketch, stream_sketch

RULE = (
    "Cases are histories of up to 25 (sub-check long: 150) steps on one log file: experiments of one to "
    "three families (name and parameters, with values of one kind or mixed with "
    "None and text), repeats, experiments that raise, restarts (by constructor or load), and "
    "forced overwrites. Non-trivial: at least one repeat after a restart and two "
    "different experiments."
)
ASSUMPTIONS = [
    "Model: a list of rows. The file is read with the csv module. Values agree if "
    "they are the same number or the same text.",
    "Not generated, since a CSV file cannot tell them apart: empty text, "
    "NaN as parameters (both mean missing), a number and its text in the same column, "
    "text that looks like a number next to other text, integers above 2^53. Results are numbers and text.",
    "A parameter set that is a strict subset of another one of the same name is "
    "not generated (known finding).",
]

CLASSES = {
    "TensorTrainDRM": TensorTrainDRM, "DenseGaussianDRM": DenseGaussianDRM,
    "SparseGaussianDRM": SparseGaussianDRM, "stream_sketch": stream_sketch,
    "hmt_sketch": hmt_sketch, "orthogonal_sketch": orthogonal_sketch,
}
POOLS = {
    "int": [0, 1, 2, 10, -3, 1000000],
    "float": [0.1, 0.30000000000000004, 0.3, 1e-300, 1e22, -2.5, 1 / 3, 7.0],
    "str": ["a", "b", "A", " a", "x,y", 'q"u', "line\nbreak", "NA", "nan", "é☃", "null", "#"],
    "digits": ["5", "6", "07", "1e5", "2.50"],
    "bool": [True, False],
    "class": ["TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM"],
    "function": ["stream_sketch", "hmt_sketch", "orthogonal_sketch"],
    "tuple": [[1, 2], [1, 3], [2], [], [12]],
    "none+int": [None, 3, 4, 5],
    "near": [1e-13, 1e-14, 0.1, 0.1 + 1e-12, 0.1 + 2e-17 * 5, 1e300, 2e300, 1e-310],
    "none+near": [None, 1e-13, 1e-14, 1e5, 1e5 + 1e-10, 3, 3 + 1e-15],
    "large": [2**31, 2**31 + 1, 2**53, 2**53 - 1, -(2**40)],
    "none+large": [None, 2**53, 2**53 - 1, 2**24 + 1, 2**24],
    "near+str": ["auto", 1e-13, 2e-13, 1e9 + 1, 1e9],
    "none+str": [None, "x", "y"],
    "none+class": [None, "TensorTrainDRM", "DenseGaussianDRM"],
    "int+str": [1, 2, "auto", "max"],
}
NAMES = ["stream", "hmt", "TT-SVD, eps", "7", 'a "b"', "NA", "None"]
KEYS = ["rank", "left_drm_type", "n", "x y", "value"]
RESULTS = {
    "error": [0.5, 1e-17, 0.1, 3, math.inf, math.nan, 0.1 + 0.2],
    "time_taken": [1.25, 0.001, 1e-320],
    "steps": [1, 17, 0],
    "status": ["ok", "diverged, twice", "NA"],
}


@st.composite
def histories(draw, most=25):
    keys = draw(st.permutations(KEYS))[: draw(st.integers(1, 5))]
    kinds = {k: draw(st.sampled_from(sorted(POOLS))) for k in keys}
    families = []
    for _ in range(draw(st.integers(1, 3))):
        name = draw(st.sampled_from(NAMES))
        chosen = sorted(draw(st.sets(st.sampled_from(keys), min_size=0, max_size=4)))
        others = [set(f["keys"]) for f in families if f["name"] == name]
        if any(set(chosen) < o or o < set(chosen) for o in others):
            name = name + " with (" + "+".join(chosen) + ")"
        families.append({
            "name": name, "keys": chosen,
            "results": sorted(draw(st.sets(st.sampled_from(sorted(RESULTS)), max_size=4))),
        })
    steps = []
    done = []
    for _ in range(draw(st.integers(most // 12, most))):
        op = draw(gen.weighted(
            ("do", 8), ("repeat", 4), ("restart", 4), ("fail", 1), ("load", 1), ("overwrite", 1)
        ))
        if op == "repeat" and not done:
            op = "do"
        step = {"op": op}
        if op in ("do", "fail"):
            f = draw(st.integers(0, len(families) - 1))
            step["family"] = f
            step["values"] = [
                draw(st.integers(0, len(POOLS[kinds[k]]) - 1)) for k in families[f]["keys"]
            ]
            step["out"] = draw(st.integers(0, 100))
            step["order"] = draw(st.booleans())
            step["np"] = draw(st.booleans())
            done.append(step)
        elif op == "repeat":
            step["which"] = draw(st.integers(0, len(done) - 1))
            step["order"] = draw(st.booleans())
        steps.append(step)
    return {"kinds": kinds, "families": families, "steps": steps}


def given_value(kind, value, as_np):
    """What is passed as a parameter, and what has to be recorded"""
    if kind in ("class", "function", "none+class") and value is not None:
        return CLASSES[value], value
    if kind == "tuple":
        return tuple(value), str(tuple(value))
    if value is None:
        return None, "None"
    if as_np and isinstance(value, float):
        return np.float64(value), value
    if as_np and isinstance(value, int) and not isinstance(value, bool):
        return np.int64(value), value
    return value, value


def same(actual, expected):
    """Same number or same text"""
    if expected is None:  # missing
        if isinstance(actual, str):
            return actual == ""
        return isinstance(actual, (float, np.floating)) and math.isnan(actual)
    try:
        x, y = float(actual), float(expected)
        if x == y or (math.isnan(x) and math.isnan(y) and not isinstance(expected, str)):
            return True
    except (TypeError, ValueError):
        pass
    return str(actual) == str(expected)


def compare(what, columns, rows, model, always):
    known = set(always)
    for row in model:
        known |= set(row)
    require(
        set(columns) <= known and set().union(*model) <= set(columns) if model else True,
        f"{what}: columns {sorted(columns)} instead of {sorted(known)}",
    )
    equal(f"{what}: number of rows", len(rows), len(model))
    for k, (row, expected) in enumerate(zip(rows, model)):
        for column in columns:
            value = expected.get(column)
            if isinstance(value, float) and math.isnan(value):
                value = None
            require(
                same(row[column], value),
                f"{what}: row {k} has {column} = {row[column]!r} instead of {value!r}",
            )


def read_file(path):
    with open(path, newline="", encoding="utf-8") as file:
        table = list(csv.reader(file))
    columns = table[0][1:]
    return columns, [dict(zip(columns, row[1:])) for row in table[1:]]


class Crash(Exception):
    pass


def check(case):
    folder = tempfile.mkdtemp(prefix="log-", dir=SCRATCH)
    try:
        return run_history(case, os.path.join(folder, "log.csv"))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def run_history(case, path):
    kinds, families = case["kinds"], case["families"]
    always = ("name", "error", "time_taken")
    log = Experiment(path)
    model = []  # rows
    identities = {}
    done = []
    on_disk = None
    restarted = repeats = 0
    since = set()  # recorded before the last restart
    for number, step in enumerate(case["steps"]):
        op, what = step["op"], f"step {number} ({step['op']})"
        if op in ("restart", "load"):
            if op == "load":
                if on_disk is None:
                    continue
                log = Experiment.load(path)
            else:
                log = Experiment(path)
            if on_disk is None:
                model, identities = [], {}
            else:
                model, identities = [dict(r) for r in on_disk[0]], dict(on_disk[1])
            since = set(identities)
            restarted += 1
        elif op == "overwrite":
            log = Experiment(path, force_overwrite=True)
            model, identities, since = [], {}, set()
        else:
            order = step.get("order")
            if op == "repeat":
                step = done[step["which"]]
            else:
                done.append(step)
            family = families[step["family"]]
            params, recorded = {}, {}
            for key, index in zip(family["keys"], step["values"]):
                value = POOLS[kinds[key]][index]
                params[key], recorded[key] = given_value(kinds[key], value, step["np"])
            if order:
                params = dict(reversed(list(params.items())))
            results = {
                key: RESULTS[key][step["out"] % len(RESULTS[key])] for key in family["results"]
            }
            identity = (family["name"],) + tuple(
                sorted((k, repr(v) if not isinstance(v, (int, float)) else float(v))
                       for k, v in recorded.items())
            )
            identity = repr(identity)
            calls = []
            token = object()

            def function(input, **kwargs):
                calls.append((input, kwargs))
                if op == "fail":
                    raise Crash()
                return dict(results)

            crashed = False
            try:
                log.do_experiment(token, family["name"], function, **params)
            except Crash:
                crashed = True
            if identity in identities:
                equal(f"{what}: runs of a recorded experiment {params}", len(calls), 0)
                repeats += identity in since
            else:
                equal(f"{what}: runs of a new experiment {params}", len(calls), 1)
                require(calls[0][0] is token, f"{what}: input was not passed on")
                require(
                    set(calls[0][1]) == set(params)
                    and all(calls[0][1][k] is v for k, v in params.items()),
                    f"{what}: parameters {calls[0][1]} instead of {params}",
                )
                require(crashed == (op == "fail"), f"{what}: the error was lost")
                if not crashed:
                    model.append(dict(recorded, name=family["name"], **results))
                    identities[identity] = True
                    on_disk = ([dict(r) for r in model], dict(identities))
        rows = log.data.to_dict("records")
        compare(f"{what}: in memory", list(log.data.columns), rows, model, always)
        if on_disk is None:
            require(
                not os.path.exists(path) or not read_file(path)[1],
                f"{what}: file has rows",
            )
        else:
            columns, rows = read_file(path)
            compare(f"{what}: on disk", columns, rows, on_disk[0], always)
    labels = [f"kind={k}" for k in sorted(set(kinds.values()))]
    labels += sorted({"op=" + s["op"] for s in case["steps"]})
    labels.append(f"families={len(families)}")
    return repeats > 0 and len(identities) > 1, labels


SUBS = [
    Sub("history", lambda tier: histories(), check, 2400),
    Sub("long", lambda tier: histories(most=150), check, 60),
]
