"""A seed determines the result, in every process."""
import json
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, ref
from vlib.harness import HarnessError, Sub, Violation, require
from vlib.seeded_calls import call, disturb, unpack

RULE = (
    "Cases are calls of the seeded entry points with generated arguments. Each "
    "is made twice in one process with other uses of random numbers between, "
    "and in two other processes with their own hash randomisation and number "
    "of CPUs (one real CPU; or 2 to 64 reported ones), and with another seed. "
    "Non-trivial: more than four random numbers in the result."
)
ASSUMPTIONS = [
    "Results agree up to 1e-9 of the norm of each component; tensors assembled "
    "by the orthogonal and HMT sketch up to 1e-6.",
    "Seeds from 0 to 2^32-3, so that none are equal modulo 2^32-1.",
    "Other numbers of CPUs are simulated through os.cpu_count, os.sched_"
    "getaffinity and by pinning the process to one CPU.",
]

CHILDREN = {}


def child(index):
    key = (os.getpid(), index)
    if key not in CHILDREN:
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str((os.getpid() * 7919 + index * 104729) % 2**32)
        env["VERIF_CPUS"] = "1" if index == 0 else str(2 + os.getpid() % 63)
        env["VERIF_PIN"] = str(os.getpid())
        env["OPENBLAS_NUM_THREADS"] = "1"  # Not slow
        for name in ("OMP", "MKL", "NUMEXPR", "NUMBA"):
            env[name + "_NUM_THREADS"] = ["16", "2"][index]
        env["LANG"], env["TZ"] = [("C", "UTC"), ("de_CH.UTF-8", "Asia/Tokyo")][index]
        CHILDREN[key] = subprocess.Popen(
            [sys.executable, "-m", "vlib.seeded_calls"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            env=env,
            text=True,
        )
    return CHILDREN[key]


def ask(index, case, seed, state):
    proc = child(index)
    request = {"case": case, "seed": seed, "state": state}
    try:
        proc.stdin.write(json.dumps(request) + "\n")
        proc.stdin.flush()
        line = proc.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        raise HarnessError("the other process ended")
    reply = json.loads(line)
    if "error" in reply:
        raise Violation("call fails in another process: " + reply["error"])
    return unpack(reply["parts"]), unpack(reply["dense"])


@st.composite
def cases(draw):
    what = draw(
        st.sampled_from(
            [
                "stream",
                "stream",
                "orth",
                "hmt",
                "drm",
                "drm",
                "tt",
                "cp",
                "tucker",
                "sparse",
                "power",
                "normal",
            ]
        )
    )
    shape = draw(gen.shapes(size=150, dmax=5, mode=7, ones=what != "power"))
    d = len(shape)
    case = {"what": what, "shape": shape}
    small, large = draw(gen.rank_pair(d - 1, rmax=4))
    if what in ("stream", "orth", "hmt"):
        fmts = draw(
            st.sampled_from(
                [("sparse",), ("sparse", "tt", "dense"), ("cp", "tucker", "tt")]
            )
        )
        case["tensor"] = draw(gen.tensor_of(shape, fmts, rmax=3, max_terms=2))
        types = gen.drm_types_for(gen.formats_in(case["tensor"]))
        pick = st.sampled_from(types + [None])
        case["left"], case["right"] = draw(pick), draw(pick)
        if what == "orth":
            small, large = [min(a, b) for a, b in zip(small, large)], [
                max(a, b) for a, b in zip(small, large)
            ]
        if "tt" not in types and None in (case["left"], case["right"]):
            case["left"] = case["right"] = types[0]
    elif what == "drm":
        case["left"] = draw(st.sampled_from(["tt", "dense", "sg", "ss"]))
    case["left_rank"], case["right_rank"] = small, large
    case["transpose"] = draw(st.booleans())
    case["grow"] = draw(st.booleans())
    case["seed"] = draw(gen.seeds()) % (2**32 - 2)
    case["seed2"] = (
        case["seed"] + draw(st.one_of(st.integers(1, 5), st.integers(1, 2**31)))
    ) % (2**32 - 2)
    case["disturb"] = draw(gen.data_seeds())
    return case


def agree(what, first, second, bound):
    for name, a, b, tol in (
        ("component", first[0], second[0], 1e-9),
        ("result", first[1], second[1], 1e-6),
    ):
        require(len(a) == len(b), f"{what}: number of {name}s differs")
        for k, (x, y) in enumerate(zip(a, b)):
            require(
                np.shape(x) == np.shape(y), f"{what}: shape of {name} {k} differs"
            )
            scale = max(np.linalg.norm(x), np.linalg.norm(y))
            if name == "result":
                scale = max(scale, bound)
            diff = np.linalg.norm(np.asarray(x) - np.asarray(y))
            require(
                diff <= tol * scale + 1e-300,
                f"{what}: {name} {k} differs by {diff:.2e} of {scale:.2e}",
            )


def check(case):
    seed = case["seed"]
    rng = np.random.default_rng(case["disturb"])
    bound = 0.0
    if "tensor" in case:
        bound = ref.make_tensor(case["tensor"]).bound
    disturb(rng)
    first = call(case, seed)
    disturb(rng)
    second = call(case, seed)
    agree("second call with the same seed", first, second, bound)
    for index in (0, 1):
        other = ask(index, case, seed, int(rng.integers(0, 2**32)))
        where = "with one CPU" if index == 0 else "with another number of CPUs"
        agree(f"call in another process {where}", first, other, bound)
    # A different seed
    third = call(case, case["seed2"])
    numbers = sum(x.size for x in first[0])
    if case["what"] in ("stream", "orth", "hmt", "drm"):
        types = [case["left"], case["right"]] if "right" in case else [case["left"]]
        if case["what"] == "hmt":
            types = [case["right"]]
        random_bits = 1000 if set(types) != {"ss"} else 0
        if random_bits == 0:
            per = case["left_rank"] if case["what"] in ("drm", "hmt") else []
            # columns of the split with most columns
            if case["what"] == "drm":
                cols = [
                    int(np.prod(case["shape"][k:] if case["transpose"] else case["shape"][:k]))
                    for k in range(1, len(case["shape"]))
                ]
                random_bits = max(
                    c * max(1, r - 1) for c, r in zip(cols, per)
                )
            else:
                random_bits = 0
        enough = random_bits >= 60
    else:
        enough = numbers > 4
    if enough and case["seed"] != case["seed2"]:
        same = all(
            x.shape == y.shape and np.allclose(x, y, rtol=1e-12, atol=0)
            for x, y in zip(first[0], third[0])
        )
        require(
            not same,
            f"seeds {case['seed']} and {case['seed2']} give the same result",
        )
    return numbers > 4, [f"what={case['what']}"]


SUBS = [
    Sub("calls", lambda tier: cases(), check, 900),
    Sub("large", lambda tier: gen.large(cases()), check, 24),
]
