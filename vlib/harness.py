"""Generated-input search: workers, counting, shrinking, replay and evidence."""
import collections
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.environ.get("VERIF_DIR", "/verif")
SRC = os.environ.get("VERIF_SRC", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")

CASE_CPU_LIMIT = 150  # seconds of CPU for one case; they normally take < 1 s
SHRINK_SECONDS = 25


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The check itself is wrong or can't run."""


# Numbers of cases are multiplied so that a quick run takes about 15 s
FACTOR = {
    "C01": 2, "C02": 3, "C03": 3, "C04": 4, "C05": 3.5, "C06": 4, "C07": 2.5,
    "C08": 5, "C09": 4.5, "C10": 1.5, "C11": 3.5, "C13": 2.5, "C14": 3,
    "C15": 1.5, "C16": 2, "C17": 5, "C18": 3, "C19": 3.5, "C20": 3.5, "C21": 5,
    "C22": 3.5, "C24": 3, "C25": 3, "C26": 1.5, "C29": 3, "C30": 1.5, "C32": 2.5,
}


class Hang(BaseException):
    pass


class Sub:
    """One executable check: a generator of cases and an oracle.

    ``strategy(tier)`` gives a Hypothesis strategy of JSON-able cases.
    ``check(case)`` raises ``Violation``, or returns ``(nontrivial, labels)``.
    """

    def __init__(self, name, strategy, check, quick, thorough=None, jobs=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 20 * quick
        self.jobs = jobs


def check_imports():
    """The code under test has to be the scratch copy"""
    import tt_sketch.tensor

    path = os.path.abspath(tt_sketch.tensor.__file__)
    if not path.startswith(os.path.join(SRC, "")):
        raise HarnessError(f"tt_sketch is imported from {path}, not {SRC}")


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(sub, case):
    return hashlib.sha1((sub + dumps(case)).encode()).hexdigest()[:16]


def require(cond, message):
    if not cond:
        raise Violation(message)


def _alarm(signum, frame):
    raise Hang()


def execute(sub, case):
    """Run the check of one case in a state that depends on the case only."""
    state = int(case_hash(sub.name, case), 16) % 2**32
    np.random.seed(state)
    random.seed(state)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            result = sub.check(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return result


def describe(exc):
    """Message for an exception, and whether it is an error of the check"""
    if isinstance(exc, Violation):
        return str(exc), False
    if isinstance(exc, Hang):
        return f"no result within {CASE_CPU_LIMIT} s of CPU time", False
    frames = traceback.extract_tb(exc.__traceback__)
    where = ""
    in_code = False
    for frame in frames:
        if os.path.abspath(frame.filename).startswith(os.path.join(SRC, "")):
            in_code = True
        where = f"{os.path.basename(frame.filename)}:{frame.lineno}"
    message = f"{type(exc).__name__}: {exc} (at {where})"
    if isinstance(exc, (HarnessError, ImportError, MemoryError)):
        return message, True
    if in_code:
        return "valid request raised " + message, False
    # The check could not make sense of what the code returned
    return "result could not be interpreted: " + message, False


class WorkerState:
    def __init__(self):
        self.evaluations = 0
        self.invalid = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = {}
        self.per_sub = collections.Counter()
        self.failure = None  # (sub, case, message, is_error)
        self.truncated = False
        self.trace = ""


def run_sub(sub, n_examples, seed, tier, state, stop_file, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    progress = {"first": None, "failing": {}, "hang": False, "size": float("inf")}

    @hypothesis.seed(seed)
    @settings(
        max_examples=n_examples,
        database=None,
        deadline=None,
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )
    @given(sub.strategy(tier))
    def test(case):
        key = case_hash(sub.name, case)
        if progress["first"] is None:
            if os.path.exists(stop_file):
                return
            if time.monotonic() > deadline:
                state.truncated = True
                return
        elif key in progress["failing"]:
            raise progress["failing"][key]
        elif (
            time.monotonic() > progress["first"] + SHRINK_SECONDS
            or progress["hang"]
        ):
            raise KeyboardInterrupt  # stop shrinking
        try:
            result = execute(sub, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as exc:
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                raise
            message, is_error = describe(exc)
            if progress["first"] is None:
                progress["first"] = time.monotonic()
                open(stop_file, "w").close()
            if isinstance(exc, Hang):
                progress["hang"] = True
            failure = AssertionError(message)
            progress["failing"][key] = failure
            size = len(dumps(case))
            if size <= progress["size"]:
                progress["size"] = size
                state.failure = (sub.name, case, message, is_error)
                state.trace = traceback.format_exc()
            raise failure from None
        if progress["first"] is None:
            nontrivial, labels = result
            state.evaluations += 1
            state.per_sub[sub.name] += 1
            if nontrivial:
                state.nontrivial.add(key)
                state.samples.setdefault(sub.name, [])
                if len(state.samples[sub.name]) < 2:
                    state.samples[sub.name].append(case)
            for label in labels:
                state.labels[f"{sub.name}:{label}"] += 1

    try:
        test()
    except BaseException as exc:
        if state.failure is not None:
            return False
        raise HarnessError(f"{sub.name}: {type(exc).__name__}: {exc}") from exc
    return True


def worker(index, jobs, subs, tier, seed, prop_id, scale, out, stop_file, end):
    state = WorkerState()
    try:
        for number, sub in enumerate(subs):
            workers = min(sub.jobs or jobs, jobs)
            if index >= workers:
                continue
            total = sub.quick if tier == "quick" else sub.thorough
            total = int(total * scale * FACTOR.get(prop_id, 1))
            n = max(1, -(-total // workers))
            digest = hashlib.sha256(
                f"{seed}/{prop_id}/{sub.name}/{index}".encode()
            ).digest()
            sub_seed = int.from_bytes(digest[:8], "big")
            if not run_sub(sub, n, sub_seed, tier, state, stop_file, end):
                break
            if os.path.exists(stop_file) or time.monotonic() > end:
                break
        error = None
    except BaseException:
        error = traceback.format_exc()
    with open(out + ".tmp", "wb") as file:
        pickle.dump((state, error), file)
    os.rename(out + ".tmp", out)
    os._exit(0)


def load_corpus(prop_id):
    folder = os.path.join(VERIF, "corpus", prop_id)
    cases = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as file:
                    cases.append((name, json.load(file)))
    return cases


def load_known(prop_id):
    """Open findings: lines ``open: property=<id> file=<json> <what fails>``"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(path):
        with open(path) as file:
            for line in file:
                if line.startswith(f"open: property={prop_id} "):
                    rest = line.split(" ", 2)[2].strip()
                    name, what = rest.split(" ", 1)
                    with open(os.path.join(VERIF, name[len("file=") :])) as f:
                        known.append((json.load(f), what))
    return known


def save_replay(prop_id, sub, case, message):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop_id}-{case_hash(sub, case)}.json")
    with open(path, "w") as file:
        json.dump(
            {"property": prop_id, "sub": sub, "case": case, "message": message},
            file,
            indent=1,
        )
    return path


def try_case(prop, sub_name, case):
    """None if the case passes, else (message, is_error, trace)"""
    subs = {sub.name: sub for sub in prop.SUBS}
    if sub_name not in subs:
        raise HarnessError(f"unknown sub-check {sub_name}")
    try:
        execute(subs[sub_name], case)
        return None
    except BaseException as exc:
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            raise
        message, is_error = describe(exc)
        return message, is_error, traceback.format_exc()


def replay(prop, prop_id, path):
    with open(path) as file:
        data = json.load(file)
    failure = try_case(prop, data["sub"], data["case"])
    if failure is None:
        print(f"replay of {path}: holds")
        return 0
    message, is_error, trace = failure
    print(trace)
    if is_error:
        return 2
    print(f"VIOLATION property={prop_id} replay={path}")
    print(message)
    return 1


def run_property(prop, prop_id, tier, seed, jobs, only=None, scale=1.0):
    start = time.monotonic()
    limit = 600 if tier == "quick" else 4 * 3600
    limit = float(os.environ.get("VERIF_LIMIT", limit))
    end = start + limit
    subs = [s for s in prop.SUBS if only is None or s.name in only.split(",")]

    violations = []
    errors = []
    corpus_run = 0
    if hasattr(prop, "setup"):
        prop.setup()
    for data, what in load_known(prop_id):
        failure = try_case(prop, data["sub"], data["case"])
        if failure is not None:
            print(f"KNOWN-FINDING: property={prop_id} {what}")
    for name, data in load_corpus(prop_id):
        if only is not None and data["sub"] not in only.split(","):
            continue
        corpus_run += 1
        failure = try_case(prop, data["sub"], data["case"])
        if failure is not None:
            message, is_error, trace = failure
            if is_error:
                errors.append(trace)
            else:
                violations.append((data["sub"], data["case"], message, trace))
            break

    results = []
    if not violations and not errors:
        stop_file = os.path.join(SCRATCH, "stop")
        context = multiprocessing.get_context("fork")
        outs, procs = [], []
        sys.stdout.flush()
        for index in range(jobs):
            out = os.path.join(SCRATCH, f"worker{index}")
            proc = context.Process(
                target=worker,
                args=(
                    index,
                    jobs,
                    subs,
                    tier,
                    seed,
                    prop_id,
                    scale,
                    out,
                    stop_file,
                    end,
                ),
            )
            proc.start()
            outs.append(out)
            procs.append(proc)
        for proc, out in zip(procs, outs):
            proc.join(max(1.0, end + 170 - time.monotonic()))
            if proc.is_alive():
                proc.kill()
                proc.join()
            if os.path.exists(out):
                with open(out, "rb") as file:
                    results.append(pickle.load(file))
            elif time.monotonic() > end:
                state = WorkerState()
                state.truncated = True
                results.append((state, None))
            else:
                errors.append(f"worker died with exit code {proc.exitcode}")
    if hasattr(prop, "teardown"):
        prop.teardown()

    merged = WorkerState()
    for state, error in results:
        merged.evaluations += state.evaluations
        merged.nontrivial |= state.nontrivial
        merged.labels.update(state.labels)
        merged.per_sub.update(state.per_sub)
        merged.truncated |= state.truncated
        for name, samples in state.samples.items():
            merged.samples.setdefault(name, samples[:1])
        if state.failure is not None:
            sub, case, message, is_error = state.failure
            if is_error:
                errors.append(f"{sub}: {message}\n{state.trace}")
            else:
                violations.append((sub, case, message, state.trace))
        if error is not None:
            errors.append(error)

    # The smallest failing input first
    violations.sort(key=lambda v: len(dumps(v[1])))
    wall = time.monotonic() - start
    samples = [
        {"sub_check": name, "case": cases[0]}
        for name, cases in sorted(merged.samples.items())
    ]
    for sub, case, message, _ in violations[:3]:
        samples.append({"sub_check": sub, "case": case, "violation": message})
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": merged.evaluations + corpus_run,
            "distinct_nontrivial": len(merged.nontrivial),
            "rule": prop.RULE,
            "samples": samples or [{"note": "no case completed"}],
            "per_sub_check": dict(sorted(merged.per_sub.items())),
            "labels": dict(sorted(merged.labels.items())),
            "corpus_replayed": corpus_run,
            "truncated_by_time_limit": merged.truncated,
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop_id + ".json")
    with open(path + ".tmp", "w") as file:
        json.dump(evidence, file, indent=1)
    os.replace(path + ".tmp", path)

    print(
        f"{prop_id} {tier} seed={seed}: {merged.evaluations} cases, "
        f"{len(merged.nontrivial)} distinct non-trivial, "
        f"{len(violations)} violations, {wall:.1f} s"
    )
    if violations:
        shown = set()
        for sub, case, message, trace in violations:
            if sub in shown:
                continue
            shown.add(sub)
            path = save_replay(prop_id, sub, case, message)
            print(f"VIOLATION property={prop_id} replay={path}")
            print(f"  sub-check {sub}: {message}")
            print(f"  case: {dumps(case)[:2000]}")
        return 1
    if errors:
        for error in errors[:3]:
            sys.stderr.write(error + "\n")
        return 2
    return 0
