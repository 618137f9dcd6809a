"""Runner for the property-based checks.

A check module (``checks/cNN.py``) defines

    PROPERTY = "C01"
    RULE     = "how cases are made and what makes one non-trivial"
    SUITES   = [Suite(...), ...]

A suite couples a Hypothesis strategy producing JSON-serialisable cases with a
function ``run(case)`` that raises :class:`Violation` when the property is broken
and otherwise returns ``Outcome(nontrivial, labels)``.

Every case runs in a worker process (8 shards) whose working directory is a
scratch directory.  The supervisor (``run_check.py``) collects the results,
re-runs every reported violation in a fresh process before believing it,
watches for hangs and crashes, and writes the evidence file.
"""

import hashlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from collections import Counter

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.realpath(os.path.join(SRC, "pymars")) + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold for the case."""


class Inconclusive(Exception):
    """The case cannot be decided (outside the domain, ambiguous rounding)."""


class Outcome:
    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Suite:
    def __init__(
        self,
        name,
        strategy,
        run,
        quick,
        thorough,
        hang=60.0,
        shrink=25.0,
        shards=8,
        hang_is_violation=True,
    ):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.hang = hang
        self.shrink = shrink
        self.shards = shards
        self.hang_is_violation = hang_is_violation


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=8).hexdigest()


def stand_in(exc):
    """Mark an exception raised by a stand-in where the real thing would raise it.

    The package has to expect it, so it is a failure of the package if it comes out."""
    exc.stand_in = True
    return exc


def is_repo_failure(exc):
    """True if the deepest own frame of the traceback is in the package under test."""
    if getattr(exc, "stand_in", False):
        return True
    verdict = False
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(PKG):
            verdict = True
        elif fn.startswith(VERIF + os.sep):
            verdict = False
        tb = tb.tb_next
    return verdict


def check(condition, message, *args):
    if not condition:
        raise Violation(message.format(*args) if args else message)


_counter = [0]


def fresh_dir():
    """A new empty directory below the scratch directory of the worker."""
    _counter[0] += 1
    path = os.path.join(SCRATCH, f"case{_counter[0]}")
    os.makedirs(path)
    return path


SCRATCH = None


class case_dir:
    """Context manager: run a case inside a fresh scratch directory."""

    def __enter__(self):
        self.path = fresh_dir()
        self.old = os.getcwd()
        os.chdir(self.path)
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
        return False


def execute(suite, case):
    """Run one case; return (status, message, outcome)."""
    try:
        with case_dir():
            out = suite.run(case)
        return "ok", "", out or Outcome()
    except Violation as exc:
        return "violation", str(exc), None
    except Inconclusive as exc:
        return "inconclusive", str(exc), None
    except (Exception, SystemExit) as exc:
        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        if is_repo_failure(exc):
            return "violation", f"unexpected {type(exc).__name__}: {exc}\n{text}", None
        return "error", text, None


def setup_worker(scratch):
    global SCRATCH
    SCRATCH = scratch
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    import logging
    import warnings

    import resource

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except (ValueError, OSError):
        pass
    sys.path.insert(0, SRC)
    import importlib.util

    for name in ("pandas", "scipy"):
        # networkx looks for these at every conversion; looking once is enough
        if name not in sys.modules and importlib.util.find_spec(name) is None:
            sys.modules[name] = None
    import pymars  # noqa: F401  (creates info.log in the scratch directory)

    if not os.path.realpath(pymars.__file__).startswith(PKG):
        raise RuntimeError(f"imported {pymars.__file__} instead of {PKG}")
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def run_suite(suite, n_examples, seed, status_file, time_limit):
    """Generate and run cases; used inside a worker."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        "suite": suite.name,
        "evaluations": 0,
        "nontrivial": set(),
        "labels": Counter(),
        "samples": [],
        "inconclusive": 0,
        "violation": None,
        "error": None,
        "skipped": 0,
    }
    started = time.monotonic()
    state = {"best": None, "deadline": None, "stop": False}
    seen = {}

    def body(case):
        if state["stop"]:
            return
        now = time.monotonic()
        if state["deadline"] is None:
            if now - started > time_limit:
                stats["skipped"] += 1
                return
        elif now > state["deadline"]:
            return
        text = dumps(case)
        key = digest(text)
        if key in seen:
            # deterministic function of the case: reuse the verdict
            if seen[key] == "violation":
                raise Violation("repeated")
            return
        with open(status_file, "w") as fh:
            fh.write(json.dumps({"suite": suite.name, "t": time.time(), "case": case}))
        status, message, out = execute(suite, case)
        with open(status_file, "w") as fh:
            fh.write(json.dumps({"suite": suite.name, "t": None}))
        seen[key] = status
        if state["deadline"] is None:
            stats["evaluations"] += 1
        if status == "ok":
            if state["deadline"] is None:
                if out.nontrivial:
                    stats["nontrivial"].add(key)
                    if len(stats["samples"]) < 2 and len(text) < 6000:
                        stats["samples"].append(case)
                for label in out.labels:
                    stats["labels"][label] += 1
        elif status == "inconclusive":
            if state["deadline"] is None:
                stats["inconclusive"] += 1
                stats["labels"]["inconclusive: " + message[:60]] += 1
        elif status == "error":
            if stats["error"] is None:
                stats["error"] = {"case": case, "message": message}
            state["stop"] = True
        else:
            if state["deadline"] is None:
                state["deadline"] = time.monotonic() + suite.shrink
            if state["best"] is None or len(text) <= state["best"][0]:
                state["best"] = (len(text), case, message)
            raise Violation("found")

    test = given(suite.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=max(1, n_examples),
        database=None,
        deadline=None,
        derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    try:
        test()
    except BaseException as exc:  # noqa: BLE001
        if isinstance(exc, KeyboardInterrupt):
            raise
        if state["best"] is None and stats["error"] is None:
            stats["error"] = {
                "case": None,
                "message": "".join(
                    traceback.format_exception(type(exc), exc, exc.__traceback__)
                ),
            }
    if state["best"] is not None:
        stats["violation"] = {
            "suite": suite.name,
            "case": state["best"][1],
            "message": state["best"][2],
        }
    stats["nontrivial"] = sorted(stats["nontrivial"])
    stats["labels"] = dict(stats["labels"])
    stats["seconds"] = round(time.monotonic() - started, 2)
    return stats
