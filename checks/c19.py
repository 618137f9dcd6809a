"""C19: histories of sampling runs, damaged files and interrupted runs."""

import os
import sys

import numpy as np
from hypothesis import strategies as st

from lib import cheapsims as cs
from lib.harness import Outcome, Suite, check

PROPERTY = "C19"
RULE = (
    "histories of two to nine operations in one directory: sampling and metric evaluation of "
    "four models (one with another phase first) and case lists that are prefixes of fixed "
    "lists, saved files deleted, cut, extended, emptied or replaced by other text, and "
    "samplings interrupted before a file operation (with the file last written cut to a "
    "fraction); results are compared with those of simulations run afresh, and the simulations "
    "run with what a model of the saved files requires; non-trivial: something is reused and "
    "something is run again"
)
ASSUMPTIONS = [
    "saved files of another model with the same numbers of species and cases are not told "
    "apart, and are not generated (saved metrics alone carry no number of species)",
]

MODELS = ["m1.yaml", "m2.yaml", "m3.yaml", "m4.yaml"]
# the one with another phase before the one that is meant
PHASE = {"m4.yaml": "gas"}


@st.composite
def case(draw):
    counts = st.sampled_from(
        [[1, 0, 0], [2, 0, 0], [0, 1, 0], [0, 2, 0], [0, 0, 1], [0, 0, 2], [1, 1, 1], [2, 1, 2],
         [3, 2, 0], [1, 3, 1], [0, 1, 1], [2, 0, 1], [1, 0, 3]]
    )  # fmt: skip
    favourite = [draw(st.sampled_from(MODELS)), draw(counts)]

    def target():
        if draw(st.integers(0, 2)):
            return list(favourite)
        return [draw(st.sampled_from(MODELS)), draw(counts)]

    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(
            st.sampled_from(["sample"] * 5 + ["metrics"] * 3 + ["damage"] * 5 + ["crash"] * 3)
        )
        if kind == "sample":
            ops.append([kind, *target(), draw(st.sampled_from([1, 1, 1, 2]))])
        elif kind == "metrics":
            ops.append([kind, *target(), draw(st.booleans())])
        elif kind == "damage":
            ops.append(
                [
                    kind,
                    draw(st.sampled_from(cs.KINDS)),
                    draw(st.sampled_from(["data", "output"])),
                    draw(st.sampled_from(["delete", "cut", "extend", "more", "empty", "text", "bytes"])),
                    draw(st.floats(0.0, 0.999)),
                ]
            )
        else:
            ops.append([kind, *target(), draw(st.integers(0, 14)), draw(st.floats(0.0, 1.0))])
    ops.append(["sample", *favourite, 1])
    return {"ops": ops}


FILES = {
    ("ign", "data"): "data_ignition",
    ("ign", "output"): "output_ignition",
    ("psr", "data"): "data_psr",
    ("psr", "output"): "output_psr",
    ("flame", "data"): "data_flame",
    ("flame", "output"): "output_flame",
}


class Saved:
    """What is known about the saved files of one kind of case."""

    def __init__(self):
        self.output = None  # number of metrics; None: unusable; "?": unknown
        self.rows = None  # number of rows and of columns
        self.model = None
        self.padded = set()  # files with rows of no case

    def fits(self, kind, n, columns):
        """True, False or None (not known)."""
        if "?" in (self.output, self.rows):
            return None
        return self.output == n * cs.METRICS[kind] and self.rows == (n * cs.ROWS[kind], columns)


def damage(path, what, how, fraction, saved, kind):
    """Change a saved file in a way that shows; update what is known."""
    field = "rows" if what == "data" else "output"
    if not os.path.exists(path):
        return
    known = getattr(saved, field)
    if what in saved.padded and how in ("cut", "bytes", "more"):
        how = "empty"  # what is left could have the right number of rows, made up
    with open(path) as fh:
        lines = fh.read().splitlines()
    if how == "delete":
        os.remove(path)
        lines = []
    elif how == "empty":
        open(path, "w").close()
        lines = []
    elif how == "text":
        with open(path, "w") as fh:
            fh.write("not a number\n")
        lines = []
    elif how == "cut":
        lines = lines[: int(len(lines) * fraction)]
        with open(path, "w") as fh:
            fh.write("".join(line + "\n" for line in lines))
    elif how == "bytes":
        if what == "output" or len(lines) < 1 or "," not in lines[-1]:
            return
        # within a row, so that numbers are missing
        keep = int(len(lines) * fraction)
        row = lines[keep]
        stop = int(row.rindex(",") * fraction)
        with open(path, "w") as fh:
            fh.write("".join(line + "\n" for line in lines[:keep]) + row[:stop])
        setattr(saved, field, None)
        if keep == 0:
            # a single row with fewer numbers
            setattr(saved, field, None)
        return
    elif how in ("extend", "more"):
        if not lines:
            return
        more = 60  # more than any case list here has
        unit = (cs.ROWS if what == "data" else cs.METRICS)[kind]
        if how == "more" and unit > 1:
            # not the data of any number of cases
            more = 1 + int(fraction * (unit - 1))
        lines += [lines[-1]] * more
        saved.padded.add(what)
        with open(path, "w") as fh:
            fh.write("".join(line + "\n" for line in lines))
    if known == "?" and lines:
        return
    if not lines:
        setattr(saved, field, None)
    elif what == "data":
        saved.rows = (len(lines), known[1]) if known else None
    else:
        saved.output = len(lines) if known is not None else None


def interrupted(run, stop_at, fraction):
    """Run in a child that ends before file operation number ``stop_at``.

    Returns whether it was interrupted.  The file opened last for writing is cut."""
    cwd = os.path.realpath(os.getcwd())
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            seen = [0]
            last = [""]

            def hook(event, args):
                if event == "open":
                    path, mode, flags = args
                    if not isinstance(path, str) or not (flags & (os.O_WRONLY | os.O_RDWR)):
                        return
                elif event in ("os.remove", "os.rename"):
                    path = args[0]
                else:
                    return
                path = os.path.realpath(os.fspath(path))
                if os.path.dirname(path) != cwd:
                    return
                if seen[0] == stop_at:
                    os.write(wr, last[0].encode())
                    os._exit(7)
                seen[0] += 1
                if event == "open":
                    last[0] = path
                elif event == "os.rename":
                    last[0] = ""
                elif last[0] == path:
                    last[0] = ""

            sys.addaudithook(hook)
            run()
            code = 0
        except BaseException:  # noqa: BLE001
            code = 4
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd) as fh:
        last = fh.read()
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    check(code in (0, 7), "an interruptible run failed (code {})", code)
    if code == 7 and last and os.path.exists(last) and not last.endswith(".h5"):
        size = os.path.getsize(last)
        with open(last, "r+b") as fh:
            fh.truncate(int(size * fraction))
    return code == 7


def run(case):
    from pymars import sampling
    from pymars.sampling import sample, sample_metrics

    names = cs.write_models()
    saved = {k: Saved() for k in cs.KINDS}
    labels = set()
    reused = again = False
    with cs.CheapSims() as sims:
        for op in case["ops"]:
            kind = op[0]
            if kind == "damage":
                _, k, what, how, fraction = op
                path = sampling.data_files[FILES[k, what]]
                if os.path.exists(path):
                    labels.add(f"damage: {what} {how}")
                damage(path, what, how, fraction, saved[k], k)
                continue
            model, counts = op[1], op[2]
            phase = PHASE.get(model, "")
            conds = cs.conditions(counts, {"H2": 1.0})
            want, want_rows = cs.expected(counts, conds, names[model])
            columns = 2 + len(names[model])
            if kind == "crash":
                stopped = interrupted(lambda: sample(model, *conds, phase_name=phase), op[3], op[4])
                sims.runs()
                for k, n in zip(cs.KINDS, counts):
                    if n and not (saved[k].fits(k, n, columns) and not stopped):
                        saved[k].output = saved[k].rows = "?"
                        saved[k].model = None
                if stopped:
                    labels.add("interrupted")
                continue
            if kind == "metrics":
                reuse = op[3]
                if reuse and any(
                    n and (saved[k].output == "?" or (saved[k].output is not None and saved[k].model != model))
                    for k, n in zip(cs.KINDS, counts)
                ):
                    labels.add("metrics of unknown origin")
                    continue
                before = snapshot()
                got = sample_metrics(model, *conds, phase_name=phase, reuse_saved=reuse)
                runs = sims.runs()
                expect = []
                for k, n in zip(cs.KINDS, counts):
                    if n and reuse and saved[k].output == n * cs.METRICS[k]:
                        reused = True
                        labels.add("metrics reused")
                    else:
                        expect += [(k, i, "metric") for i in range(n)]
                check(
                    sorted(runs) == sorted(expect),
                    "metrics of {} {} (reuse {}): simulations {} instead of {}",
                    model,
                    counts,
                    reuse,
                    runs,
                    expect,
                )
                close(got, want, "metrics alone")
                check(snapshot() == before, "saved files changed by evaluating metrics")
                continue
            threads = op[3]
            got, data = sample(model, *conds, phase_name=phase, num_threads=threads)
            runs = sims.runs()
            for k, n in zip(cs.KINDS, counts):
                if not n:
                    check(not [r for r in runs if r[0] == k], "simulations of {} run", k)
                    continue
                fits = saved[k].fits(k, n, columns)
                ran = sorted(r for r in runs if r[0] == k)
                full = [(k, i, "sample") for i in range(n)]
                if fits is None:
                    check(ran in ([], full), "simulations {}", ran)
                    labels.add("after interruption")
                elif fits:
                    check(not ran, "saved samples of {} for {} {} not used: {}", k, model, n, ran)
                    reused = True
                else:
                    check(
                        ran == full,
                        "saved samples of {} with {} metrics and {} rows: simulations {} for {} {}",
                        k,
                        saved[k].output,
                        saved[k].rows,
                        ran,
                        model,
                        n,
                    )
                    if saved[k].output is not None or saved[k].rows is not None:
                        again = True
                saved[k].output = n * cs.METRICS[k]
                saved[k].rows = (n * cs.ROWS[k], columns)
                saved[k].model = model
                saved[k].padded.clear()
                for what in ("data", "output"):
                    check(
                        os.path.isfile(sampling.data_files[FILES[k, what]]),
                        "{} of {} not saved",
                        what,
                        k,
                    )
            close(got, want, "metrics")
            close(data, want_rows, "states")
    if again:
        labels.add("run again")
    return Outcome(reused and (again or "interrupted" in labels), labels)


def snapshot():
    out = {}
    for name in sorted(os.listdir(".")):
        if os.path.isfile(name):
            with open(name, "rb") as fh:
                out[name] = fh.read()
    return out


def close(got, want, text):
    got = np.asarray(got)
    check(got.shape == want.shape, "{}: shape {} instead of {}", text, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= 1e-12 * np.abs(want))
    if bad.any():
        where = tuple(int(i) for i in np.argwhere(bad)[0])
        check(False, "{}: {} instead of {} at {}", text, got[where], want[where], where)


SUITES = [Suite("history", case, run, 1600, 20000, hang=90)]
