"""Entry point of every check: run_check.py CNN [--replay FILE]."""

import argparse
import glob
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
# Hypothesis (and its pure Python dependencies) come from the tooling
# environment; everything else from the interpreter running pyMARS.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from lib import harness  # noqa: E402
from lib.harness import dumps, execute, run_suite, setup_worker  # noqa: E402

N_SHARDS = 8
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def base_seed():
    text = os.environ.get("VERIF_SEED", "1")
    try:
        return int(text)
    except ValueError:
        return int(hashlib.sha256(text.encode()).hexdigest()[:8], 16)


def derive(*parts):
    return int(hashlib.sha256(repr(parts).encode()).hexdigest()[:12], 16)


def load_check(cid):
    return importlib.import_module("checks." + cid.lower())


def shard_size(total, shard, shards):
    return total // shards + (1 if shard < total % shards else 0)


def worker(cid, shard, scratch, out_file, time_limit):
    setup_worker(scratch)
    mod = load_check(cid)
    results = []
    for index, suite in enumerate(mod.SUITES):
        total = suite.quick if TIER == "quick" else suite.thorough
        n = shard_size(total, (shard + index) % suite.shards, suite.shards)
        if n <= 0:
            continue
        if hasattr(mod, "before_suite"):
            mod.before_suite(suite)
        seed = derive(base_seed(), cid, suite.name, shard)
        results.append(
            run_suite(suite, n, seed, os.path.join(scratch, "status.json"), time_limit)
        )
        with open(out_file + ".tmp", "w") as fh:
            json.dump({"done": False, "results": results}, fh)
        os.replace(out_file + ".tmp", out_file)
        if results[-1]["violation"]:
            break
    with open(out_file + ".tmp", "w") as fh:
        json.dump({"done": True, "results": results}, fh)
    os.replace(out_file + ".tmp", out_file)


def worker_single(cid, case_file, scratch, out_file):
    """Run saved cases (a list of {suite, case}) one after the other."""
    setup_worker(scratch)
    mod = load_check(cid)
    suites = {s.name: s for s in mod.SUITES}
    with open(case_file) as fh:
        entries = json.load(fh)
    results = []
    for entry in entries:
        suite = suites[entry["suite"]]
        with open(os.path.join(scratch, "status.json"), "w") as fh:
            fh.write(
                json.dumps(
                    {"suite": suite.name, "t": time.time(), "case": entry["case"]}
                )
            )
        status, message, _ = execute(suite, entry["case"])
        results.append({"status": status, "message": message})
        with open(out_file + ".tmp", "w") as fh:
            json.dump(results, fh)
        os.replace(out_file + ".tmp", out_file)


def spawn(args, log):
    env = dict(os.environ)
    env["VERIF_TIER"] = TIER
    return subprocess.Popen(
        [sys.executable, os.path.abspath(__file__)] + args,
        stdin=subprocess.DEVNULL,
        stdout=log,
        stderr=subprocess.STDOUT,
        env=env,
        start_new_session=True,
        cwd="/",
    )


def kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    proc.wait()


def read_json(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


class Run:
    def __init__(self, cid):
        self.cid = cid
        self.mod = load_check(cid)
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{cid}_")
        self.suites = {s.name: s for s in self.mod.SUITES}

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # -- single cases in a fresh process ------------------------------------
    def run_cases(self, entries, limit, tag):
        """Run entries in one fresh process; returns list of results, with
        status 'hang' or 'crash' for an entry that did not finish."""
        scratch = os.path.join(self.scratch, tag)
        os.makedirs(scratch, exist_ok=True)
        cases = os.path.join(scratch, "cases.json")
        out = os.path.join(scratch, "out.json")
        results = []
        while len(results) < len(entries):
            with open(cases, "w") as fh:
                json.dump(entries[len(results) :], fh)
            if os.path.exists(out):
                os.remove(out)
            log_path = os.path.join(scratch, "log.txt")
            with open(log_path, "w") as log:
                proc = spawn(
                    ["--single", self.cid, cases, os.path.join(scratch, "w"), out], log
                )
                start = time.monotonic()
                last = 0
                hung = False
                while proc.poll() is None:
                    time.sleep(0.05)
                    got = read_json(out) or []
                    if len(got) != last:
                        last = len(got)
                        start = time.monotonic()
                    if time.monotonic() - start > limit:
                        kill(proc)
                        hung = True
                        break
                code = proc.returncode
                try:
                    os.killpg(proc.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            got = read_json(out) or []
            remaining = len(entries) - len(results)
            results += got
            if len(got) < remaining:
                if hung:
                    results.append(
                        {"status": "hang", "message": f"no result after {limit:.0f} s"}
                    )
                elif code < 0:
                    results.append(
                        {"status": "crash", "message": f"process died with signal {-code}"}
                    )
                else:
                    with open(log_path) as fh:
                        text = fh.read()[-4000:]
                    results.append(
                        {"status": "error", "message": f"exit code {code}\n{text}"}
                    )
        return results

    # -- sharded generation --------------------------------------------------
    def generate(self, time_limit):
        procs = {}
        for shard in range(N_SHARDS):
            procs[shard] = self.start_shard(shard, "gen", time_limit)
        suspects = []  # (kind, entry)
        first_violation = None
        errors = []
        while procs:
            time.sleep(0.1)
            for shard, (proc, scratch, out, log) in list(procs.items()):
                status = read_json(os.path.join(scratch, "status.json"))
                if proc.poll() is not None:
                    res = read_json(out)
                    if proc.returncode != 0:
                        if proc.returncode < 0 and status and status.get("t"):
                            suspects.append(
                                ("crash", {"suite": status["suite"], "case": status["case"]})
                            )
                        else:
                            with open(log) as fh:
                                errors.append(
                                    f"shard {shard}: exit {proc.returncode}\n"
                                    + fh.read()[-4000:]
                                )
                    elif not (res and res.get("done")):
                        errors.append(f"shard {shard}: no result")
                    if res and any(r["violation"] for r in res["results"]):
                        first_violation = first_violation or time.monotonic()
                    try:
                        os.killpg(proc.pid, signal.SIGKILL)
                    except (ProcessLookupError, PermissionError):
                        pass
                    del procs[shard]
                    continue
                if status and status.get("t"):
                    limit = self.suites[status["suite"]].hang
                    if time.time() - status["t"] > limit:
                        kill(proc)
                        suspects.append(
                            ("hang", {"suite": status["suite"], "case": status["case"]})
                        )
                        first_violation = first_violation or time.monotonic()
                        del procs[shard]
                        continue
            if first_violation and time.monotonic() - first_violation > 20:
                for shard, (proc, scratch, out, log) in list(procs.items()):
                    kill(proc)
                procs = {}
        stats = []
        for shard in range(N_SHARDS):
            res = read_json(os.path.join(self.scratch, f"gen{shard}.json"))
            if res:
                stats += [dict(r, shard=shard) for r in res["results"]]
        return stats, suspects, errors

    def start_shard(self, shard, tag, time_limit):
        scratch = os.path.join(self.scratch, f"{tag}_w{shard}")
        os.makedirs(scratch, exist_ok=True)
        out = os.path.join(self.scratch, f"{tag}{shard}.json")
        log_path = os.path.join(self.scratch, f"{tag}{shard}.log")
        with open(log_path, "w") as log:
            proc = spawn(
                ["--worker", self.cid, str(shard), scratch, out, str(time_limit)], log
            )
        return proc, scratch, out, log_path

    def rerun_shard(self, shard, suite, time_limit):
        """Does the whole shard fail again in the same suite?"""
        proc, scratch, out, log = self.start_shard(shard, "again", time_limit)
        limit = time.monotonic() + 2 * time_limit + 120
        while proc.poll() is None and time.monotonic() < limit:
            time.sleep(0.1)
        kill(proc)
        res = read_json(out)
        for r in (res or {}).get("results", []):
            if r["suite"] == suite and r["violation"]:
                return r["violation"]
        return None


def known_entries(cid):
    data = read_json(os.path.join(VERIF, "known", f"{cid}.json"))
    return data or []


def regression_entries(cid):
    entries = []
    for path in sorted(glob.glob(os.path.join(VERIF, "regressions", cid, "*.json"))):
        data = read_json(path)
        if data is None:
            raise RuntimeError(f"unreadable regression case {path}")
        entries.append({"suite": data["suite"], "case": data["case"], "path": path})
    return entries


def save_replay(cid, entry, message):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    body = {"property": cid, "message": message, **entry}
    name = f"{cid}_{hashlib.sha256(dumps(body).encode()).hexdigest()[:10]}.json"
    path = os.path.join(folder, name)
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def report(cid, entry, message):
    path = save_replay(cid, entry, message)
    print(message.strip()[:3000])
    print(f"VIOLATION property={cid} replay={path}", flush=True)


def main_check(cid):
    t0 = time.monotonic()
    run = Run(cid)
    try:
        return _main_check(cid, run, t0)
    finally:
        run.cleanup()


def _main_check(cid, run, t0):
    mod = run.mod
    time_limit = 240.0 if TIER == "quick" else 3000.0
    violations = []
    errors = []

    # 1. pinned cases, including those of defects that have been repaired
    pinned = regression_entries(cid)
    known = known_entries(cid)
    entries = [{"suite": e["suite"], "case": e["case"]} for e in pinned + known]
    results = run.run_cases(entries, 180.0, "pinned") if entries else []
    for i, res in enumerate(results):
        is_known = i >= len(pinned)
        if res["status"] in ("violation", "crash", "hang"):
            if is_known:
                print(f"KNOWN-FINDING: property={cid} {known[i - len(pinned)]['what']}")
            else:
                violations.append((entries[i], res["message"]))
                break
        elif res["status"] == "error":
            errors.append(f"pinned case {i}: {res['message']}")

    # 2. generated cases
    stats = []
    if not violations:
        stats, suspects, more = run.generate(time_limit)
        errors += more
        found = [s for s in stats if s["violation"]]
        found.sort(key=lambda s: len(dumps(s["violation"]["case"])))
        for s in found:
            v = s["violation"]
            entry = {"suite": v["suite"], "case": v["case"]}
            res = run.run_cases([entry], run.suites[v["suite"]].hang * 3, "confirm")[0]
            if res["status"] in ("violation", "crash", "hang"):
                violations.append((entry, res["message"] or v["message"]))
                break
            again = run.rerun_shard(s["shard"], v["suite"], time_limit)
            if again:
                entry = {
                    "suite": v["suite"],
                    "case": again["case"],
                    "shard": s["shard"],
                    "seed": base_seed(),
                    "tier": TIER,
                    "note": "fails only after the other cases of its shard",
                }
                violations.append((entry, again["message"]))
                break
            errors.append(
                f"violation of suite {v['suite']} not reproducible: {v['message'][:1500]}"
            )
        if not violations:
            for kind, entry in suspects:
                suite = run.suites[entry["suite"]]
                limit = max(120.0, suite.hang * 3)
                res = run.run_cases([entry], limit, "suspect")[0]
                if res["status"] == "violation" or (
                    res["status"] in ("hang", "crash") and suite.hang_is_violation
                ):
                    violations.append((entry, f"{res['status']}: {res['message']}"))
                    break
                if kind == "crash" or res["status"] != "ok":
                    errors.append(f"{kind} in {entry['suite']}: {res}")
        for s in stats:
            if s["error"]:
                errors.append(
                    f"suite {s['suite']}: {s['error']['message'][-3000:]}\n"
                    f"case: {dumps(s['error']['case'])[:1500]}"
                )
        lost = sum(s["skipped"] for s in stats)
        if lost:
            print(f"note: {lost} cases skipped at the time limit of {time_limit:.0f} s")

    # 3. evidence
    nontrivial = set()
    labels = {}
    samples = []
    per_suite = {}
    for s in stats:
        nontrivial |= {s["suite"] + h for h in s["nontrivial"]}
        d = per_suite.setdefault(
            s["suite"],
            {"evaluations": 0, "nontrivial": 0, "inconclusive": 0, "seconds": 0.0},
        )
        d["evaluations"] += s["evaluations"]
        d["nontrivial"] += len(s["nontrivial"])
        d["inconclusive"] += s["inconclusive"]
        d["seconds"] = round(max(d["seconds"], s["seconds"]), 2)
        c = Counter(labels.get(s["suite"], {}))
        c.update(s["labels"])
        labels[s["suite"]] = dict(sorted(c.items()))
        if sum(1 for x in samples if x["suite"] == s["suite"]) < 2:
            for case in s["samples"][:1]:
                samples.append({"suite": s["suite"], "case": case})
    for entry in entries[: max(0, 1 - len(samples))]:
        samples.append({"suite": entry["suite"], "case": entry["case"]})
    evidence = {
        "property": cid,
        "tier": TIER,
        "seed": base_seed(),
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats) + len(results),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "pinned_cases": len(results),
            "suites": per_suite,
            "classes": labels,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{cid}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(path + ".tmp", path)

    if violations:
        for entry, message in violations:
            report(cid, entry, message)
        return 1
    if errors:
        for e in errors[:5]:
            print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    print(
        f"{cid}: held on {evidence['coverage']['evaluations']} cases "
        f"({len(nontrivial)} distinct non-trivial), {evidence['wall_s']} s"
    )
    return 0


def main_replay(cid, path):
    data = read_json(path)
    run = Run(cid)
    try:
        if "shard" in data:
            os.environ["VERIF_SEED"] = str(data["seed"])
            again = run.rerun_shard(data["shard"], data["suite"], 240.0)
            res = (
                {"status": "violation", "message": again["message"]}
                if again
                else {"status": "ok", "message": ""}
            )
        else:
            entry = {"suite": data["suite"], "case": data["case"]}
            res = run.run_cases([entry], 600.0, "replay")[0]
        print(res["status"], res["message"])
        if res["status"] in ("violation", "hang", "crash"):
            print(f"VIOLATION property={cid} replay={path}")
            return 1
        return 0 if res["status"] in ("ok", "inconclusive") else 2
    finally:
        run.cleanup()


if __name__ == "__main__":
    argv = sys.argv[1:]
    if argv and argv[0] == "--worker":
        worker(argv[1], int(argv[2]), argv[3], argv[4], float(argv[5]))
        sys.exit(0)
    if argv and argv[0] == "--single":
        worker_single(*argv[1:5])
        sys.exit(0)
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    ns = parser.parse_args(argv)
    if ns.replay:
        sys.exit(main_replay(ns.property, ns.replay))
    sys.exit(main_check(ns.property))
