"""Run functions in processes forked from an early, unused state of this one."""

import json
import os
import sys
import traceback

_server = None


def _serve(requests, replies):
    """Loop of the server process: one forked child per request."""
    with os.fdopen(requests, "r") as rd, os.fdopen(replies, "w") as wr:
        for line in rd:
            pid = os.fork()
            if pid == 0:
                code = 0
                job = json.loads(line)
                try:
                    os.chdir(job["dir"])
                    module = sys.modules[job["module"]]
                    try:
                        out = {"value": getattr(module, job["function"])(job["arg"])}
                    except BaseException as exc:  # noqa: BLE001
                        from .harness import Inconclusive, is_repo_failure

                        out = {
                            "failure": "".join(
                                traceback.format_exception(
                                    type(exc), exc, exc.__traceback__
                                )
                            ),
                            "type": type(exc).__name__,
                            "inconclusive": isinstance(exc, Inconclusive),
                            "repo": is_repo_failure(exc),
                        }
                    with open(job["out"], "w") as fh:
                        json.dump(out, fh)
                except BaseException:  # noqa: BLE001
                    code = 1
                os._exit(code)
            _, status = os.waitpid(pid, 0)
            wr.write(f"{status}\n")
            wr.flush()


def start():
    """Create the server; call before any other use of the package."""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    down_r, down_w = os.pipe()
    up_r, up_w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(down_w)
        os.close(up_r)
        try:
            _serve(down_r, up_w)
        finally:
            os._exit(0)
    os.close(down_r)
    os.close(up_w)
    _server = (os.getpid(), os.fdopen(down_w, "w"), os.fdopen(up_r, "r"))


def call(module, function, arg, directory, out):
    """Result of module.function(arg) in a fresh child working in directory."""
    start()
    _, wr, rd = _server
    job = {"module": module, "function": function, "arg": arg, "dir": directory, "out": out}
    wr.write(json.dumps(job) + "\n")
    wr.flush()
    status = rd.readline()
    if not status or int(status) != 0 or not os.path.isfile(out):
        raise RuntimeError(f"child process failed with status {status!r}")
    with open(out) as fh:
        return json.load(fh)
