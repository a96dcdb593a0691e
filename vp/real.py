"""Runs a scenario on real processes and real zmq, contained in a scratch directory and a session of its own.

`python -m vp.real MODULE FUNCTION` reads a JSON plan from stdin, calls FUNCTION(plan, env) and prints the JSON result.
"""
import importlib
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def session_processes(sid):
    """pids of the session that are still there (zombies do not count)"""
    out = []
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open(f"/proc/{d}/stat") as f:
                text = f.read()
        except OSError:
            continue
        head, tail = text.rsplit(")", 1)
        fields = tail.split()
        if int(fields[3]) == sid and fields[0] != "Z":
            out.append((int(d), head.split("(", 1)[1]))
    return out


def run(module, function, plan, timeout=120.0):
    """-> dict of the scenario, plus `left`: processes of the session that outlived it, `files`: what it left in its directory"""
    repo = os.environ.get("VP_REPO", "/repo")
    work = tempfile.mkdtemp(prefix="vp-real-")
    env = dict(os.environ)
    env.update(PYTHONPATH=f"{repo}:{ROOT}:{HYP}", PYTHONDONTWRITEBYTECODE="1", TMPDIR=work, PYTHONHASHSEED="0")
    env.pop("PYTHONPYCACHEPREFIX", None)
    log = open(os.path.join(work, "log"), "wb")
    p = subprocess.Popen([sys.executable, "-m", "vp.real", module, function], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=log,
                         env=env, cwd=work, start_new_session=True)
    try:
        try:
            out, _ = p.communicate(json.dumps(plan).encode(), timeout)
            res = json.loads(out.decode().splitlines()[-1]) if p.returncode == 0 and out.strip() else None
            if res is None:
                res = {"error": f"exit {p.returncode}: " + open(log.name, errors="replace").read()[-3000:]}
        except subprocess.TimeoutExpired:
            res = {"timeout": True, "log": open(log.name, errors="replace").read()[-3000:]}
        end = time.time() + 3
        while session_processes(p.pid) and time.time() < end and "timeout" not in res:
            time.sleep(0.05)
        res["left"] = [n for pid, n in session_processes(p.pid)]
        res["files"] = sorted(x for x in os.listdir(work) if x != "log")
        return res
    finally:
        for _ in range(20):
            left = session_processes(p.pid)
            if not left:
                break
            for pid, _ in left:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            time.sleep(0.05)
        p.wait()
        log.close()
        shutil.rmtree(work, ignore_errors=True)


def attempt(function, plan, timeout=120.0, tries=3):
    """run a scenario of realruns; what looks like a lack of time is only believed when it repeats"""
    from .core import Violation

    for _ in range(tries):
        res = run("vp.realruns", function, plan, timeout)
        if "ok" in res:
            return res
        if "violation" in res:
            raise Violation("on real processes: " + res["violation"], res.get("key", ""))
    if "pending" in res:
        raise Violation(f"on real processes: {res['pending']} never completes", "hang")
    if "timeout" in res:
        raise Violation(f"on real processes: no end within {timeout} s: {res['log'][-1500:]}", "hang")
    text = str(res.get("error"))
    if os.path.join(os.environ.get("VP_REPO", "/repo"), "scaled") in text:
        raise Violation("on real processes: " + text, "crash")
    raise RuntimeError("real run failed: " + text)


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def main():
    # a shell that runs the check in the background may have had it ignore SIGINT, and everything it starts
    for x in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT):
        signal.signal(x, signal.default_int_handler if x == signal.SIGINT else signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    stdout = os.dup(1)
    os.dup2(2, 1)  # whatever the processes print does not disturb the result
    plan = json.loads(sys.stdin.read())
    f = getattr(importlib.import_module(sys.argv[1]), sys.argv[2])
    res = f(plan)
    os.write(stdout, json.dumps(res).encode() + b"\n")


if __name__ == "__main__":
    main()
