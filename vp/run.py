"""Check runner:  python -m vp.run C07 [--tier quick|thorough] [--seed N] [--replay FILE] [--check NAME]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 3: harness error.
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)

_clock = time.monotonic  # bound before the simulator replaces it

LEVEL = "exploration"
SHRINK_SECONDS = float(os.environ.get("VP_SHRINK", "45"))


def load(prop):
    return importlib.import_module(f"vp.props.{prop.lower()}")


def plan_hash(name, plan):
    return hashlib.md5((name + json.dumps(plan, sort_keys=True)).encode()).hexdigest()[:16]


def from_repo(exc):
    tb = exc.__traceback__
    pre = os.path.realpath(REPO) + os.sep + "scaled"
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pre):
                return True
            tb = tb.tb_next
        todo.extend([e.__cause__, e.__context__])
    return False


def run_plan(check, plan):
    """returns (Case|None, violation|None, key)"""
    from .core import Inconclusive
    from .core import Violation

    try:
        case = check.execute(plan)
        return case, None, ""
    except Violation as v:
        return None, str(v), v.key
    except Inconclusive:
        return "inconclusive", None, ""
    except Exception as e:
        if type(e).__name__ == "SimHang":
            return None, f"component never yields: {e}", "hang"
        if from_repo(e):
            return None, "unexpected exception from the code under test:\n" + "".join(
                traceback.format_exception(e)
            )[-3000:], f"exc:{type(e).__name__}"
        raise


def known_keys(prop):
    keys = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)  # finding: property=ID key=KEY text
                if parts[1] == f"property={prop}":
                    keys[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return keys


def shard_main(a):
    """one shard: runs its part of every check, writes a JSON report"""
    import hypothesis
    from hypothesis import HealthCheck
    from hypothesis import Phase
    from hypothesis import given
    from hypothesis import settings

    mod = load(a.prop)
    i, n = a.shard
    known = known_keys(a.prop)
    report = {"checks": {}, "violation": None, "error": None}

    def dump():
        with open(a.out, "w") as f:
            json.dump(report, f)

    class Found(Exception):
        pass

    for ci, check in enumerate(mod.CHECKS):
        if a.check and check.name != a.check:
            continue
        total = check.quick if a.tier == "quick" else check.thorough
        total = int(total * a.scale)
        ns = min(n, check.shards or n)
        if i >= ns:
            continue
        count = total // ns + (1 if i < total % ns else 0)
        st = {"evaluations": 0, "hashes": [], "labels": {}, "samples": [], "inconclusive": 0, "excluded": {}}
        report["checks"][check.name] = st
        seen = set()
        best = {"plan": None, "msg": None, "key": None, "t0": None, "runs": 0}

        def one(plan):
            if best["t0"] is not None and _clock() - best["t0"] > SHRINK_SECONDS:
                if plan != best["plan"]:
                    return
                raise Found()
            begin = _clock()
            case, msg, key = run_plan(check, plan)
            took = _clock() - begin
            if best["t0"] is None:
                st["evaluations"] += 1
            if msg is not None:
                if key in known and known[key] is not None:
                    st["excluded"][key] = st["excluded"].get(key, 0) + 1
                    return
                size = len(json.dumps(plan))
                if best["t0"] is None:
                    # what takes long to fail (real processes that hang) is not shrunk
                    best["t0"] = _clock() - (SHRINK_SECONDS + 1 if took > 15 else 0)
                if best["plan"] is None or size <= len(json.dumps(best["plan"])):
                    best.update(plan=plan, msg=msg, key=key)
                if key == "hang":
                    raise Found()
                raise Found()
            if case == "inconclusive":
                st["inconclusive"] += 1
                return
            if best["t0"] is None and case is not None:
                for lab in case.labels:
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                for key in case.excluded:
                    st["excluded"][key] = st["excluded"].get(key, 0) + 1
                if case.nontrivial:
                    h = plan_hash(check.name, plan)
                    if h not in seen:
                        seen.add(h)
                        if len(st["samples"]) < 2 and len(json.dumps(plan)) < 3000:
                            st["samples"].append(plan)

        def finish(msg_prefix=""):
            report["violation"] = {"check": check.name, "plan": best["plan"], "msg": msg_prefix + best["msg"],
                                   "key": best["key"]}
            st["hashes"] = sorted(seen)
            dump()

        try:
            # regression inputs first (shard 0..ns-1 share them)
            files = corpus_files(a.prop, check.name)
            for j, path in enumerate(files):
                if j % ns != i:
                    continue
                with open(path) as f:
                    one(json.load(f)["plan"])
            if count:
                seed = (a.seed * 1_000_003 + i * 7919 + ci * 104729) & 0x7FFFFFFF
                test = given(check.strategy())(one)
                test = settings(
                    max_examples=count,
                    database=None,
                    deadline=None,
                    derandomize=False,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    print_blob=False,
                )(test)
                hypothesis.seed(seed)(test)()
        except Found:
            finish()
            return
        except BaseException as e:  # noqa
            if best["plan"] is not None:
                finish()
                return
            report["error"] = f"{check.name}: " + "".join(traceback.format_exception(e))[-6000:]
            dump()
            return
        st["hashes"] = sorted(seen)
    dump()


def corpus_files(prop, check):
    d = os.path.join(ROOT, "corpus", prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith(check + "-") and f.endswith(".json")]


def replay(prop, path):
    mod = load(prop)
    with open(path) as f:
        r = json.load(f)
    check = {c.name: c for c in mod.CHECKS}[r["check"]]
    case, msg, key = run_plan(check, r["plan"])
    if msg is not None:
        print(msg)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("replay: no violation", case if isinstance(case, str) else (case.labels if case else None))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--check")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--shard", type=lambda s: tuple(map(int, s.split("/"))))
    ap.add_argument("--out")
    a = ap.parse_args()
    a.prop = a.prop.upper()

    if a.replay:
        code = replay(a.prop, a.replay)
        sys.stdout.flush()
        os._exit(code)
    if a.shard:
        try:
            shard_main(a)
            code = 0
        except BaseException:  # noqa
            traceback.print_exc()
            code = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)

    t0 = _clock()
    work = tempfile.mkdtemp(prefix="vp-")
    procs = []
    try:
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{REPO}:{ROOT}",
                   PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"))
        for i in range(a.shards):
            out = os.path.join(work, f"{i}.json")
            log = open(os.path.join(work, f"{i}.log"), "wb")
            cmd = [sys.executable, "-m", "vp.run", a.prop, "--tier", a.tier, "--seed", str(a.seed),
                   "--scale", str(a.scale), "--shard", f"{i}/{a.shards}", "--out", out]
            if a.check:
                cmd += ["--check", a.check]
            procs.append((subprocess.Popen(cmd, env=env, cwd=ROOT, stdout=log, stderr=log), out, log.name))
        limit = 840 if a.tier == "quick" else 10 * 3600
        reports = []
        errors = []
        for p, out, log in procs:
            try:
                p.wait(max(1, limit - (_clock() - t0)))
            except subprocess.TimeoutExpired:
                errors.append(f"shard {out} ran out of time")
                p.kill()
                continue
            if not os.path.exists(out):
                errors.append(f"shard exit {p.returncode}: " + open(log, errors="replace").read()[-4000:])
                continue
            reports.append(json.load(open(out)))
        return conclude(a, reports, errors, _clock() - t0)
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                p.kill()
        subprocess.call(["rm", "-rf", work])


def conclude(a, reports, errors, wall):
    mod = load(a.prop)
    errors += [r["error"] for r in reports if r["error"]]
    viols = [r["violation"] for r in reports if r["violation"]]
    evaluations, hashes, inconclusive = 0, set(), 0
    per, samples, excluded = {}, [], {}
    for r in reports:
        for name, st in r["checks"].items():
            evaluations += st["evaluations"]
            hashes.update(st["hashes"])
            inconclusive += st["inconclusive"]
            p = per.setdefault(name, {"evaluations": 0, "nontrivial": 0, "labels": {}})
            p["evaluations"] += st["evaluations"]
            p["nontrivial"] += len(st["hashes"])
            for k, v in st["labels"].items():
                p["labels"][k] = p["labels"].get(k, 0) + v
            for k, v in st["excluded"].items():
                excluded[k] = excluded.get(k, 0) + v
            for s in st["samples"][:1]:
                if sum(1 for x in samples if x["check"] == name) < 3:
                    samples.append({"check": name, "case": s})
    rule = "; ".join(f"{c.name}: {c.rule}" for c in mod.CHECKS)
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": LEVEL,
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples,
                     "per_check": per, "inconclusive": inconclusive, "known_findings_excluded": excluded},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1)
    while len(text) > 60_000 and ev["coverage"]["samples"]:
        ev["coverage"]["samples"].pop()
        text = json.dumps(ev, indent=1)
    with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
        f.write(text)

    for key, text in known_keys(a.prop).items():
        print(f"KNOWN-FINDING: property={a.prop} {text}")
    if viols:
        v = min(viols, key=lambda v: len(json.dumps(v["plan"])))
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", f"{a.prop}-{plan_hash(v['check'], v['plan'])}.json")
        with open(path, "w") as f:
            json.dump({"property": a.prop, "check": v["check"], "plan": v["plan"], "message": v["msg"]}, f, indent=1)
        print(f"check {v['check']}: {v['msg'][:3000]}")
        print(f"plan: {json.dumps(v['plan'])[:2000]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR:", e)
        return 3
    if inconclusive > 0.05 * max(1, evaluations):
        print(f"HARNESS ERROR: {inconclusive} of {evaluations} cases were inconclusive")
        return 3
    print(f"{a.prop}: {evaluations} cases, {len(hashes)} distinct non-trivial, {wall:.1f}s: no violation")
    for name, p in per.items():
        print(f"  {name}: {p['evaluations']} cases, {p['nontrivial']} nontrivial, "
              + " ".join(f"{k}={v}" for k, v in sorted(p["labels"].items())))
    return 0


if __name__ == "__main__":
    sys.exit(main())
