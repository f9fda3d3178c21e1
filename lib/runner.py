"""Command line of the checks."""
import hashlib
import json
import os
import subprocess
import sys
import time

import driver
import props
import simbuild
from driver import HarnessError, short, text

KNOWN = os.path.join(simbuild.VERIF, "known-findings.txt")
JS = ("C15", "C16", "C17", "C18", "C24")
DAEMON = ("C21",)

ASSUME = ["the simulated kernel behaves like Linux TCP sockets, poll and files for the calls used",
          "processes are single threaded (they are), so their only interaction is through the simulated calls",
          "x86-64 gcc build at -O1 with assertions on, as in the shipped build configuration",
          "search is sampled by seed, not exhaustive"]


def known(prop):
    """Findings recorded, not repaired: class and a substring that identifies the failing history."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.strip())
    return out


def run_group(env, items, evaluate):
    """Fresh re-execution of the runs of an aggregate finding."""
    w = driver.Worker(env.simd, env.images)
    try:
        out = []
        for it in items:
            r = w.run_text(text(it["scenario"]))
            d = dict(it)
            for k in ("mask", "order"):
                if k in r:
                    d[k] = r[k]
            if ("mask" in it and "mask" not in r) or ("order" in it and "order" not in r):
                raise HarnessError("aggregate run did not complete on replay")
            out.append(d)
        return out
    finally:
        w.close()


def report_aggregate(env, items, cls, evaluate):
    def holds(sub):
        return any(c == cls for c, _ in evaluate(sub)[0])
    sub = items
    while len(sub) > 40:
        for half in (sub[:len(sub) // 2], sub[len(sub) // 2:]):
            if holds(half):
                sub = half
                break
        else:
            break
    again = run_group(env, sub, evaluate)
    if [(x.get("mask"), x.get("order")) for x in again] != [(x.get("mask"), x.get("order")) for x in sub] or not holds(again):
        raise HarnessError("aggregate finding %s is not reproducible" % cls)
    msg = [m for c, m in evaluate(again)[0] if c == cls][0]
    os.makedirs(driver.REPLAYS, exist_ok=True)
    texts = [text(x["scenario"]) for x in sub]
    path = os.path.join(driver.REPLAYS, "%s-%s.json" % (env.prop, hashlib.sha256("".join(texts).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": env.prop, "class": cls, "message": msg, "kind": "aggregate", "verif_seed": env.seed,
                   "group": sub[0].get("group", 0), "runs": len(sub), "found_in_runs": len(items), "scenarios": [x["scenario"] for x in sub]}, f)
    print("violation class %s: %s" % (cls, msg))
    print("minimised to %d of %d runs" % (len(sub), len(items)))
    print("VIOLATION property=%s replay=%s" % (env.prop, path), flush=True)


def report_pair(env, a, b):
    w = driver.Worker(env.simd, env.images)
    try:
        x, y = w.run_text(text(a)), w.run_text(text(b))
    finally:
        w.close()
    if x.get("order") == y.get("order"):
        raise HarnessError("pair finding is not reproducible")
    os.makedirs(driver.REPLAYS, exist_ok=True)
    path = os.path.join(driver.REPLAYS, "%s-%s.json" % (env.prop, hashlib.sha256((text(a) + text(b)).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": env.prop, "class": "C13:timing-dependent", "message": "same seeds, different network timing, different order",
                   "kind": "pair", "verif_seed": env.seed, "scenarios": [a, b], "orders": [x.get("order"), y.get("order")]}, f)
    print("violation class C13:timing-dependent: %s / %s" % (json.dumps(x.get("order"))[:300], json.dumps(y.get("order"))[:300]))
    print("VIOLATION property=%s replay=%s" % (env.prop, path), flush=True)


def check(prop, tier, seed):
    conf = props.CHECKS[prop]
    env = driver.Env(prop, tier, seed, conf.get("variants", props.ALLV))
    count = conf[tier]
    budget = 150 if tier == "quick" else 900
    env.search(conf["task"], count, budget, conf["nt"])
    extra = {}
    bad = []
    if not env.found and "evaluate" in conf:
        items = [o for _, o in env.agg]
        groups = [items]
        if conf.get("grouped"):
            groups = [[x for x in items if x["group"] == g] for g in sorted({x["group"] for x in items})]
        total = {}
        for g in groups:
            out, info = conf["evaluate"](g)
            for k, v in info.items():
                total[k] = total.get(k, 0) + v
            for cls, msg in out:
                bad.append((g, cls))
        extra["distribution"] = total
        extra["groups"] = len(groups)
    pairs = [x for _, x in env.agg if isinstance(x, dict) and "pair" in x]
    nviol = 1 if env.found or bad or pairs else 0
    driver.write_evidence(env, "exploration", conf["rule"], extra, nviol, ASSUME)
    for k in known(prop):
        print("KNOWN-FINDING: " + k[len("finding: "):])
    if env.found:
        driver.report_violation(env)
        return 1
    if bad:
        report_aggregate(env, bad[0][0], bad[0][1], conf["evaluate"])
        return 1
    if pairs:
        report_pair(env, pairs[0]["scenario"], pairs[0]["pair"])
        return 1
    print("%s held: %d runs, %d distinct non-trivial, %d abstract states, %.1f s" % (prop, env.runs, len(env.nontrivial), env.states, time.time() - env.t0))
    if env.timeouts:
        print("%d runs exceeded the wall-clock limit and are not counted as evidence" % env.timeouts)
    if len(env.nontrivial) < 10 or env.timeouts * 5 > env.runs:
        print("too few conclusive runs", file=sys.stderr)
        return 2
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if prop in JS:
        return subprocess.call(["node", os.path.join(simbuild.VERIF, "orch", "check.js"), prop, tier, str(seed)])
    if prop in DAEMON:
        return subprocess.call([sys.executable, "-B", os.path.join(simbuild.VERIF, "daem", "check.py"), prop, tier, str(seed)])
    try:
        return check(prop, tier, seed)
    except simbuild.BuildError as e:
        print("build failed: %s" % e, file=sys.stderr)
        return 2
    except HarnessError as e:
        print("check error: %s" % e, file=sys.stderr)
        return 2


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    if prop in JS:
        return subprocess.call(["node", os.path.join(simbuild.VERIF, "orch", "check.js"), "--replay", path])
    if prop in DAEMON:
        return subprocess.call([sys.executable, "-B", os.path.join(simbuild.VERIF, "daem", "check.py"), "--replay", path])
    env = driver.Env(prop, "quick", d.get("verif_seed", 1), props.CHECKS[prop].get("variants", props.ALLV))
    if d["kind"] == "run":
        r = env.fresh(d["scenario"])
        hit = driver.same_class(r, d["class"])
        print(json.dumps(r.get("violations", [])), "same execution" if r.get("hash") == d["hash"] else "different execution")
    elif d["kind"] == "pair":
        a, b = (env.fresh(text(s)) for s in d["scenarios"])
        hit = a.get("order") != b.get("order")
    else:
        ev = props.CHECKS[prop]["evaluate"]
        items = run_group(env, [{"scenario": s, "group": d.get("group", 0)} for s in d["scenarios"]], ev)
        out = ev(items)[0]
        hit = any(c == d["class"] for c, _ in out)
        print(out)
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if hit else 0
