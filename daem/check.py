"""Seeded search over simulated worker daemon histories; see ../DESIGN.md."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DPPIR_REPO", os.environ.get("REPO", "/repo"))
sys.path.insert(0, HERE)
import sim  # noqa: E402

COUNT = {"quick": 2600, "thorough": 60000}
BUDGET = {"quick": 90, "thorough": 840}
RULE = ("Each run is the life of one real worker daemon (and its restarts) generated from the seed: server or client, 1-4 jobs of all types with their parameters, waits, configurations of several sizes, "
        "programs that write, fail, end at once or run on, operator kills and log requests at any time, request latencies up to 40 s, and in most runs refused, timed-out, unanswered or truncated requests and machine restarts "
        "with only the files surviving. Non-trivial: at least one job was handed out and reported.")
REAL = ["experiments/daemon_server.sh, daemon_client.sh, checklist/*.sh, sealpir/*.sh (as they are, by bash, with its own process, pipe and file handling in a scratch directory)"]
STUB = ["curl, bazel and the programs it runs, sleep, ps, kill, pkill, pgrep: commands that ask the simulator (kill reaches only processes of the run)", "orchestrator: reference model", "time: virtual"]
ASSUME = ["one daemon per machine and working directory", "curl's exit status tells whether a request was answered in full, as curl documents", "search is sampled by seed, not exhaustive"]


def build():
    d = os.path.join(VERIF, "build", "daem")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(HERE, "stub.c")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(d, "stub-" + key)
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        subprocess.run(["gcc", "-O1", "-o", tmp, src], check=True)
        os.replace(tmp, out)
    return out


def safe(scn, given=None, trace=None):
    try:
        return sim.run(scn, build(), REPO, given, trace)
    except Exception as e:  # noqa: BLE001
        return {"error": "%s: %s" % (type(e).__name__, e)}


def has(r, cls):
    return bool(r.get("violation")) and r["violation"][0] == cls


def work(a):
    sim.subreaper()
    base, frm, to, until = a
    out = []
    for i in range(frm, to):
        if time.time() > until:
            break
        r = safe(sim.generate(base + i))
        if r.get("violation"):
            again = safe(sim.generate(base + i))
            if again.get("hash") != r["hash"]:      # processes disturbed from outside: not an execution that can be reported
                again.setdefault("counters", {})["unreproducible"] = 1
                r = again
        r["seed"] = base + i
        r.pop("choices", None)
        out.append(r)
        if r.get("error") or r.get("violation"):
            break
    return out


def minimise(scn, choices, cls, until):
    s, tried = dict(scn), 0

    def fails(x, c=None):
        nonlocal tried
        tried += 1
        return has(safe(x, c), cls)
    again = True
    while again and time.time() < until:
        again = False
        for k, v in (("jobs", 1), ("crash", 0), ("loss", 0), ("slow", 0), ("kill", 0), ("log", 0), ("stale", 0), ("odd", 0)):
            if s[k] != v and time.time() < until and fails(dict(s, **{k: v})):
                s[k], again = v, True
    ch = safe(s).get("choices", [])
    if not fails(s, ch):
        return scn, choices, tried
    while len(ch) > 1 and time.time() < until and fails(s, ch[:len(ch) // 2]):
        ch = ch[:len(ch) // 2]
    size = max(1, len(ch) // 2)
    while size and time.time() < until:
        for i in range(0, len(ch), size):
            if time.time() > until:
                break
            if any(ch[i:i + size]):
                c = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:]
                if fails(s, c):
                    ch = c
        size //= 2
    while ch and ch[-1] == 0:
        ch.pop()
    return s, ch, tried


def main(prop, tier, seed):
    t0 = time.time()
    sim.subreaper()
    build()
    base = seed * 10000000 + 21 * 100000
    for i in range(4):
        a, b = safe(sim.generate(base + i)), safe(sim.generate(base + i))
        for r in (a, b):
            if "error" in r:
                print("the daemon cannot be simulated: " + r["error"], file=sys.stderr)
                return 2
        if a["hash"] != b["hash"]:
            print("simulation is not deterministic for seed %d" % (base + i), file=sys.stderr)
            return 2
    n, until = COUNT[tier], t0 + BUDGET[tier]
    size = 10
    rs, found, errors = [], [], []
    with mp.Pool(8) as pool:
        for out in pool.imap_unordered(work, [(base, i, min(n, i + size), until) for i in range(0, n, size)]):
            for r in out:
                (errors if "error" in r else rs).append(r)
                if r.get("violation"):
                    found.append(r)
            if len(found) >= 3 or errors:
                pool.terminate()
                break
    wall = time.time() - t0
    counters, states, hashes = {}, set(), set()
    for r in rs:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        states.update(r["states"])
        hashes.add(r["hash"])
    nt = len(set(r["hash"] for r in rs if r["jobs"]))
    samples = []
    for r in rs[:2]:
        tr = []
        safe(sim.generate(r["seed"]), None, tr)
        samples.append({"scenario": sim.generate(r["seed"]), "hash": r["hash"], "jobs": r["jobs"], "simulated_s": round(r["vtime"]), "events": [x[:160] for x in tr[:25]]})
    tree = hashlib.sha256(repr(sorted(sim.sources(REPO).items())).encode()).hexdigest()[:20]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": len(rs), "distinct_nontrivial": nt, "rule": RULE, "samples": samples, "distinct_executions_by_event_hash": len(hashes), "distinct_abstract_states": len(states),
        "abstract_state_measure": "kind of daemon, request that must come next, type and state of the job, its kill and log marks, requests in flight, last fault",
        "runs_per_hour": round(len(rs) / wall * 3600), "simulated_seconds": round(sum(r["vtime"] for r in rs)), "events": sum(r["events"] for r in rs), "jobs_reported": sum(r["jobs"] for r in rs),
        "faults_and_events": counters, "components_real": REAL, "components_stubbed": STUB, "repo_tree": tree}, "assumptions": ASSUME, "wall_s": wall, "violations": 1 if found else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    kf = os.path.join(VERIF, "known-findings.txt")
    for line in open(kf) if os.path.exists(kf) else []:
        if line.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + line.strip()[len("finding: "):])
    found.sort(key=lambda r: r["seed"])
    for f in found[:3]:
        s0, cls = sim.generate(f["seed"]), f["violation"][0]
        a, b = safe(s0), safe(s0)
        if not has(a, cls) or a["hash"] != b.get("hash"):
            print("not reproducible: %s seed %d" % (cls, f["seed"]), file=sys.stderr)
            continue
        s, ch, tried = minimise(s0, a["choices"], cls, time.time() + 40)
        r = safe(s, ch)
        if not has(r, cls):
            s, ch = s0, a["choices"]
            r = safe(s, ch)
        if not has(r, cls):
            print("replay by choices disagrees: " + cls, file=sys.stderr)
            continue
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        body = {"property": prop, "class": cls, "message": r["violation"][1], "kind": "daemon", "hash": r["hash"], "seed": f["seed"], "verif_seed": seed, "reductions_tried": tried,
                "nonbenign_choices": sum(1 for x in ch if x), "scenario": s, "choices": ch}
        path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(json.dumps([s, ch]).encode()).hexdigest()[:10]))
        with open(path, "w") as o:
            json.dump(body, o, indent=1)
        print("violation class %s: %s" % (cls, body["message"]))
        print("minimised to %d jobs, %d non-benign choices, %d events" % (s["jobs"], body["nonbenign_choices"], r["events"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if found:
        return 2
    if errors:
        print("simulation error: " + errors[0]["error"][:600], file=sys.stderr)
        return 2
    print("%s held: %d runs, %d distinct non-trivial, %d abstract states, %.1f s" % (prop, len(rs), nt, len(states), wall))
    return 0


def replay(path):
    d = json.load(open(path))
    sim.subreaper()
    tr = []
    r = safe(d["scenario"], d["choices"], tr)
    if "error" in r:
        print(r["error"], file=sys.stderr)
        return 2
    print("\n".join(tr))
    print(r["violation"], "same execution" if r["hash"] == d["hash"] else "different execution")
    if has(r, d["class"]):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main(sys.argv[1], sys.argv[2], int(sys.argv[3])))
