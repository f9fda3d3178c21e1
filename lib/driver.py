"""Seeded search over simulated runs: workers, gating, minimisation, evidence."""
import hashlib
import json
import math
import os
import random
import re
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

import simbuild

VERIF = simbuild.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "build", "replays")


# properties whose fault-free runs must end with every process successful
CRASH_IS_VIOLATION = ("C01", "C02", "C03", "C04", "C05", "C06")
# ... and those where the host process breaking down is one whatever the faults
CRASH_ALWAYS = ("C23",)


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------- scenarios
DEFAULTS = dict(mode="system", variant="real", check="", seed=1, sched=1, parties=2, servers=1, db=10, eps="0",
                delta="0", stage="all", queries=[1], hosts=0, crypto=0, edge=0, seedsalt=0, fixedkey=-1, keymode=0,
                strat=0, chunk=0, shortw=0, connfail=0, rbuf=1 << 20, sbuf=1 << 20, fair=400, slow=0, nstart=0, skew=0,
                maxsteps=20000000)


def scen(**kw):
    s = dict(DEFAULTS)
    s["faults"] = []
    s["x"] = {}
    s.update(kw)
    return s


def text(s, choices=None):
    o = []
    for k in DEFAULTS:
        v = s[k]
        if k == "queries":
            v = ",".join(str(q) for q in v)
        o.append("%s %s" % (k, v))
    for f in s["faults"]:
        o.append("fault %s %d %d %d" % tuple(f))
    for k in sorted(s["x"]):
        o.append("x.%s %s" % (k, s["x"][k]))
    t = "\n".join(o) + "\n"
    if choices is not None:
        t += "choices " + choices + "\n"
    return t


def short(s):
    """Non-default parameters, for evidence samples."""
    d = {k: v for k, v in s.items() if k in DEFAULTS and v != DEFAULTS[k]}
    if s["faults"]:
        d["faults"] = [list(f) for f in s["faults"]]
    if s["x"]:
        d["x"] = dict(s["x"])
    return d


# ------------------------------------------------------------------ workers
class Worker:
    def __init__(self, simd, images):
        self.dir = tempfile.mkdtemp(prefix="dps", dir="/tmp")
        self.p = subprocess.Popen([simd, self.dir] + ["%s=%s" % kv for kv in sorted(images.items())],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def run_text(self, t):
        b = t.encode()
        try:
            self.p.stdin.write(b"RUN %d\n" % len(b) + b)
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError) as e:
            raise HarnessError("worker died: %r %s" % (e, self.p.stderr.read()[-500:]))
        if not line:
            raise HarnessError("worker died: %s" % self.p.stderr.read()[-500:])
        try:
            r = json.loads(line)
        except ValueError:
            raise HarnessError("bad worker output: %r" % line[:300])
        if str(r.get("error", "")).startswith("run process ended"):
            # The simulated processes brought their host process down (wild memory access).
            m = re.search(r"^check (\S+)$", t, re.M)
            crashed = m and m.group(1) in CRASH_IS_VIOLATION and not re.search(r"^fault (?!restart)", t, re.M)
            crashed = crashed or (m and m.group(1) in CRASH_ALWAYS)
            r = {"hash": "crashed", "steps": 0, "vtime_us": 1000000, "counters": {}, "nodes": [], "conns": 0, "bytes": 0,
                 "nchoices": 0, "end": "crashed", "meshok": False, "fault_step": 0, "crashed": r["error"], "violations": []}
            if crashed:
                r["violations"] = [{"cls": m.group(1) + ":run-crashed", "msg": "wild memory access ended the simulated deployment"}]
        return r

    def bitmap(self):
        self.p.stdin.write(b"BITMAP\n")
        self.p.stdin.flush()
        return self.p.stdout.read(1 << 21)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


class Env:
    """One check invocation: build products, statistics, findings."""

    def __init__(self, prop, tier, seed, variants):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.simd, self.images, self.info = simbuild.build(variants)
        self.build_s = time.time() - self.t0
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.runs = 0
        self.steps = 0
        self.vtime = 0
        self.counters = {}
        self.hashes = set()
        self.nontrivial = set()
        self.timeouts = 0
        self.errors = []
        self.found = []       # (scenario, result, class, msg)
        self.samples = []
        self.variant_runs = {}
        self.ends = {}
        self.agg = []         # per-task return values
        self.deadline = None
        self.states = 0
        self.slowest = 0.0

    # -- fresh-process run
    def fresh(self, t):
        w = Worker(self.simd, self.images)
        try:
            return w.run_text(t)
        finally:
            w.close()

    def note(self, s, r, nontrivial):
        with self.lock:
            self.runs += 1
            if r.get("timeout"):
                self.timeouts += 1
                if len(self.errors) < 5:
                    self.errors.append({"timeout": short(s)})
                return
            if r.get("error"):
                if len(self.errors) < 5:
                    self.errors.append({"error": r["error"], "scenario": short(s)})
                return
            self.steps += r["steps"]
            self.vtime += r["vtime_us"] - 1000000
            for k, v in r["counters"].items():
                self.counters[k] = self.counters.get(k, 0) + v
            self.variant_runs[s["variant"]] = self.variant_runs.get(s["variant"], 0) + 1
            self.ends[r["end"]] = self.ends.get(r["end"], 0) + 1
            self.hashes.add(r["hash"])
            if nontrivial(s, r):
                self.nontrivial.add(r["hash"])
                if len(self.samples) < 3:
                    self.samples.append({"scenario": short(s), "steps": r["steps"], "end": r["end"], "hash": r["hash"],
                                         "processes": [[n["n"], n["code"]] for n in r["nodes"]][:12]})
            for v in r["violations"]:
                if v["cls"].startswith(self.prop + ":"):
                    self.found.append((s, r, v["cls"], v["msg"]))
                    self.stop.set()
                    break

    def search(self, task, count, budget_s, nontrivial, nworkers=8):
        """task(env, run, rng, index) is a pure function of its seed."""
        self.deadline = time.time() + budget_s
        it = iter(range(count))
        harness = []

        def loop():
            try:
                w = Worker(self.simd, self.images)
            except Exception as e:  # pragma: no cover
                harness.append(e)
                return

            def run(s):
                ts = time.time()
                r = w.run_text(text(s))
                dt = time.time() - ts
                with self.lock:
                    self.slowest = max(self.slowest, dt)
                self.note(s, r, nontrivial)
                return r
            try:
                while not self.stop.is_set() and time.time() < self.deadline:
                    with self.lock:
                        i = next(it, None)
                    if i is None:
                        break
                    rng = random.Random("%s/%s/%d/%d" % (self.prop, self.tier, self.seed, i))
                    out = task(self, run, rng, i)
                    if out is not None:
                        with self.lock:
                            self.agg.append((i, out))
            except HarnessError as e:
                harness.append(e)
            finally:
                try:
                    with self.lock:
                        bm = w.bitmap()
                        self._merge(bm)
                except Exception:
                    pass
                w.close()
        ths = [threading.Thread(target=loop) for _ in range(nworkers)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.agg.sort(key=lambda x: x[0])
        if harness and not self.found:
            raise HarnessError(str(harness[0]))

    _bm = 0

    def _merge(self, bm):
        self._bm |= int.from_bytes(bm, "little")
        self.states = bin(self._bm).count("1")


# ------------------------------------------------------------ minimisation
def same_class(r, cls):
    return any(v["cls"] == cls for v in r.get("violations", []))


def shrink_candidates(s):
    def c(**kw):
        n = dict(s)
        n["x"] = dict(s["x"])
        n["faults"] = [list(f) for f in s["faults"]]
        n.update(kw)
        return n
    for i in range(len(s["faults"])):
        n = c()
        del n["faults"][i]
        yield n
    if s["mode"] == "system":
        if s["parties"] > 2:
            yield c(parties=2)
            yield c(parties=s["parties"] - 1)
        if s["servers"] > 1:
            for k in {1, s["servers"] // 2, s["servers"] - 1}:
                if k >= 1:
                    yield c(servers=k, queries=s["queries"][:k])
    if s["eps"] != "0" or s["delta"] != "0":
        yield c(eps="0", delta="0")
    if s["db"] > 1:
        for k in (1, 2, s["db"] // 2, s["db"] - 1):
            if 0 < k < s["db"]:
                yield c(db=k)
    q = s["queries"]
    if any(q):
        for n in ([0] * len(q), [min(1, x) for x in q], [x // 2 for x in q], [max(0, x - 1) for x in q]):
            if n != q:
                yield c(queries=n)
        for i in range(len(q)):
            if q[i]:
                n = list(q)
                n[i] = 0
                yield c(queries=n)
                n = list(q)
                n[i] //= 2
                if n[i]:
                    yield c(queries=n)
    for k in ("hosts", "connfail", "skew", "shortw", "nstart", "slow", "edge", "chunk", "strat", "keymode"):
        if s[k]:
            yield c(**{k: 0})
    for k in ("rbuf", "sbuf"):
        if s[k] != 1 << 20:
            yield c(**{k: 1 << 20})
    if not s["crypto"] and s["mode"] == "system":
        yield c(crypto=1)
    for i in range(len(s["faults"])):
        f = s["faults"][i]
        if f[2] > 1:
            n = c()
            n["faults"][i][2] = f[2] // 2
            yield n
    for k, v in s["x"].items():
        if k in ("vol", "layers", "add", "cut", "old") and int(v) > 1:
            n = c()
            n["x"][k] = str(int(v) // 2)
            yield n


def minimise(env, s, cls, budget_s=40):
    """Greedy parameter shrinking, then the recorded choices are zeroed block by block."""
    end = time.time() + budget_s
    w = Worker(env.simd, env.images)
    tried = 0
    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand in shrink_candidates(s):
                if time.time() > end:
                    break
                if cand["mode"] == "system" and cand["db"] < cand["servers"]:
                    continue
                tried += 1
                r = w.run_text(text(cand))
                if same_class(r, cls):
                    s = cand
                    progress = True
                    break
        full = dict(s)
        full["x"] = dict(s["x"], wantchoices="1")
        r = env.fresh(text(full))
        ch = [int(x) for x in r.get("choices", "").split(",") if x] if same_class(r, cls) else None
        if ch is None:
            return s, None, tried

        def ok(c):
            return same_class(w.run_text(text(s, ",".join(map(str, c)))), cls)
        if not ok(ch):
            return s, None, tried
        # shortest failing prefix (the rest benign)
        n = len(ch)
        while n and time.time() < end:
            k = n // 2
            if ok(ch[:k]):
                n = k
                ch = ch[:k]
            else:
                break
        size = max(1, len(ch) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(ch) and time.time() < end:
                if any(ch[i:i + size]):
                    c2 = ch[:i] + [0] * len(ch[i:i + size]) + ch[i + size:]
                    tried += 1
                    if ok(c2):
                        ch = c2
                i += size
            size //= 2
        while ch and ch[-1] == 0:
            ch.pop()
        return s, ",".join(map(str, ch)), tried
    finally:
        w.close()


def report_violation(env, budget_s=40):
    """Gate, minimise and write the replay file of the first reproducible finding."""
    problems = []
    seen = {}
    for s, r, cls, msg in env.found:
        if seen.get(cls, 0) >= 3:
            continue
        seen[cls] = seen.get(cls, 0) + 1
        a = env.fresh(text(s))
        b = env.fresh(text(s))
        if not (same_class(a, cls) and same_class(b, cls) and a["hash"] == b["hash"]):
            problems.append("not reproducible: %s %s" % (cls, json.dumps(short(s))))
            continue
        ms, ch, tried = minimise(env, s, cls, budget_s)
        t = text(ms, ch)
        a = env.fresh(t)
        b = env.fresh(t)
        if not (same_class(a, cls) and same_class(b, cls) and a["hash"] == b["hash"]):
            ms, t = s, text(s)
            ch = None
            a = env.fresh(t)
            if not same_class(a, cls):
                problems.append("minimised and original replay disagree: " + cls)
                continue
        m = [v["msg"] for v in a["violations"] if v["cls"] == cls][0]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s.json" % (env.prop, hashlib.sha256(t.encode()).hexdigest()[:10]))
        nz = sum(1 for x in (ch or "").split(",") if x not in ("", "0"))
        with open(path, "w") as f:
            json.dump({"property": env.prop, "class": cls, "message": m, "kind": "run", "hash": a["hash"],
                       "verif_seed": env.seed, "original": short(s), "minimised": short(ms),
                       "nonbenign_choices": nz, "reductions_tried": tried, "scenario": t}, f, indent=1)
        print("violation class %s: %s" % (cls, m))
        print("minimised scenario: %s; %d non-benign choices" % (json.dumps(short(ms)), nz))
        print("VIOLATION property=%s replay=%s" % (env.prop, path), flush=True)
        return cls
    raise HarnessError("; ".join(problems[:3]) or "nothing to report")


# ---------------------------------------------------------------- evidence
REAL = ["DPPIR/main.cc and config/gen_config.cc (entry points, run as they are)",
        "DPPIR/config, noise, onion, protocol/{client,party,parallel_party,backend}, sharing, shuffle, sockets, types"]
STUB = ["kernel sockets, poll, clock, sleep, process start and death: simulator",
        "libsodium randomness and libc rand(): seeded streams per process",
        "absl flags: small stand-in with the same interface",
        "libsodium sealed boxes: real in runs with crypto=0, recording stand-in of the same sizes in runs with crypto=1"]


def write_evidence(env, level, rule, extra=None, violations=0, assumptions=None, real=None, stub=None):
    os.makedirs(EVIDENCE, exist_ok=True)
    wall = time.time() - env.t0
    search = max(0.001, wall - env.build_s)
    cov = {
        "evaluations": env.runs,
        "distinct_nontrivial": len(env.nontrivial),
        "rule": rule,
        "samples": env.samples,
        "distinct_executions_by_event_hash": len(env.hashes),
        "distinct_abstract_states": env.states,
        "abstract_state_measure": "hash of (state and wait kind of each process, empty/partial/full of each direction of each connection), sampled every 4 scheduler steps into a 2^24-bit map",
        "runs_per_hour": int(env.runs / search * 3600),
        "scheduler_steps": env.steps,
        "simulated_seconds": round(env.vtime / 1e6, 1),
        "faults_and_events": dict(sorted(env.counters.items())),
        "run_endings": env.ends,
        "runs_per_build_variant": env.variant_runs,
        "tuning_knobs_of_variants": env.info.get("values", {}),
        "variants_not_buildable": env.info.get("dropped", []),
        "wallclock_timeouts": env.timeouts,
        "slowest_run_s": round(env.slowest, 2),
        "build_s": round(env.build_s, 1),
        "components_real": real or REAL,
        "components_stubbed": stub or STUB,
        "repo_tree": env.info.get("tree"),
    }
    if env.errors:
        cov["inconclusive"] = env.errors
    if extra:
        cov.update(extra)
    ev = {"property": env.prop, "tier": env.tier, "seed": env.seed, "level": level, "coverage": cov,
          "assumptions": assumptions or [], "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(EVIDENCE, env.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
