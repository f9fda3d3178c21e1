"""Scenario generators and checks, one per property."""
import json
import math

import driver
from driver import scen

ALLV = ("real", "tiny", "small", "mid")


def variants_in(env, names):
    return [v for v in names if v in env.images]


def noise_params(r, n):
    """epsilon and delta (as typed on a command line) prescribing n fake queries per key."""
    if n == 0:
        k = r.randrange(4)
        if k == 0:
            return "0", "0"
        if k == 1:
            return "0", "0.001"
        if k == 2:
            return "%.6f" % r.uniform(0.1, 5), "0"
        # a positive epsilon and delta whose noise rounds down to nothing
        d = r.choice([0.5, 0.1, 0.01])
        return "%.9f" % (2 * math.log(1 / d) / r.uniform(0.2, 0.8)), repr(d)
    d = r.choice([0.5, 0.25, 0.1, 0.01, 0.001, 0.000001, 0.000001, 10.0 ** -r.randrange(7, 40)])
    return "%.9f" % (2 * math.log(1 / d) / (n + r.uniform(0.15, 0.85))), repr(d)


def wchoice(r, pairs):
    return r.choices([p[0] for p in pairs], [p[1] for p in pairs])[0]


def schedule(env, r, s, liveness=False, gentle=False):
    """Everything that is the environment's choice."""
    vals = env.info["values"].get(s["variant"], {})
    need = vals.get("BUFFER_SIZE", 140000) + vals.get("POLL_RATE", 140000)
    s["sched"] = r.getrandbits(48)
    s["strat"] = wchoice(r, [(0, 1), (1, 4), (2, 3), (3, 2), (4, 2), (5, 2), (6, 2), (7, 3)])
    s["chunk"] = wchoice(r, [(0, 3), (1, 3), (2, 1.5), (3, 0.7), (4, 3), (5, 1), (6, 2), (7, 3)])
    s["shortw"] = r.choice([0, 0, 10, 50])
    s["rbuf"] = r.choice([1 << 20, need, need, need + r.randrange(1, 5000)])
    s["sbuf"] = r.choice([1 << 20, 1 << 20, 4096, 700, 64, need]) if not gentle else 1 << 20
    s["fair"] = r.choice([60, 200, 400, 1500])
    s["slow"] = r.randrange(1, 1 << 16) if s["strat"] == 7 else 0
    s["hosts"] = r.choice([0, 0, 1, 2, 3, 4, 7])
    s["skew"] = r.choice([0, 0, 0, r.randrange(1, 1000)])
    s["nstart"] = r.choice([0, 0, r.randrange(1, 1 << 16)])
    s["faults"] = stalls(r, s) if r.random() < 0.25 else []
    return s


def stalls(r, s, top=0, steps=0, conns=0):
    """One or two processes that stop running, or links that stop delivering, for a long while."""
    out = []
    n = s["servers"] * (s["parties"] + 1)
    top = top or 2 ** r.uniform(3, 10)
    for _ in range(r.choice([1, 1, 2])):
        d = int(2 ** r.uniform(7, 15))
        if r.random() < 0.75:
            out.append(["stall", r.randrange(1, n + 1), 1 + int(r.random() * top), d])
        else:
            out.append(["hold", r.randrange(0, 2 * (conns or n * s["servers"])), 1 + int(r.random() * (steps or 12 * top)), d])
    return out


def base(env, r, prop, stage=None, servers=None, parties=None, noise=None, maxmsg=None, variants=ALLV, minq=0, db=None):
    s = scen(check=prop, seed=r.getrandbits(48))
    s["variant"] = r.choice(variants_in(env, variants) or ["real"])
    s["parties"] = parties or wchoice(r, [(2, 5), (3, 4), (4, 1.5), (5, 0.5)])
    s["servers"] = servers or wchoice(r, [(1, 3), (2, 4), (3, 2), (4, 1.2), (5, 0.5), (6, 0.3)])
    while s["parties"] * s["servers"] > 16:
        s["servers"] -= 1
    s["stage"] = stage or wchoice(r, [("all", 6), ("online", 2), ("offline", 1.5)])
    if maxmsg is None:
        maxmsg = wchoice(r, [(12, 4), (40, 4), (150, 2)]) * (3 if s["stage"] == "online" else 1)
    s["db"] = db or wchoice(r, [(r.randrange(1, 5), 3), (r.randrange(5, 14), 4), (r.randrange(14, 40), 2), (r.choice([127, 128, 129, 200, 256, 257, 300]), 1)])
    n = noise if noise is not None else wchoice(r, [(0, 3), (1, 3), (2, 2), (3, 1), (5, 0.5)])
    while n and n * s["db"] * (s["parties"] - 1) > maxmsg:
        if s["db"] > 2 and r.random() < 0.5 and db is None:
            s["db"] //= 2
        else:
            n -= 1
    s["db"] = max(s["db"], s["servers"])  # fewer keys than servers is refused by design
    while n and n * s["db"] * (s["parties"] - 1) > maxmsg + 20:
        n -= 1
    s["eps"], s["delta"] = noise_params(r, n)
    left = maxmsg
    kind = r.randrange(5)
    if kind == 0:
        q = [r.randrange(0, 3) for _ in range(s["servers"])]
    elif kind == 1:
        k = r.randrange(1, max(2, left // s["servers"]))
        q = [k] * s["servers"]
    elif kind == 2:
        q = [0] * s["servers"]
        q[r.randrange(s["servers"])] = r.randrange(1, max(2, left))
    else:
        q = [r.randrange(0, max(2, left // s["servers"] + 1)) for _ in range(s["servers"])]
    s["queries"] = [max(minq, x) for x in q]
    s["crypto"] = 0 if s["stage"] == "online" or (sum(s["queries"]) + n * s["db"] * s["parties"]) < 25 else r.choice([0, 1, 1, 1])
    s["keymode"] = r.randrange(2)
    s["edge"] = r.choice([0, 0, 30, 80])
    s["x"] = {}
    return s


# ------------------------------------------------------------ simple checks
def nt_default(s, r):
    return r["conns"] > 0 and r["bytes"] > 0 and r["end"] == "ended"


def task_base(**kw):
    def task(env, run, r, i):
        s = base(env, r, env.prop, **kw)
        schedule(env, r, s)
        run(s)
    return task


# ---------------------------------------------------------------- variations
def bulk(env, r, prop, stage=None, servers=None):
    """Batches far beyond the connection and message buffers, and large databases."""
    s = base(env, r, prop, stage=stage or r.choice(["all", "online", "online", "offline"]), noise=0, servers=servers,
             parties=r.choice([2, 2, 3]), maxmsg=10)
    s["servers"] = min(s["servers"], 4)
    s["crypto"] = 1
    cap = 400 if s["stage"] != "online" else 3000
    if s["variant"] == "real" and s["stage"] == "online" and r.random() < 0.4:
        cap = 13000
    s["queries"] = [r.choice([r.randrange(0, cap // s["servers"] + 1), r.randrange(0, 4)]) for _ in range(s["servers"])]
    s["db"] = r.choice([10, 100, 1000, 70000, 1 << 17])
    if s["db"] <= 100 and r.random() < 0.5:
        s["eps"], s["delta"] = noise_params(r, r.choice([1, 2, 7]))
    return s


def huge(env, r, prop):
    """Batches and databases beyond every 16-bit count."""
    s = scen(check=prop, seed=r.getrandbits(48), variant="real", keymode=1, crypto=1)
    s["parties"] = r.choice([2, 2, 3])
    s["servers"] = r.choice([1, 2, 2, 3])
    s["stage"] = "online" if prop == "C12" else r.choice(["online", "online", "all"])
    n = 0
    if r.random() < 0.4:
        s["db"], n = r.choice([(66000, 1), (33000, 2), (300, 220), (66000 * s["servers"], 1), (66000 * s["servers"], 1)])
        q = [r.randrange(0, 50) for _ in range(s["servers"])]
    else:
        s["db"] = r.choice([3, 100, 70000])
        tot = r.choice([65535, 65536, 65537, r.randrange(66000, 140000)])
        q = [r.choice([0, tot // s["servers"], r.randrange(0, 70000)]) for _ in range(s["servers"])]
        q[r.randrange(s["servers"])] = tot
    s["queries"] = q
    s["eps"], s["delta"] = noise_params(r, n)
    return s


def bulk_schedule(env, r, s):
    """Large transfers: no byte-by-byte delivery."""
    schedule(env, r, s)
    s["chunk"] = r.choice([0, 1, 4])
    s["shortw"] = r.choice([0, 0, 5])
    if s["sbuf"] < 4096:
        s["sbuf"] = 4096
    return s


def wide(env, r, prop):
    """Many parties or many servers."""
    s = base(env, r, prop, maxmsg=20)
    s["variant"] = r.choice(variants_in(env, ("real", "mid")) or ["real"])
    if r.random() < 0.5:
        s["parties"], s["servers"] = r.choice([r.randrange(6, 10), r.randrange(6, 10), r.randrange(10, 24)]), r.randrange(1, 3)
    else:
        s["parties"], s["servers"] = 2, r.choice([r.randrange(6, 12), r.randrange(6, 12), r.randrange(12, 22)])
    s["db"] = max(s["servers"], min(s["db"], 16))
    s["eps"], s["delta"] = noise_params(r, r.choice([0, 0, 1]))
    s["queries"] = [r.randrange(0, 4) for _ in range(s["servers"])]
    s["crypto"] = 1 if s["stage"] != "online" else 0
    return s


def mixed(p_bulk=0.05, p_wide=0.03, **kw):
    def task(env, run, r, i):
        x = r.random()
        if x < 0.003 and "real" in env.images:
            s = bulk_schedule(env, r, huge(env, r, env.prop))
            s["chunk"], s["shortw"], s["sbuf"] = r.choice([0, 1]), 0, 1 << 20
        elif x < p_bulk:
            s = bulk_schedule(env, r, bulk(env, r, env.prop))
        elif x < p_bulk + p_wide:
            s = schedule(env, r, wide(env, r, env.prop))
        else:
            s = schedule(env, r, base(env, r, env.prop, **kw))
        run(s)
    return task


# ------------------------------------------------------------------ C02, C03
def task_c02(env, run, r, i):
    x = r.random()
    if x < 0.003 and "real" in env.images:
        s = bulk_schedule(env, r, huge(env, r, env.prop))
        s["chunk"], s["shortw"], s["sbuf"] = r.choice([0, 1]), 0, 1 << 20
        run(s)
        return
    if x < 0.04:
        s = bulk_schedule(env, r, bulk(env, r, "C02", servers=r.choice([2, 3, 4])))
    elif x < 0.08:
        s = schedule(env, r, wide(env, r, "C02"))
    else:
        s = schedule(env, r, base(env, r, "C02", servers=wchoice(r, [(1, 1), (2, 5), (3, 4), (4, 2), (5, 1), (6, 0.5)])))
    run(s)


def task_c03(env, run, r, i):
    x = r.random()
    if x < 0.003 and "real" in env.images:
        s = bulk_schedule(env, r, huge(env, r, env.prop))
        s["chunk"], s["shortw"], s["sbuf"] = r.choice([0, 1]), 0, 1 << 20
        run(s)
        return
    if x < 0.012:
        run(schedule(env, r, beyond(r, base(env, r, "C03", noise=0, maxmsg=20, stage=r.choice(["online", "all"])))))
        return
    if x < 0.03:
        s = bulk_schedule(env, r, bulk(env, r, "C03"))
    elif x < 0.06:
        s = schedule(env, r, wide(env, r, "C03"))
    else:
        s = base(env, r, "C03", noise=wchoice(r, [(0, 1), (1, 4), (2, 3), (3, 2), (7, 1)]), maxmsg=wchoice(r, [(60, 3), (150, 2), (300, 1)]),
                 stage=wchoice(r, [("online", 4), ("all", 4), ("offline", 1)]))
        s = schedule(env, r, s)
    run(s)


def beyond(r, s):
    """Privacy parameters that prescribe more fake queries than can be counted:
    a deployment may refuse them, never run with fewer."""
    k = r.randrange(4)
    if k == 0:
        s["db"] = max(s["servers"], 1 << r.randrange(0, 6))
        n = (1 << 32) // s["db"]        # all keys together come to 2^32
    elif k == 1:
        n = (1 << 32) * r.choice([1, 1, 2, 100])    # a count of 32 bits starts over
    elif k == 2:
        n = (1 << 31) * r.choice([1, 1, 3])
    else:
        n = 10.0 ** r.uniform(10, 290)
    d = r.choice([0.5, 0.1, 0.01, 1e-6])
    s["eps"], s["delta"] = "%.17g" % (2 * math.log(1 / d) / (n + (r.uniform(0.15, 0.85) + r.choice([0, 0, 1, 2]) if k < 3 else 0))), repr(d)
    s["queries"] = [min(q, 5) for q in s["queries"]]
    s["x"]["beyond"] = 1
    return s


# ----------------------------------------------------------------------- C04
def task_sockets(env, run, r, prop, variants):
    s = scen(check=prop, mode="sockets", seed=r.getrandbits(48), variant=r.choice(variants_in(env, variants)))
    schedule(env, r, s)
    s["hosts"] = 0
    kind = r.choice(["link", "mesh"])
    n = 2 if kind == "link" else wchoice(r, [(2, 4), (3, 3), (4, 1)])
    vol = r.choice([5, 20, 60, 150])
    if s["variant"] in ("real", "mem"):
        vol = r.choice([5, 20, 100, 400])
    if s["chunk"] == 3 and vol > 40:
        s["chunk"] = 7
    s["rbuf"] = 1 << 24 if kind == "mesh" else r.choice([1 << 20, 4000, 900, 130])
    s["x"] = {"hkind": kind, "hn": n, "layers": r.choice([1, 2, 3, 4, 5]), "vol": vol}
    run(s)


def task_c04(env, run, r, i):
    if env.info.get("harness") and r.random() < 0.6:
        task_sockets(env, run, r, "C04", ALLV)
        return
    s = schedule(env, r, base(env, r, "C04", maxmsg=r.choice([40, 150])))
    s["chunk"] = wchoice(r, [(2, 2), (3, 1), (4, 3), (5, 2), (6, 3), (7, 3)])
    run(s)


# ----------------------------------------------------------------------- C05
def task_c05(env, run, r, i):
    x = r.random()
    if x < 0.003 and "real" in env.images:
        s = bulk_schedule(env, r, huge(env, r, env.prop))
        s["chunk"], s["shortw"], s["sbuf"] = r.choice([0, 1]), 0, 1 << 20
        run(s)
        return
    if x < 0.08:
        s = bulk_schedule(env, r, bulk(env, r, "C05"))
    elif x < 0.12:
        s = schedule(env, r, wide(env, r, "C05"))
    else:
        s = base(env, r, "C05", maxmsg=wchoice(r, [(12, 2), (40, 3), (150, 3), (300, 1)]))
        schedule(env, r, s)
    vals = env.info["values"].get(s["variant"], {})
    need = vals.get("BUFFER_SIZE", 140000) + vals.get("POLL_RATE", 140000)
    s["rbuf"] = r.choice([need, need, need + 1, need + r.randrange(2, 3000), 1 << 20])
    if x >= 0.08:
        s["sbuf"] = r.choice([1, 64, 700, 4096, need, 1 << 20]) if sum(s["queries"]) < 60 else r.choice([700, 4096, need, 1 << 20])
    if s["sbuf"] < 64 and s["stage"] != "online":
        s["sbuf"] = 64
    run(s)


# ----------------------------------------------------------------------- C06
def task_c06(env, run, r, i):
    s = base(env, r, "C06", maxmsg=12, servers=wchoice(r, [(1, 2), (2, 3), (3, 3), (4, 2), (5, 1)]))
    if r.random() < 0.05:
        s = wide(env, r, "C06")
    schedule(env, r, s)
    s["nstart"] = r.choice([0, r.randrange(1, 1 << 16), r.randrange(1, 1 << 16), r.randrange(1, 1 << 16)])
    if r.random() < 0.02:
        s["nstart"] += 1 << 16  # more than an hour apart
    s["connfail"] = r.choice([0, 0, 10, 40])
    s["hosts"] = r.choice([0, 1, 2, 3, 4, 7])
    if r.random() < 0.3:
        s["x"]["twait"] = "1"  # the ports were in use by an earlier deployment until a moment ago
    n = 1 + s["servers"] * (s["parties"] + 1)
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2, 3])):
            nd = r.randrange(1, n)
            if any(f[1] == nd for f in s["faults"]):
                continue
            s["faults"].append(["restart", nd, r.choice([r.randrange(1, 12), r.randrange(1, 40)]), r.choice([0, 1, 50, 900, 3000, 20000])])
    run(s)


# ------------------------------------------------------------------ C07, C08
ERRNOS = [4, 5, 11, 12, 32, 104, 110]  # EINTR EIO EAGAIN ENOMEM EPIPE ECONNRESET ETIMEDOUT


def fault_points(r, s, b, kinds, late=False):
    """A fault sequence placed against the fault-free run of the same scenario and schedule."""
    ns = b["nodes"]
    out = []
    if r.random() < 0.15:
        out = stalls(r, s, max(x["nsys"] for x in ns), b["steps"], b["conns"])
    for _ in range(wchoice(r, [(1, 6), (2, 2), (3, 1)])):
        k = wchoice(r, kinds)
        i = r.randrange(1, len(ns))
        top = max(1, ns[i]["nsys"])
        lo = max(1, min(ns[i].get("nconn") or 1, top))
        at = wchoice(r, [(r.randrange(1, top + 1), 1), (r.randrange(lo, top + 1), 3), (max(1, top - r.randrange(0, 6)), 1), (min(top, lo + r.randrange(0, 6)), 0.5)])
        if k == "crash":
            out.append(["crash", i, at, 0])
        elif k == "stall":
            out.append(["stall", i, at, int(2 ** r.uniform(7, 15))])
        elif k == "hold":
            out.append(["hold", r.randrange(0, max(1, 2 * b["conns"])), r.randrange(1, max(2, b["steps"])), int(2 ** r.uniform(7, 15))])
        elif k == "sysfail":
            out.append(["sysfail", i, at, r.choice(ERRNOS)])
        elif k == "allocfail":
            out.append(["allocfail", i, r.randrange(1, max(2, ns[i]["nalloc"] + 1)), 0])
        elif k == "reset":
            out.append(["reset", r.randrange(0, max(1, b["conns"])), r.randrange(1, max(2, b["steps"])), 0])
    return out


def task_faults(kinds, per=6, live=False, **kw):
    def task(env, run, r, i):
        s = schedule(env, r, base(env, r, env.prop, maxmsg=r.choice([6, 12, 40]), **kw))
        s["parties"] = min(s["parties"], 4)
        s["nstart"] = r.choice([0, 0, 0, s["nstart"]])
        b = run(dict(s, check="", x={"noracle": "1"}))
        if b.get("timeout") or b.get("error") or b["end"] != "ended":
            return None
        for _ in range(per):
            if env.stop.is_set():
                return None
            c = dict(s, faults=fault_points(r, s, b, kinds), x={})
            if r.random() < 0.3:
                c["skew"] = 0
            if env.prop == "C07" and r.random() < 0.01:
                # more queries asked for than the programs can count
                c["x"] = {"qbig": 1 + r.randrange(s["servers"])}
                c["faults"] = []
            run(c)
    return task


K07 = [("crash", 4), ("sysfail", 4), ("allocfail", 1.5), ("reset", 3)]
K08 = [("crash", 5), ("reset", 3), ("sysfail", 1), ("allocfail", 0.5)]


def nt_fault(s, r):
    return bool(s["faults"]) and any(k.startswith("fault_") and ("crash" in k or "sysfail" in k or "alloc" in k or "reset" in k) for k in r["counters"])


def nt_fault_mesh(s, r):
    return nt_fault(s, r) and r["meshok"]


def mix_tasks(pairs):
    def task(env, run, r, i):
        return wchoice(r, pairs)(env, run, r, i)
    return task


# ----------------------------------------------------------------------- C14
def task_c14(env, run, r, i):
    s = scen(check="C14", mode="config", variant="real", seed=r.getrandbits(48), sched=1)
    s["parties"] = wchoice(r, [(2, 4), (3, 3), (r.randrange(4, 12), 1), (r.choice([100, 255]), 0.2)])
    s["servers"] = wchoice(r, [(1, 3), (2, 3), (r.randrange(3, 12), 2), (r.choice([60, 200]), 0.2)])
    while s["parties"] * s["servers"] > 900:  # the port ranges of servers and siblings are 1000 apart
        if s["servers"] > 3:
            s["servers"] //= 2
        else:
            s["parties"] //= 2
    s["db"] = r.choice([max(s["servers"], r.randrange(1, 50)), 100000, 2147483647, max(s["servers"], 7)])
    s["eps"], s["delta"] = r.choice([("0", "0"), ("0.5", "0.001"), ("1e300", "1e-300"), ("%.17g" % r.uniform(0, 9), "%.17g" % r.uniform(0, 1))])
    s["hosts"] = r.choice([0, 1, 2, 3, 4, 7])
    s["queries"] = [1] * s["servers"]
    x = {"role": r.randrange(3)}
    if s["parties"] * s["servers"] > 300:
        s["hosts"] = 0
    size = 28 + s["parties"] * (68 + s["servers"] * 22)
    if r.random() < 0.3:
        x["old"] = r.choice([1, 10, size, size * 2, 20000])
    k = r.randrange(8)
    if k == 0:
        pass
    elif k in (1, 2):
        for _ in range(r.choice([1, 1, 2, 3])):
            s["faults"].append(["disk", 0, r.choice([r.randrange(1, 6), r.randrange(1, 12)]), r.choice([28, 5, 122, 4, -1, -2, -3])])
    elif k == 3:
        x["quota"] = r.choice([0, r.randrange(0, size + 20), size - 1])
    elif k == 4:
        x["cut"] = r.choice([0, r.randrange(0, 40), r.randrange(0, size), size - r.randrange(1, 30)])
    elif k == 5:
        x["add"] = r.choice([1, 2, 4, 64, r.randrange(1, 300)])
        if r.random() < 0.5:
            x["addzero"] = 1
    elif k == 6:
        x["rm"] = 1
    elif k == 7:
        s["faults"].append(["disk", 1, r.randrange(1, 6), r.choice([5, 4, 13, -1, -2])])
    if k in (1, 2, 3) and r.random() < 0.3:
        x["cut"] = r.randrange(0, size)
    if r.random() < 0.3:
        # the parameters are typed in answer to the generator's questions
        x["inter"] = 1
        if r.random() < 0.4:
            x["inbad"] = r.choice([1, 2, 3, 4, 5, 11, 12, 13, 14, 15, 20])
            if x["inbad"] == 20:
                s["hosts"] = 0
    if r.random() < 0.04:
        s["parties" if r.random() < 0.5 else "servers"] = r.choice([256, 257, 258, 300, 512, 65537])
        s["hosts"] = 0
        x.pop("inbad", 0)
    s["x"] = x
    run(s)


def nt_config(s, r):
    return bool(s["faults"]) or len(s["x"]) > 1


# ----------------------------------------------------------------------- C23
def nt_mem(s, r):
    return r["end"] == "ended" and (r["bytes"] > 0 or s["mode"] == "config")


MEMV = ("mem", "mtiny")
K23 = [("crash", 3), ("sysfail", 4), ("allocfail", 3), ("reset", 3)]


def task_c23(env, run, r, i):
    x = r.random()
    if x < 0.12:
        # the configuration file: written, damaged, read
        task_c14(env, lambda s: run(dict(s, check="C23", variant="mem")), r, i)
        return
    if x < 0.24 and env.info.get("harness"):
        task_sockets(env, run, r, "C23", MEMV)
        return
    if x < 0.30:
        s = bulk_schedule(env, r, dict(bulk(env, r, "C23"), variant=r.choice(variants_in(env, MEMV))))
        s["queries"] = [min(q, 300) for q in s["queries"]]
    elif x < 0.34:
        s = schedule(env, r, dict(wide(env, r, "C23"), variant="mem"))
    else:
        s = schedule(env, r, base(env, r, "C23", variants=MEMV))
    if s["variant"] not in MEMV:
        s["variant"] = "mem"
    k = r.random()
    if k < 0.02:
        beyond(r, s)
    elif k < 0.05:
        s["hosts"] = s["hosts"] or 1
        s["x"]["badip"] = r.randrange(1, 400)
        s["queries"] = [min(q, 5) for q in s["queries"]]
    b = run(s)
    if x < 0.6 or b.get("timeout") or b.get("error") or b["end"] != "ended":
        return
    for _ in range(3):
        if env.stop.is_set():
            return
        run(dict(s, faults=fault_points(r, s, b, K23)))


# ----------------------------------------------------------------------- C11
P_MIN = 1e-11   # a distribution test alarms below this tail probability


def task_c11(env, run, r, i):
    s = base(env, r, "C11", stage="all", noise=0, maxmsg=r.choice([20, 60, 150]), parties=wchoice(r, [(2, 4), (3, 4), (4, 1), (5, 0.5)]))
    if r.random() < 0.2:
        s["db"] = 1
        s["servers"] = 1
        s["queries"] = [r.randrange(0, 20)]
        s["eps"], s["delta"] = noise_params(r, r.choice([1, 5, 20]))
    elif r.random() < 0.2:
        # noise of parallel servers, for several keys
        s["servers"] = r.choice([1, 2, 2, 3, 3])
        s["db"] = r.randrange(max(2, s["servers"]), 12)
        s["queries"] = [r.randrange(0, 12) for _ in range(s["servers"])]
        s["eps"], s["delta"] = noise_params(r, r.choice([1, 2, 5]))
    s["fixedkey"] = r.choice([0, s["db"] - 1, r.randrange(s["db"]), r.randrange(s["db"])])
    s["edge"] = 0
    if r.random() < 0.5:
        k = max(s["queries"])
        s["queries"] = [max(x, k // 2) for x in s["queries"]]
    schedule(env, r, s)
    q = run(s)
    if "mask" in q and q["end"] == "ended":
        return {"scenario": s, "mask": q["mask"]}


def eval_c11(items):
    """[(scenario, mask)] -> list of (class, message)."""
    from stats import binom_p, poisson_sf
    tot = {"tn": 0, "tkey": 0, "tkeys": 0, "tdup": 0, "thop": 0, "rn": 0, "rmn": 0, "rdupw": 0}
    tb, rm, rb = [0] * 32, [0] * 52, [0] * 416
    duplam = rlam = 0.0
    for it in items:
        m = it["mask"]
        for k in tot:
            tot[k] += m[k]
        for v, t in (("tbits", tb), ("rmatch", rm), ("rbits", rb)):
            for j, x in enumerate(m[v]):
                t[j] += x
        # an upper bound of the expected chance repetitions: all messages of the run on one link
        duplam += m["tn"] ** 2 / 2.0 ** 32
        rlam += 13 * m["rn"] ** 2 / 2.0 ** 33
    out = []
    n = tot["tn"]
    if poisson_sf(tot["tkey"], tot["tkeys"] / 2.0 ** 31 * 1.01) < P_MIN:
        out.append(("C11:key-visible", "%d of %d query values on the links equal a queried key" % (tot["tkey"], n)))
    if poisson_sf(tot["thop"], n / 2.0 ** 31 * 1.01) < P_MIN:
        out.append(("C11:query-unchanged", "%d of %d query values are the same on two successive links" % (tot["thop"], n)))
    if poisson_sf(tot["tdup"], duplam) < P_MIN:
        out.append(("C11:query-mask-reuse", "%d of %d query values for one key repeat on a link" % (tot["tdup"], n)))
    for j in range(31):
        if binom_p(tb[j], n, 0.5) < P_MIN:
            out.append(("C11:query-bias", "bit %d of the query value is set in %d of %d" % (j, tb[j], n)))
            break
    n = tot["rn"]
    if poisson_sf(tot["rdupw"], rlam) < P_MIN:
        out.append(("C11:response-mask-reuse", "%d words repeat among %d responses for one key" % (tot["rdupw"], n)))
    for j in range(52):
        if tot["rmn"] >= 2000 and binom_p(rm[j], tot["rmn"], 1 / 256.0) < P_MIN:
            out.append(("C11:record-visible-byte", "byte %d of the response equals the record in %d of %d" % (j, rm[j], tot["rmn"])))
            break
    for j in range(416):
        if binom_p(rb[j], n, 0.5) < P_MIN:
            out.append(("C11:response-bias", "bit %d of the response is set in %d of %d" % (j, rb[j], n)))
            break
    return out, {"query_values_tested": tot["tn"], "responses_tested": tot["rn"], "distribution_tests": 4 + 31 + 52 + 416}


# ----------------------------------------------------------------------- C19
def task_c19(env, run, r, i):
    x = r.random()
    if x < 0.002 and "real" in env.images:
        s = bulk_schedule(env, r, huge(env, r, "C19"))
        s["chunk"], s["shortw"], s["sbuf"], s["stage"] = r.choice([0, 1]), 0, 1 << 20, "all"
    elif x < 0.04:
        s = bulk_schedule(env, r, bulk(env, r, "C19", stage="all"))
    elif x < 0.07:
        s = dict(wide(env, r, "C19"), stage="all", crypto=1)
        schedule(env, r, s)
    else:
        s = schedule(env, r, base(env, r, "C19", stage="all"))
    q = run(s)
    if "mask" in q:
        return {"scenario": s, "mask": q["mask"]}


def eval_c19(items):
    from stats import binom_p
    out, n, b = [], {}, {}
    for it in items:
        m = it["mask"]
        for k in "cnh":
            n[k] = n.get(k, 0) + m[k + "n"]
            b[k] = [x + y for x, y in zip(b.get(k, [0] * 64), m[k + "b"])]
    for k, what in (("c", "tags of client queries"), ("n", "tags of noise"), ("h", "the change of a query's tag at a party")):
        for j in range(64):
            if n.get(k) and binom_p(b[k][j], n[k], 0.5) < P_MIN:
                out.append(("C19:bias-" + k, "bit %d of %s is set in %d of %d" % (j, what, b[k][j], n[k])))
                break
    return out, {"client_tags": n.get("c", 0), "noise_tags": n.get("n", 0), "hops": n.get("h", 0), "distribution_tests": 192}


# ----------------------------------------------------------------------- C20
NOISES = [("2", "0.1"), ("1", "0.3"), ("0.5", "0.2"), ("4", "0.02"), ("20", "0.000001"), ("0.1", "0.1")]


def task_c20(env, run, r, i):
    g = i % 7
    s = base(env, r, "C20", stage=r.choice(["all", "online", "online"]), noise=0, maxmsg=10, variants=("sample", "sample", "stiny"))
    s["parties"] = wchoice(r, [(2, 4), (3, 3), (4, 1)])
    s["servers"] = wchoice(r, [(1, 3), (2, 4), (3, 2), (4, 1)])
    s["db"] = r.randrange(s["servers"], 13)
    if g < 6:
        s["eps"], s["delta"] = NOISES[g]
        if g == 5:
            s["stage"], s["db"] = "online", max(s["servers"], r.randrange(2, 6))
    s["queries"] = [r.randrange(0, 5) for _ in range(s["servers"])]
    s["crypto"] = 0 if s["stage"] == "online" else r.choice([0, 1, 1, 1, 1])
    s["keymode"], s["edge"] = 1, 0
    if g < 5 and r.random() < 0.02:  # larger than 16 bits, larger than the buffers
        s = bulk_schedule(env, r, dict(s, variant="sample", db=r.choice([300, 2000]), stage="online"))
        s["chunk"] = r.choice([0, 1])
    else:
        schedule(env, r, s)
    q = run(s)
    if "mask" in q:
        return {"scenario": s, "mask": q["mask"], "group": g}


def noise_pmf(eps, delta):
    """Laplace(0, 2/eps) shifted by (2/eps) ln(1/delta), clamped to [0, twice that], rounded down."""
    if float(eps) == 0 or float(delta) == 0:
        return [1.0]
    b = 2 / float(eps)
    c = b * math.log(1 / float(delta))

    def cdf(x):
        return 0.5 * math.exp(x / b) if x < 0 else 1 - 0.5 * math.exp(-x / b)
    top = int(2 * c)
    return [(cdf(k + 1 - c) if k < top else 1.0) - (cdf(k - c) if k else 0.0) for k in range(top + 1)]


def eval_c20(items):
    from stats import chi2_sf
    out, tests, samples = [], 0, 0
    if not items or items[0]["group"] == 6:
        return out, {}
    s0 = items[0]["scenario"]
    pmf = noise_pmf(s0["eps"], s0["delta"])
    mean = sum(k * p for k, p in enumerate(pmf))
    var = sum((k - mean) ** 2 * p for k, p in enumerate(pmf))
    same = sum(p * p for p in pmf)
    cnt = [0] * len(pmf)
    pairs = {}  # relation -> [n, equal, sum of products]
    last = {}

    def pair(rel, a, b):
        e = pairs.setdefault(rel, [0, 0, 0.0])
        e[0] += 1
        e[1] += a == b
        e[2] += (a - mean) * (b - mean)

    for it in items:
        s, n = it["scenario"], it["mask"]["n"]
        db, sv = s["db"], s["servers"]
        step = -(-db // sv)
        shape = (s["parties"], sv, db)
        before = last.get(shape)
        for p, row in enumerate(n):
            for k, v in enumerate(row):
                cnt[v] += 1
                for j in (1, 2, 3):
                    if k + j < db:
                        pair("two keys of one server" if k // step == (k + j) // step else "two keys of neighbouring servers", v, row[k + j])
                if sv > 1 and k + step < db:
                    pair("the corresponding keys of two servers", v, row[k + step])
                for j in (1, 2):
                    if p + j < len(n):
                        pair("one key at two parties", v, n[p + j][k])
                if before:
                    pair("one key in two runs", v, before[p][k])
        last[shape] = n
    tot = samples = sum(cnt)
    # marginal distribution
    x, df, oc, ec = 0.0, -1, 0, 0.0
    for k, p in enumerate(pmf):
        oc, ec = oc + cnt[k], ec + tot * p
        if ec >= 8 or (k == len(pmf) - 1 and ec > 0):
            x, df, oc, ec = x + (oc - ec) ** 2 / ec, df + 1, 0, 0.0
    if df > 0:
        tests += 1
        if chi2_sf(x, df) < P_MIN:
            out.append(("C20:distribution", "epsilon %s delta %s: amounts of noise per key %s over %d samples, expected %s"
                        % (s0["eps"], s0["delta"], cnt[:40], tot, [round(tot * p, 1) for p in pmf[:40]])))
    for rel, (m, eq, prod) in sorted(pairs.items()):
        if m < 200:
            continue
        tests += 2
        ze = (eq - m * same) / math.sqrt(m * same * (1 - same))
        zc = prod / var / math.sqrt(m)
        if abs(ze) > 9 or abs(zc) > 9:
            out.append(("C20:dependent", "epsilon %s delta %s: the noise for %s agrees in %d of %d cases, %.0f expected (correlation %.3f)"
                        % (s0["eps"], s0["delta"], rel, eq, m, m * same, prod / var / m)))
    return out, {"noise_samples": samples, "distribution_tests": tests}


# ----------------------------------------------------------------------- C22
def task_c22(env, run, r, i):
    if r.random() < 0.06:
        s = bulk_schedule(env, r, bulk(env, r, "C22"))
    elif r.random() < 0.04:
        s = schedule(env, r, wide(env, r, "C22"))
    else:
        s = schedule(env, r, base(env, r, "C22"))
    if r.random() < 0.6:
        s["skew"] = r.randrange(1, 1000)
    x = {}
    if r.random() < 0.9:
        x["tick"] = r.choice([100, 1000, 5000, 20000])
    if r.random() < 0.8:
        x["cost"] = r.choice([50, 1000, 7000])
    s["x"] = x
    run(s)


def nt_times(s, r):
    return r.get("times", 0) > 0 and r["end"] == "ended"


# ----------------------------------------------------------------------- C13
def configs_c13(seed, tier):
    import random
    r = random.Random("c13-%d" % seed)
    out = [dict(parties=2, servers=1, queries=[4], db=4, eps="0", delta="0"),
           dict(parties=2, servers=2, queries=[2, 2], db=4, eps="0", delta="0"),
           dict(parties=3, servers=1, queries=[2], db=2, n=1),
           dict(parties=3, servers=1, queries=[6], db=4, eps="0", delta="0"),
           dict(parties=4, servers=2, queries=[4, 2], db=4, eps="0", delta="0"),
           dict(parties=2, servers=3, queries=[4, 0, 1], db=3, n=1),
           dict(parties=3, servers=2, queries=[1, 3], db=2, n=1),
           dict(parties=2, servers=1, queries=[11], db=3, n=1),
           dict(parties=2, servers=1, queries=[90], db=5, n=13, every=4),
           dict(parties=2, servers=2, queries=[300, 41], db=7, n=9, every=8),
           dict(parties=3, servers=2, queries=[1700, 1600], db=10, n=2, every=60),
           dict(parties=2, servers=1, queries=[70000], db=10, n=0, every=250),
           dict(parties=2, servers=2, queries=[40000, 33000], db=10, n=20, every=250)]
    for _ in range(4 if tier == "quick" else 14):
        sv = r.choice([1, 2, 2, 3, 4])
        db = r.randrange(sv, sv + 4)
        out.append(dict(parties=r.choice([2, 2, 3, 4]), servers=sv, queries=[r.randrange(0, 6) for _ in range(sv)], db=db, n=r.choice([0, 1, 2])))
    for c in out:
        n = c.pop("n", 0)
        if "eps" not in c:
            c["eps"], c["delta"] = noise_params(r, n)
    return out


def task_c13(env, run, r, i):
    confs = configs_c13(env.seed, env.tier)
    g = i % len(confs)
    every = confs[g].pop("every", 1)
    if (i // len(confs)) % every:
        g = r.choice([k for k in range(len(confs)) if "every" not in confs[k]])
        every = 1
    s = scen(check="C13", seed=r.getrandbits(48), seedsalt=r.randrange(1, 1 << 30), variant=r.choice(variants_in(env, ALLV)), **confs[g])
    big = sum(s["queries"]) > 1000
    if big and "real" in env.images:
        s["variant"] = "real"
    s["crypto"] = 0 if r.random() < 0.1 else 1
    schedule(env, r, s)
    s["chunk"] = r.choice([0, 1, 4])
    s["nstart"] = 0
    if big:
        s["crypto"] = 1
        bulk_schedule(env, r, s)
    q = run(s)
    if "order" not in q:
        return None
    res = {"group": g, "scenario": s, "order": q["order"]}
    if r.random() < 0.15 and not big:
        s2 = schedule(env, r, dict(s))
        if s2["chunk"] == 3:
            s2["chunk"] = 6
        q2 = run(s2)
        if "order" in q2 and q2["order"] != q["order"]:
            res["pair"] = s2
    return res


def eval_c13(items):
    """Orders of one configuration under different shuffle seeds -> [(class, message)], number of tests."""
    from stats import chi2_sf, poisson_sf
    out, tests = [], 0
    if not items:
        return out, {}
    for p in range(len(items[0]["order"])):
        for kind in ("q", "c"):
            seqs = [it["order"][p][kind] for it in items if len(it["order"]) > p]
            n = len(seqs[0]) if seqs else 0
            seqs = [x for x in seqs if len(x) == n]
            N = len(seqs)
            if n < 2 or N < 1:
                continue
            what = "queries" if kind == "q" else "offline messages"
            # blocks of inputs against blocks of outputs: large batches need few runs
            m = max(max(sq) for sq in seqs) + 1
            for K in (2, 4, 16):
                if m < 4 * K or N * m * m / K / K / n < 60:
                    continue
                cnt = [[0] * K for _ in range(K)]
                for sq in seqs:
                    for pos, v in enumerate(sq):
                        if v >= 0:
                            cnt[v * K // m][pos * K // n] += 1
                isz = [sum(1 for v in range(m) if v * K // m == a) for a in range(K)]
                osz = [sum(1 for v in range(n) if v * K // n == a) for a in range(K)]
                worst = None
                for a in range(K):
                    for b in range(K):
                        mean = N * isz[a] * osz[b] / n
                        var = N * isz[a] * osz[b] * (n - isz[a]) * (n - osz[b]) / (n * n * (n - 1.0))
                        z = abs(cnt[a][b] - mean) / math.sqrt(var)
                        tests += 1
                        if worst is None or z > worst[0]:
                            worst = (z, a, b, cnt[a][b], mean)
                if worst[0] > 8.5:
                    out.append(("C13:block-bias", "party %d %s: of inputs in block %d of %d, %d end in output block %d over %d seeds, %.0f expected"
                                % (p, what, worst[1], K, worst[3], worst[2], N, worst[4])))
                    break
            if N < 8 * n:
                continue
            rows = {}
            perms = {}
            succ = 0
            for sq in seqs:
                for pos, v in enumerate(sq):
                    if kind == "c" and v < 0:
                        continue
                    rows.setdefault(v, [0] * n)[pos] += 1
                if n <= 4:
                    perms[tuple(sq)] = perms.get(tuple(sq), 0) + 1
                succ += sum(1 for a, b in zip(sq, sq[1:]) if b == a + 1 and a >= 0 and b >= 0)
            for v, cnt in sorted(rows.items()):
                m = sum(cnt)
                e = m / n
                x = sum((c - e) ** 2 for c in cnt) / e
                tests += 1
                if m >= 8 * n and chi2_sf(x, n - 1) < P_MIN:
                    out.append(("C13:position-bias", "party %d %s: input %d ends at output positions %s over %d seeds" % (p, what, v, cnt, m)))
                    break
            full = kind == "q" and len(rows) == n
            if full:
                s2 = sum((c - N / n) ** 2 for cnt in rows.values() for c in cnt)
                tests += 1
                if chi2_sf((n - 1) * s2 / N, (n - 1) ** 2) < P_MIN:
                    out.append(("C13:matrix-bias", "party %d %s: input to output position matrix is not uniform over %d seeds" % (p, what, N)))
                f = math.factorial(n)
                if n <= 4 and N >= 8 * f:
                    x = sum((perms.get(k, 0) - N / f) ** 2 for k in perms) * f / N + (f - len(perms)) * N / f
                    tests += 1
                    if chi2_sf(x, f - 1) < P_MIN:
                        out.append(("C13:permutation-bias", "party %d %s: the %d orders are not equally likely over %d seeds (%d seen)" % (p, what, f, N, len(perms))))
            # neighbours staying neighbours
            k = sum(1 for v in rows if v >= 0)
            if k > 2:
                tests += 1
                lam = N * (k - 1) / n
                if poisson_sf(succ, lam * 1.15 + 5) < P_MIN:
                    out.append(("C13:neighbours", "party %d %s: %d pairs of successive inputs leave next to each other, %.0f expected" % (p, what, succ, lam)))
    # two parties that shuffle batches of one size: where the first puts its i-th message says nothing about the second
    S = items[0]["scenario"]["servers"]
    P = len(items[0]["order"])
    for kind in ("q", "c"):
        for p in range(P):
            for p2 in range(p + 1, P):
                prs = [(it["order"][p][kind], it["order"][p2][kind]) for it in items if len(it["order"]) == P]
                n = len(prs[0][0]) if prs else 0
                prs = [(a, b) for a, b in prs if len(a) == n == len(b) and min(a) >= 0 and min(b) >= 0]
                if n < 3 or n > 40 or len(prs) < 40:
                    continue
                for what, f, pr in (("position", lambda o: o, 1.0 / n),
                                    ("server", lambda o: min(o // (n // S), S - 1),
                                     sum(((n // S if s < S - 1 else n - (S - 1) * (n // S)) / n) ** 2 for s in range(S)))):
                    if what == "server" and (S == 1 or n < S):
                        continue
                    for i in range(n):
                        k = sum(1 for a, b in prs if i in a and i in b and f(a.index(i)) == f(b.index(i)))
                        tests += 1
                        if poisson_sf(k, len(prs) * pr) < P_MIN:
                            out.append(("C13:parties-related", "%s: parties %d and %d put their message %d at the same output %s in %d of %d runs"
                                        % ("queries" if kind == "q" else "offline messages", p, p2, i, what, k, len(prs))))
                            return out, {"tests": tests}
    return out, {"tests": tests}


# --------------------------------------------------------------- the checks
def nt_servers(s, r):
    return nt_default(s, r) and s["servers"] > 1


def nt_noise(s, r):
    return nt_default(s, r) and s["eps"] != "0" and s["delta"] != "0"


def nt_seg(s, r):
    return nt_default(s, r) and r["counters"].get("split_deliveries", 0) > 0


def nt_start(s, r):
    return nt_default(s, r) and (s["nstart"] or s["connfail"] or s["faults"])


def nt_all(s, r):
    return nt_default(s, r) and s["stage"] == "all"


COMMON = ("Each run is a whole deployment generated from the seed: parties, servers per party, database size, privacy parameters, "
          "queries per client, stage, buffer-size variant of the code, then scheduling strategy, start delays, delivery segmentation, "
          "socket buffer sizes, short writes, slow processes or links and clock jumps. ")

STALLS = task_faults([("stall", 3), ("hold", 1)], per=4, stage="all", servers=None)
FAULTED = [(mixed(), 6), (task_faults([("crash", 3), ("reset", 2), ("sysfail", 1)], per=4, stage="all"), 1)]

CHECKS = {
    "C01": dict(task=mixed(), nt=nt_default, quick=13500, thorough=260000,
                rule=COMMON + "Non-trivial: the run ended with connections made and bytes exchanged."),
    "C02": dict(task=task_c02, nt=nt_servers, quick=12000, thorough=240000,
                rule=COMMON + "Non-trivial: more than one server per party, run ended."),
    "C03": dict(task=task_c03, nt=nt_noise, quick=12000, thorough=240000,
                rule=COMMON + "Non-trivial: epsilon and delta both positive, run ended."),
    "C04": dict(task=task_c04, nt=nt_seg, quick=16500, thorough=350000,
                rule="60% of the runs drive ClientSocket/ServerSocket or a mesh of ParallelSockets directly with seeded message counts around the "
                     "buffer capacities and compare every received message; the rest are whole deployments with fine segmentation. "
                     "Non-trivial: at least one delivery split a sent block, run ended."),
    "C05": dict(task=task_c05, nt=nt_default, quick=12000, thorough=240000,
                rule=COMMON + "Receive buffers at the stated minimum, send buffers down to one byte. Non-trivial: connections made, run ended."),
    "C06": dict(task=task_c06, nt=nt_start, quick=13500, thorough=280000,
                rule=COMMON + "Start delays up to 65 s (one in fifty: 70 minutes), failing connection attempts, processes killed and restarted before they have a connection. "
                     "Non-trivial: at least one of these was in effect, run ended."),
    "C07": dict(task=task_faults(K07), nt=nt_fault, quick=2250, thorough=45000,
                rule=COMMON + "Each task first runs the scenario without faults, then six times with one to three faults (crash of a process at its n-th "
                     "system call, failing system call, failing allocation, connection reset) placed inside that execution. Non-trivial: a fault struck."),
    "C08": dict(task=task_faults(K08), nt=nt_fault_mesh, quick=2250, thorough=45000,
                rule=COMMON + "Each task first runs the scenario without faults, then six times with one to three faults placed inside that execution. "
                     "Non-trivial: a crash, reset or failure struck after every connection was established."),
    "C09": dict(task=mix_tasks(FAULTED), nt=nt_default, quick=12000, thorough=240000,
                rule=COMMON + "One task in seven adds crashes, resets or failing calls. Non-trivial: connections made, run ended."),
    "C10": dict(task=mix_tasks(FAULTED + [(STALLS, 1)]), nt=nt_all, quick=12000, thorough=240000,
                rule=COMMON + "One task in seven adds crashes, resets or failing calls. Non-trivial: both stages were run, run ended."),
    "C11": dict(task=task_c11, nt=nt_all, quick=10500, thorough=200000, evaluate=eval_c11,
                rule=COMMON + "All client queries of a run ask for one key, so that any structure on the links is visible; the per-bit, per-byte and "
                     "repetition counts of all runs are tested together (alarm below tail probability 1e-11). Non-trivial: both stages, run ended."),
    "C12": dict(task=mix_tasks(FAULTED), nt=nt_default, quick=12000, thorough=240000,
                rule=COMMON + "One task in seven adds crashes, resets or failing calls. Non-trivial: connections made, run ended."),
    "C13": dict(task=task_c13, nt=nt_default, quick=18000, thorough=280000, evaluate=eval_c13, grouped=True,
                rule="A few small deployments, each run under many shuffle seeds and schedules; orders on the outgoing links are tested for uniformity "
                     "(alarm below tail probability 1e-11); one run in seven is repeated with the same seeds under another schedule and must give the "
                     "same orders. Non-trivial: connections made, run ended."),
    "C19": dict(task=task_c19, nt=nt_all, quick=10500, thorough=200000, evaluate=eval_c19,
                rule=COMMON + "Both stages always. Tags, and the words of every offline message and response, are compared over all links of a run; the bits of "
                     "the tags of all runs are tested together (alarm below tail probability 1e-11). Non-trivial: both stages, run ended."),
    "C20": dict(task=task_c20, nt=nt_noise, quick=12000, thorough=240000, evaluate=eval_c20, grouped=True, variants=("sample", "stiny"),
                rule="The code is built with DPPIR_SAMPLE. " + COMMON + "Six settings of epsilon and delta; the number of fake queries each party adds for each key is "
                     "read off the links and tested against the prescribed distribution and for independence between keys, servers, parties and runs "
                     "(alarm below tail probability 1e-11, 9 sigma). Non-trivial: epsilon and delta both positive, run ended."),
    "C22": dict(task=task_c22, nt=nt_times, quick=12000, thorough=240000,
                rule=COMMON + "Every step and every cryptographic operation takes virtual time (a seeded amount), processes start late or stall, the wall clock "
                     "jumps; the times the parties print are compared with when the bytes that begin and end each stage were read and sent. "
                     "Non-trivial: at least one reported time was judged, run ended."),
    "C23": dict(task=task_c23, nt=nt_mem, variants=MEMV + ("memz", "mtinyz"), quick=3000, thorough=60000,
                rule="The nodes are compiled so that every access to memory goes through the simulator's shadow memory. Whole deployments (two in three "
                     "tasks repeat theirs with crashes, resets, failing calls and allocations), the socket classes alone, and the configuration file under "
                     "disk faults and damage; every run is repeated with other contents in fresh heap and stack memory and must produce the same bytes. "
                     "Non-trivial: bytes were exchanged or a file was read, and the run ended."),
    "C14": dict(task=task_c14, nt=nt_config, variants=("real",), quick=30000, thorough=400000,
                rule="gen_config then main are run on a seeded configuration with disk errors, short writes, kills at file operations, full disk, "
                     "previous contents, truncation at any byte, appended bytes or a missing file. Non-trivial: at least one of these applied."),
}
