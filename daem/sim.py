"""Simulation of one worker daemon (experiments/daemon_{server,client}.sh, run as it is) against a reference orchestrator.

The daemon and the scripts it starts are real bash processes in a scratch directory, as an unprivileged user. Every command
through which they touch the world is a stub (stub.c) that blocks until the simulator answers; the simulator proceeds only
when all processes are blocked, so one list of choices is one execution.
"""
import ctypes
import hashlib
import heapq
import os
import random
import re
import select
import shutil
import signal
import socket
import struct
import subprocess
import time

STUBS = ("curl", "sleep", "bazel", "ps", "kill", "pkill", "pgrep", "killall", "main")
HOST = "10.9.8.7:8000"
UID = 65534
GAP = 60.0        # the longest a daemon may go without a request, once nothing is in its way
DIRS = ("", "checklist", "sealpir")


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = "C21:" + cls, msg


class Choices:
    def __init__(self, seed, given=None):
        self.r, self.given, self.made = random.Random(seed), given, []

    def __call__(self, n, p=1.0):
        """0..n-1; 0 is the benign choice (drawn with probability at least 1-p)."""
        i = len(self.made)
        if self.given is not None:
            v = self.given[i] if i < len(self.given) else 0
            v = min(v, n - 1)
        else:
            v = self.r.randrange(n) if self.r.random() < p else 0
        self.made.append(v)
        return v


class Stub:
    pass


class Job:
    def __init__(self, n, text):
        self.n, self.text, self.p = n, text, text.split()
        self.type = self.p[0] if self.p else ""
        self.state = "given"          # given, served (configuration), running, ended
        self.config = None
        self.output = b""
        self.kill_at = self.killed = self.told = False
        self.log_asked = self.log_told = False
        self.log_from = 0
        self.stub = None
        self.main = None              # the virtual process behind the wrapper
        self.after_end = 0
        self.marked = False


def sources(repo):
    """The scripts (and what lies beside them), by path under experiments/."""
    out = {}
    for d in DIRS:
        top = os.path.join(repo, "experiments", d)
        for f in sorted(os.listdir(top)) if os.path.isdir(top) else []:
            p = os.path.join(top, f)
            if os.path.isfile(p) and os.path.getsize(p) < 200000:
                with open(p, "rb") as o:
                    out[os.path.join(d, f)] = o.read()
    return out


def generate(seed):
    r = random.Random("daemon-%d" % seed)
    return {"seed": seed, "kind": r.choice(["server", "client"]), "jobs": r.choice([1, 2, 2, 3, 4]), "loss": r.choice([0, 0, 0.05, 0.15, 0.4]),
            "slow": r.choice([0, 0.2, 0.6]), "kill": r.choice([0, 0.2, 0.6]), "log": r.choice([0, 0.3]), "crash": r.choice([0, 0, 0, 1, 2]), "stale": r.choice([0, 1]),
            "wait": r.choice([0.2, 0.6]), "odd": r.choice([0, 0, 0.1]), "scheme": r.choice([0, 1])}


class World:
    def __init__(self, scn, base, stub, repo, given=None, trace=None):
        self.scn, self.c = scn, Choices(scn["seed"] * 7 + 1, given)
        self.dir, self.stub, self.repo = base, stub, repo
        self.now, self.seq, self.heap = 0.0, 0, []
        self.h = hashlib.sha256()
        self.trace = trace
        self.counters, self.states = {}, set()
        self.stubs, self.fresh = {}, []
        self.job, self.jobs_done, self.given = None, 0, 0
        self.id, self.inc = None, 0
        self.mode = "giveip"          # the request that must come next: giveip, ping, job, done
        self.must = "giveip"
        self.quiet_since = 0.0
        self.inflight = 0
        self.recent = []
        self.requests = 0
        self.over = False
        self.faults = True
        self.vpid = 5000000
        self.virtual = {}
        self.events = 0
        self.crashes = scn["crash"]
        self.last_fault = None

    # ------------------------------------------------------------ plumbing
    def log(self, s):
        line = "%.2f %s" % (self.now, s)
        self.h.update(line.encode("utf-8", "replace") + b"\n")
        if self.trace is not None:
            self.trace.append(line)

    def count(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1

    def after(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + dt, self.seq, fn))

    def setup(self):
        for d in ("", "bin", "config", "experiments/checklist", "experiments/sealpir", "bazel-bin/DPPIR"):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        for f, data in sources(self.repo).items():
            with open(os.path.join(self.dir, "experiments", f), "wb") as o:
                o.write(data)
            os.chmod(os.path.join(self.dir, "experiments", f), 0o755)
        shutil.copy(self.stub, os.path.join(self.dir, "bin/stub"))
        for s in STUBS[:-1]:
            os.symlink("stub", os.path.join(self.dir, "bin", s))
        os.symlink("../../bin/stub", os.path.join(self.dir, "bazel-bin/DPPIR/main"))
        with open(os.path.join(self.dir, "bin/env"), "w") as f:
            f.write("enable -n kill\n")
        if self.scn["stale"]:
            for f in ("config/party-0-0.txt", "config/client-0.txt", "DPPIR-party-0-0.log", "DPPIR-client-0.log", "checklist-client.log", "sealpir.log"):
                with open(os.path.join(self.dir, f), "w") as o:
                    o.write(["WAIT", "left from an earlier job\n"][self.c(2)])
        for d, ds, fs in os.walk(self.dir):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, UID, UID, follow_symlinks=False)
        self.ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.ls.bind(os.path.join(self.dir, "s"))
        os.chmod(os.path.join(self.dir, "s"), 0o777)
        self.ls.listen(64)
        self.ls.setblocking(False)

    def start(self):
        self.inc += 1
        self.id, self.mode, self.must, self.job = None, "giveip", "giveip", None
        env = {"PATH": os.path.join(self.dir, "bin") + ":/usr/bin:/bin", "BASH_ENV": os.path.join(self.dir, "bin/env"), "DSIM_SOCK": os.path.join(self.dir, "s"),
               "HOME": self.dir, "LC_ALL": "C", "USER": "nobody", "TMPDIR": self.dir}
        kw = dict(user=UID, group=UID, extra_groups=[]) if os.getuid() == 0 else {}
        self.proc = subprocess.Popen(["./experiments/daemon_%s.sh" % self.scn["kind"], ("http://" if self.scn["scheme"] else "") + HOST], cwd=self.dir, env=env,
                                     stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, **kw)
        self.pid = self.proc.pid
        self.quiet_since = self.now
        self.recent = []
        self.log("daemon %d starts" % self.inc)

    def tree(self):
        out, todo = {}, [os.getpid()]
        while todo:
            p = todo.pop()
            try:
                with open("/proc/%d/task/%d/children" % (p, p)) as f:
                    kids = [int(x) for x in f.read().split()]
            except OSError:
                continue
            for k in kids:
                try:
                    with open("/proc/%d/stat" % k) as f:
                        st = f.read()
                    with open("/proc/%d/schedstat" % k) as f:
                        sc = f.read()
                except OSError:
                    out[k] = ("?", "gone", p, time.monotonic())
                    continue
                i = st.rindex(")")
                rest = st[i + 2:].split()
                out[k] = (rest[0], st[st.index("(") + 1:i], int(rest[1]), sc)
                todo.append(k)
        return out

    def reap(self):
        try:
            while True:
                p, _ = os.waitpid(-1, os.WNOHANG)
                if p == 0:
                    return
                if p == self.pid:
                    self.proc.returncode = 0
                    self.pid = None
        except ChildProcessError:
            return

    def accept(self):
        n = 0
        while True:
            try:
                c, _ = self.ls.accept()
            except BlockingIOError:
                return n
            n += 1
            c.setblocking(True)
            c.settimeout(60)

            def take(k):
                b = b""
                while len(b) < k:
                    x = c.recv(k - len(b))
                    if not x:
                        raise ConnectionError
                    b += x
                return b

            def field():
                return take(struct.unpack("I", take(4))[0])
            s = Stub()
            try:
                s.pid, s.ppid, argc = struct.unpack("III", take(12))
                s.cwd = field().decode("utf-8", "replace")
                s.argv = [field().decode("utf-8", "replace") for _ in range(argc)]
                s.stdin = field()
            except (ConnectionError, OSError):
                c.close()
                continue
            s.conn, s.name = c, os.path.basename(s.argv[0])
            s.done = s.bg = False
            self.stubs[s.pid] = s
            self.fresh.append(s)

    def settle(self):
        t0 = time.monotonic()
        prev = cpu0 = rest = None
        while True:
            self.reap()
            self.accept()
            t = self.tree()
            ok = True
            for p, (st, comm, pp, sc) in t.items():
                if comm in STUBS:
                    ok &= p in self.stubs and st == "S"
                else:
                    ok &= st in "SZ"
            # A process in wait4 shows as sleeping while it still reaps: unless a foreground command is known to block
            # the daemon, rest is believed only after a while.
            if ok and t == prev:
                if any(not s.bg and s.pid in t for s in self.stubs.values()):
                    break
                if rest is None:
                    rest = time.monotonic()
                elif time.monotonic() - rest > 0.4:
                    break
                select.select([self.ls], [], [], 0.0004 if time.monotonic() - rest < 0.01 else 0.01)
            else:
                rest = None
            prev = t if ok else None
            cpu = sum(int(v[3].split()[0]) for v in t.values() if isinstance(v[3], str) and v[3].split())
            if cpu0 is None:
                cpu0 = cpu
            if cpu - cpu0 > 8e9:
                raise Violation("spin", "the daemon computes without end and makes no request")
            if time.monotonic() - t0 > 120:
                raise HarnessError("processes do not come to rest: " + repr(t))
            if not ok:
                select.select([self.ls], [], [], 0.0004)
        for p in [p for p in self.stubs if p not in t]:
            self.gone(self.stubs[p])
        if self.pid is None or self.pid not in t or t[self.pid][0] == "Z":
            raise Violation("ended", "the daemon ended")

    def op(self, s, op, data):
        try:
            s.conn.sendall(op + struct.pack("I", len(data)) + data)
            if op != b"X":
                s.conn.recv(1)
        except OSError:
            pass

    def finish(self, s, code, out=b"", err=b"", files=()):
        if s.done:
            return
        if out:
            self.op(s, b"O", out)
        if err:
            self.op(s, b"E", err)
        for f, d in files:
            self.op(s, b"W", f.encode() + b"\0" + d)
        self.op(s, b"X", bytes([code & 255]))
        self.gone(s)
        self.wait_gone(s.pid)

    def gone(self, s):
        s.done = True
        self.stubs.pop(s.pid, None)
        s.conn.close()
        j = self.job
        if j is not None and j.stub is s:
            j.stub = None
            self.check_end(j)

    def wait_gone(self, pid):
        t0 = time.monotonic()
        while time.monotonic() - t0 < 3:
            self.reap()
            try:
                with open("/proc/%d/stat" % pid) as f:
                    pass
            except OSError:
                return
            time.sleep(0.0002)

    def killall(self):
        for _ in range(200):
            t = self.tree()
            if not t:
                break
            for p in t:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(0.0005)
            self.reap()
        self.accept()
        for s in list(self.stubs.values()):
            s.done = True
            s.conn.close()
        self.stubs.clear()
        self.fresh = []

    # ------------------------------------------------------------ a run
    def run(self):
        self.setup()
        try:
            self.start()
            while not self.over:
                self.settle()
                fresh, self.fresh = sorted(self.fresh, key=lambda s: (s.name != "bazel" and s.name != "main", s.name, s.argv)), []
                for s in self.stubs.values():
                    if fresh and (s not in fresh or (s.name != "curl" and len(fresh) > 1) or s.name in ("bazel", "main")):
                        s.bg = True          # the daemon went on while it ran
                for s in fresh:
                    if not s.done:
                        self.on_call(s)
                if not self.heap:
                    raise Violation("stuck", "the daemon waits for something that never happens (%s)" % self.describe())
                t, _, fn = heapq.heappop(self.heap)
                if not self.inflight and t - self.quiet_since > GAP:
                    raise Violation("silent", "for %d s the daemon made no request (%s)" % (t - self.quiet_since, self.describe()))
                self.now = max(self.now, t)
                fn()
                self.events += 1
                self.state()
                if self.events > 6000:
                    raise Violation("no-progress", "no end of the job after 6000 events (%s)" % self.describe())
                if self.crashes and self.c(40, 1) == 1:
                    self.crash()
        finally:
            self.killall()
            self.ls.close()

    def describe(self):
        j = self.job
        return "job %s, %s" % (repr(j.text), j.state) if j else "no job, next is " + self.must

    def state(self):
        j = self.job
        self.states.add((self.scn["kind"], self.must, j and (j.type, j.state, j.marked, j.told, j.killed, bool(j.output), j.log_asked), min(self.inflight, 2), self.last_fault, min(self.jobs_done, 2)))

    def crash(self):
        self.crashes -= 1
        self.count("machine_restart")
        self.log("machine restarts")
        self.killall()
        self.heap, self.inflight = [], 0
        self.job, self.virtual = None, {}
        self.now += 30
        self.start()

    # ------------------------------------------------------------ commands
    def on_call(self, s):
        n = s.name
        self.log("call " + self.show(s.argv))
        self.count("call_" + n)
        if n == "sleep":
            self.on_sleep(s)
        elif n == "curl":
            self.on_curl(s)
        elif n in ("bazel", "main"):
            self.on_job(s)
        elif n == "ps":
            self.on_ps(s)
        elif n in ("kill", "pkill", "killall"):
            self.on_kill(s)
        elif n == "pgrep":
            ps = self.matching(s)
            self.after(0, lambda: self.finish(s, 0 if ps else 1, "".join("%d\n" % p for p in ps).encode()))

    def show(self, argv):
        out = []
        for a in argv:
            a = os.path.basename(a) if a is argv[0] else a
            a = a.replace(self.dir, "DIR")
            if argv[0].endswith("kill") or argv[0].endswith("ps"):
                a = re.sub(r"\d{2,}", lambda m: "MAIN" if int(m.group()) in self.virtual else "PID", a)
            out.append(a)
        return " ".join(out)

    def on_sleep(self, s):
        t = 0.0
        for a in s.argv[1:]:
            m = re.match(r"^([0-9.]+)([smhd]?)$", a)
            if m:
                t += float(m.group(1)) * {"": 1, "s": 1, "m": 60, "h": 3600, "d": 86400}[m.group(2)]
        t += [0, 0.01, 0.9][self.c(3, self.scn["slow"])]
        self.after(t, lambda: self.finish(s, 0))

    # ------------------------------------------------------------ processes
    def procs(self):
        out = []
        for p, (st, comm, pp, sc) in sorted(self.tree().items()):
            if st == "Z" or comm in ("ps", "grep", "awk", "mawk", "gawk", "kill", "pkill", "pgrep", "killall", "curl", "sleep", "cut", "tr", "xargs", "sed"):
                continue
            try:
                with open("/proc/%d/cmdline" % p) as f:
                    out.append((p, f.read().replace("\0", " ").strip()))
            except OSError:
                pass
        return out + sorted((p, m[0]) for p, m in self.virtual.items())

    def on_ps(self, s):
        ids = [int(x) for x in re.findall(r"\b\d+\b", " ".join(s.argv[1:]))]
        ps = self.procs()
        if ids:
            ps = [x for x in ps if x[0] in ids]
        head = "USER         PID %CPU %MEM    VSZ   RSS TTY      STAT START   TIME COMMAND\n"
        text = head + "root           1  0.0  0.0 168000 12000 ?        Ss   10:00   0:01 /sbin/init\n" * (not ids)
        text += "".join("nobody   %7d  0.0  0.1   9999  3456 ?        S    10:00   0:00 %s\n" % x for x in ps)
        self.after(0, lambda: self.finish(s, 0 if ps or not ids else 1, text.encode()))

    def matching(self, s):
        pats = [a for a in s.argv[1:] if not a.startswith("-")]
        full = any(a.startswith("-") and "f" in a for a in s.argv[1:]) and s.name != "killall"
        out = []
        for p, cmd in self.procs():
            what = cmd if full else os.path.basename(cmd.split()[0]) if cmd else ""
            for x in pats:
                try:
                    if (x == what) if s.name == "killall" else re.search(x, what):
                        out.append(p)
                except re.error:
                    pass
        return out

    def on_kill(self, s):
        args, pids, probe, i = s.argv[1:], [], False, 0
        if s.name == "kill":
            while i < len(args):
                a = args[i]
                if a in ("-s", "-n"):
                    i += 1
                    probe = probe or args[i:i + 1] == ["0"]
                elif a == "-0":
                    probe = True
                elif re.match(r"^-\d+$", a) and i > 0:
                    pids.append(-int(a[1:]))
                elif re.match(r"^\d+$", a):
                    pids.append(int(a))
                i += 1
        else:
            pids = self.matching(s)
        self.after(0, lambda: self.do_kill(s, pids, probe))

    def do_kill(self, s, pids, probe):
        t = self.tree()
        hit = 0
        for p in pids:
            group = [p]
            if p < 0:
                group = [q for q in t if self.pgid(q) == -p]
            for q in group:
                if q in self.virtual:
                    hit += 1
                    if not probe:
                        cmd, j = self.virtual.pop(q)
                        self.stopped(j, "main")
                        j.main = None
                        self.check_end(j)
                        if j.stub is not None:
                            st = j.stub
                            self.after(0.02, lambda st=st: self.finish(st, 143))
                elif q in t and t[q][0] != "Z" and q != os.getpid():
                    hit += 1
                    if not probe:
                        j = self.job
                        mine = self.stubs.get(q)
                        if j is not None and (mine is j.stub or self.above(q, j, t)) and mine is not s:
                            self.stopped(j, "wrapper")
                        if mine is s:
                            continue
                        try:
                            os.kill(q, signal.SIGKILL)
                        except OSError:
                            pass
                        self.wait_gone(q)
                        if mine is not None:
                            self.gone(mine)
        self.log("kill of %d processes, %d of them there" % (len(pids), hit))
        self.finish(s, 0 if hit else 1)

    def pgid(self, p):
        try:
            return os.getpgid(p)
        except OSError:
            return None

    def above(self, q, j, t):
        """Is q an ancestor of the job's process (below the daemon)?"""
        if j is None or j.stub is None or q == self.pid:
            return False
        p = j.stub.pid
        while p in t and p != self.pid:
            if p == q:
                return True
            p = t[p][2]
        return False

    def stopped(self, j, what):
        if not j.told:
            raise Violation("unasked-stop", "the program of job %r is stopped though the orchestrator did not ask for that" % j.text)
        j.killed = True

    # ------------------------------------------------------------ jobs
    def on_job(self, s):
        j = self.job
        self.quiet_since = self.now
        if j is None or j.state not in ("given", "served") or self.must == "done":
            raise Violation("unasked-start", "a program is started (%s) %s" % (self.show(s.argv), "though no job was given" if j is None else "for job %r, which is %s" % (j.text, j.state)))
        if j.type == "dppir" and j.state != "served":
            raise Violation("early-start", "the program of job %r is started without a configuration" % j.text)
        self.check_params(j, s)
        j.state, j.stub = "running", s
        self.must = "job"
        cmd = " ".join(s.argv[1:])
        self.vpid += 1 + self.c(3)
        if s.name == "bazel":
            j.main = self.vpid
            exe = {"dppir": "/cache/bazel-out/k8-opt/bin/DPPIR/main", "checklist": "/cache/k8-opt/bin/rpc_server_/rpc_server" if self.scn["kind"] == "server" else "/cache/k8-opt/bin/main_/main", "sealpir": "/cache/k8-opt/bin/sealpir"}.get(j.type, "?")
            self.virtual[j.main] = (exe + " " + cmd.split(" -- ")[-1], j)
        self.log("job %d runs" % j.n)
        bad = j.config is not None and not j.config.startswith(b"parties")
        ds = [5, 0, 0.5, 14, 40, 200, 900]
        dur = 0.3 if bad else ds[self.c(len(ds))]
        forever = j.type == "checklist" and self.scn["kind"] == "server"
        if not forever and self.c(8, self.scn["kill"]) == 1:
            forever = True
        n = self.c(5)
        for i in range(n):
            text = self.text(i)
            at = dur * (self.c(10) / 10.0)
            self.after(at, lambda text=text, s=s, j=j: self.emit(j, s, text))
        if not forever:
            code = [0, 1, 37, 134][self.c(4, 0.4)]
            self.after(dur, lambda: self.end_job(j, s, code))
            if code:
                self.count("job_fails")
        if forever or self.c(4, self.scn["kill"]) == 1:
            self.after([1, 0, 15, 30, 100][self.c(5)] if not forever else [20, 0.1, 60, 300][self.c(4)], lambda: self.ask_kill(j))
        if self.c(3, self.scn["log"]) == 1:
            self.after([2, 0, 16, 50][self.c(4)], lambda: self.ask_log(j))

    def text(self, i):
        k = self.c(9)
        t = "run %d.%d line %d" % (self.inc, self.given, i)
        return [t + "\n", t, "\n" + t + "\n\n", "  " + t + "\t x\n", t + "\r\n", "WAIT\n", t + " * $HOME `x` \\n %s \"q'\n", (t + "\n") * 4000, t + " <html>&amp;\n"][k].encode()

    def emit(self, j, s, text):
        if s.done:
            return
        self.op(s, b"O", text)
        j.output += text
        self.log("output %d bytes" % len(text))

    def end_job(self, j, s, code):
        if s.done:
            return
        if j.main:
            self.virtual.pop(j.main, None)
            j.main = None
        self.log("job ends with %d" % code)
        self.finish(s, code)

    def check_end(self, j):
        if j.state == "running" and j.stub is None and j.main is None:
            j.state = "ended"
            self.quiet_since = self.now
            self.log("job %d over" % j.n)

    def ask_kill(self, j):
        if self.job is j and not j.marked:
            j.marked = True
            self.count("kill_asked")
            self.log("operator kills job %d" % j.n)

    def ask_log(self, j):
        if self.job is j:
            j.log_asked = True
            self.count("log_asked")
            self.log("operator asks for the log")

    def flags(self, args):
        out, pos, i = {}, [], 0
        while i < len(args):
            a = args[i]
            if a.startswith("-"):
                k, eq, v = a.lstrip("-").partition("=")
                if not eq and i + 1 < len(args) and not args[i + 1].startswith("-"):
                    i += 1
                    v = args[i]
                out[k] = v
            else:
                pos.append(a)
            i += 1
        return out, pos

    def check_params(self, j, s):
        a = s.argv[1:]
        if s.name == "bazel":
            tail = a[a.index("--") + 1:] if "--" in a else []
            head = a[:a.index("--")] if "--" in a else a
            target = ([x for x in head if x.startswith("//") or x.startswith("@")] or [""])[0]
        else:
            tail, target = a, "//DPPIR:main"
        f, pos = self.flags(tail)
        p = j.p
        want, tgt = {}, None
        if j.type == "dppir" and self.scn["kind"] == "server":
            tgt, want = "DPPIR:main", {"role": "party", "stage": p[3], "party_id": p[1], "server_id": p[2]}
        elif j.type == "dppir":
            tgt, want = "DPPIR:main", {"role": "client", "stage": p[3], "server_id": p[1], "queries": p[2]}
        elif j.type == "checklist" and self.scn["kind"] == "server":
            tgt, want = "rpc_server", {"numRows": p[2], "p": p[3], "pirType": p[4]}
        elif j.type == "checklist":
            tgt, want = ":main", {"serverAddr": p[1], "serverAddr2": p[2], "pirType": p[4]}
            if "q" + p[3] not in pos:
                raise Violation("parameters", "job %r starts %s" % (j.text, self.show(s.argv)))
        elif j.type == "sealpir":
            tgt, want = ":sealpir", {"table": p[1], "queries": p[2]}
        else:
            raise Violation("unasked-start", "for job %r a program is started: %s" % (j.text, self.show(s.argv)))
        if not target.endswith(tgt) or any(f.get(k) != v for k, v in want.items()):
            raise Violation("parameters", "job %r starts %s" % (j.text, self.show(s.argv)))
        if j.type == "dppir":
            c = f.get("config", "")
            try:
                with open(os.path.join(s.cwd, c), "rb") as o:
                    d = o.read()
            except OSError:
                d = None
            if d is None or d.rstrip(b"\n") != j.config.rstrip(b"\n"):
                raise Violation("configuration", "job %r was served a configuration of %d bytes, its program is given %s" % (
                    j.text, len(j.config), "no file" if d is None else "%d bytes: %r" % (len(d), d[:60])))

    # ------------------------------------------------------------ requests
    VALUES = {"-H", "--header", "-X", "--request", "-d", "--data", "--data-ascii", "--data-binary", "--data-raw", "--data-urlencode", "-o", "--output", "-m", "--max-time", "--connect-timeout", "--retry",
              "--retry-delay", "--retry-max-time", "-A", "--user-agent", "-u", "--user", "-w", "--write-out", "-T", "--upload-file", "--url", "-e", "--noproxy", "-x", "--limit-rate", "-y", "-Y", "-F", "--form", "--keepalive-time"}

    def on_curl(self, s):
        a, i = s.argv[1:], 0
        q = {"method": None, "type": None, "data": None, "fail": False, "out": None, "url": None, "max": None, "retry": 0, "delay": 1.0, "conn": False, "all": False, "w": ""}
        bad = None
        while i < len(a):
            x = a[i]
            v = None
            if x.startswith("--"):
                o = x
                if "=" in x:
                    o, v = x.split("=", 1)
                if v is None and o in self.VALUES:
                    i += 1
                    v = a[i] if i < len(a) else ""
                opts = [(o, v)]
            elif x.startswith("-") and x != "-":
                opts, k = [], 1
                while k < len(x):
                    o = "-" + x[k]
                    if o in self.VALUES:
                        v = x[k + 1:]
                        if not v:
                            i += 1
                            v = a[i] if i < len(a) else ""
                        opts.append((o, v))
                        break
                    opts.append((o, None))
                    k += 1
            else:
                opts = [("--url", x)]
            for o, v in opts:
                if o == "--url":
                    q["url"] = v
                elif o in ("-X", "--request"):
                    q["method"] = v
                elif o in ("-H", "--header"):
                    k, _, val = v.partition(":")
                    if k.strip().lower() == "content-type":
                        q["type"] = val.strip().lower()
                elif o in ("-d", "--data", "--data-ascii", "--data-binary", "--data-raw"):
                    d = v.encode("utf-8", "surrogateescape")
                    if v.startswith("@") and o != "--data-raw":
                        if v == "@-":
                            d = s.stdin
                        else:
                            try:
                                with open(os.path.join(s.cwd, v[1:]), "rb") as f:
                                    d = f.read()
                            except OSError:
                                bad = 26
                                d = b""
                        if o != "--data-binary":
                            d = re.sub(rb"[\r\n\0]", b"", d)
                    q["data"] = d if q["data"] is None else q["data"] + b"&" + d
                elif o in ("-T", "--upload-file"):
                    q["method"] = q["method"] or "PUT"
                    try:
                        q["data"] = s.stdin if v == "-" else open(os.path.join(s.cwd, v), "rb").read()
                    except OSError:
                        bad = 26
                    q["type"] = q["type"] or ""
                elif o in ("-f", "--fail", "--fail-with-body"):
                    q["fail"] = True
                elif o in ("-o", "--output"):
                    q["out"] = v
                elif o in ("-w", "--write-out"):
                    q["w"] = v
                elif o in ("-m", "--max-time"):
                    q["max"] = float(v)
                elif o == "--retry":
                    q["retry"] = int(v)
                elif o == "--retry-delay":
                    q["delay"] = float(v)
                elif o == "--retry-connrefused":
                    q["conn"] = True
                elif o == "--retry-all-errors":
                    q["all"] = True
            i += 1
        q["method"] = q["method"] or ("POST" if q["data"] is not None else "GET")
        if q["data"] is not None and q["type"] is None:
            q["type"] = "application/x-www-form-urlencoded"
        if bad:
            self.after(0, lambda: self.finish(s, bad))
            return
        self.request(s, q)

    def request(self, s, q):
        m = re.match(r"^(?:http://)?" + re.escape(HOST) + r"(/.*)$", q["url"] or "")
        if not m:
            self.after(5, lambda: self.finish(s, 6))
            return
        self.inflight += 1
        self.requests += 1
        self.count("requests")
        path = m.group(1)
        lats = [0.02, 0.3, 2, 9, 40]
        lat = lats[self.c(5, self.scn["slow"])]
        fault = 0
        if self.faults and self.scn["loss"]:
            fault = self.c(5, self.scn["loss"])
        self.last_fault = fault
        self.recent = [t for t in self.recent if t > self.now - 10] + [self.now]
        if len(self.recent) > 60:
            raise Violation("flood", "the daemon sent 60 requests within 10 s (%s)" % self.describe())
        if self.requests > 250:
            self.faults = False
        self.precheck(path, q)
        if fault in (1, 2):
            self.count(["", "connection_refused", "request_timed_out"][fault])
            self.after([0, 0.05, 130][fault], lambda: self.result(s, q, path, [0, 7, 28][fault], None, b""))
            return

        def serve():
            status, body = self.serve(path, q)
            body = body.encode() if isinstance(body, str) else body
            if fault == 3:
                self.count("reply_lost")
                self.after(lat, lambda: self.result(s, q, path, 52, None, b""))
            elif fault == 4 and len(body) > 0:
                self.count("reply_truncated")
                part = body[:self.c(len(body))] if len(body) < 2000 else body[:len(body) * self.c(100) // 100]
                self.after(lat, lambda: self.result(s, q, path, 18, status, part))
            else:
                self.after(lat, lambda: self.result(s, q, path, 0, status, body))
        self.after(lat, serve)

    def result(self, s, q, path, code, status, body):
        if s.done:
            self.inflight -= 1
            self.quiet_since = self.now
            return
        if code == 0 and q["fail"] and status >= 400:
            code, body = 22, b""
        again = code and q["retry"] > 0 and (q["all"] or code == 28 or (code == 7 and q["conn"]))
        if again and not (code == 28 and q["max"]):
            q["retry"] -= 1
            self.inflight -= 1
            self.log("curl tries again")
            self.after(q["delay"], lambda: self.request(s, q))
            return
        self.inflight -= 1
        self.quiet_since = self.now
        self.log("reply %s exit %d %d bytes %s" % (path, code, len(body), body[:50]))
        self.delivered(path, code, status, body)
        tail = q["w"].replace("%{http_code}", "%03d" % (status or 0)).replace("%{response_code}", "%03d" % (status or 0)).replace("\\n", "\n").encode()
        if q["out"]:
            self.finish(s, code, tail, files=[(os.path.join(s.cwd, q["out"]), body)] if body or not code else [])
        else:
            self.finish(s, code, body + tail)

    # What a request may be, given what was answered so far.
    def precheck(self, path, q):
        k = path.split("/")
        what = k[1] if len(k) > 1 else ""
        j = self.job
        if what == "giveip":
            if self.id is not None:
                raise Violation("registration", "the daemon registers a second time")
            if path != "/giveip/" + self.scn["kind"]:
                raise Violation("registration", "a %s registers with %s" % (self.scn["kind"], path))
            return
        if self.id is None:
            raise Violation("failure-as-answer", "the registration failed and the daemon goes on with %s" % path)
        if len(k) < 3 or k[2] != self.id:
            raise Violation("identity", "worker %s asks for %s" % (self.id, path))
        if what == "ping":
            if j is not None:
                if self.must == "done" and j.state == "reported?":
                    raise Violation("report-lost", "the report on job %r failed and is not repeated" % j.text)
                raise Violation("abandoned", "the daemon asks for a new job while %r is %s and not reported" % (j.text, j.state))
        elif what in ("config", "shouldkill", "showlog", "done"):
            if j is None:
                raise Violation("failure-as-answer" if self.last_ping_failed else "stray", "the daemon asks for %s though it has no job%s" % (path, ": its poll for work failed" if self.last_ping_failed else ""))
            if what == "config" and (j.type != "dppir" or j.state != "given"):
                raise Violation("stray", "the daemon asks for a configuration, job %r is %s" % (j.text, j.state))
            if what in ("shouldkill", "showlog"):
                if j.type == "dppir" and j.state == "given":
                    raise Violation("failure-as-answer", "job %r has no configuration yet and the daemon goes on with %s" % (j.text, path))
                if j.state == "served" and j.config.startswith(b"parties"):
                    raise Violation("not-started", "job %r has its configuration and no program is started" % j.text)
                if j.type in ("checklist", "sealpir") and j.state == "given":
                    raise Violation("not-started", "job %r is not started" % j.text)
                if j.state == "reported?":
                    raise Violation("report-lost", "the report on job %r failed and is not repeated" % j.text)
                if j.told:
                    j.after_told = getattr(j, "after_told", 0) + 1
                    if j.after_told > 3:
                        raise Violation("not-stopped", "told to stop, the daemon does not report job %r" % j.text)
                if j.state == "ended":
                    j.after_end += 1
                    if j.after_end > 3:
                        raise Violation("not-reported", "the program of job %r is over and the daemon does not report it" % j.text)
                if what == "shouldkill" and j.log_told and j.state == "running":
                    raise Violation("no-log", "asked for the log of job %r the daemon does not send it" % j.text)
            if what == "showlog" and j.log_told:
                body = q["data"] if q["data"] is not None and q["type"].startswith("text/plain") else b""
                ok = any(body == x for x in (j.output, j.output[:j.log_from])) if j.type == "dppir" else j.output[:j.log_from] in body and len(body) < len(j.output) + 500
                if not ok:
                    raise Violation("log", "asked for the log of job %r, %d bytes so far, the daemon sends %d bytes %r" % (j.text, len(j.output), len(body), body[:60]))
            if what == "done":
                self.report(j, q)

    def report(self, j, q):
        if j.type not in ("dppir", "checklist", "sealpir"):
            return
        body = q["data"] if q["data"] is not None and q["type"].startswith("text/plain") and q["method"] == "POST" else b""
        if j.state == "running":
            if j.told:
                raise Violation("not-stopped", "job %r is reported as stopped while its %s runs" % (j.text, "program" if j.main else "wrapper"))
            raise Violation("early-report", "job %r is reported while its program runs" % j.text)
        if j.state == "given":
            raise Violation("not-started", "job %r is reported and was never started" % j.text)
        if j.state == "served":
            if j.config.startswith(b"parties"):
                raise Violation("not-started", "job %r is reported and was never started" % j.text)
            return
        if j.type == "dppir":
            ok, rest = body.startswith(j.output), body[len(j.output):]
            ok = ok and (not rest or (j.told and len(rest) < 200 and b"run " not in rest))
        else:
            # The scripts around the program may say a line of their own.
            ok = j.output in body
            rest = body.replace(j.output, b"", 1)
            ok = ok and len(rest) < 500 and rest.count(b"\n") <= 4 and b"earlier" not in rest and b"run " not in rest and b"WAIT" not in rest
        if not ok:
            raise Violation("report", "job %r: the program wrote %d bytes %r, reported are %d bytes %r" % (j.text, len(j.output), j.output[:60], len(body), body[:120]))

    def serve(self, path, q):
        k = path.split("/")
        what = k[1]
        j = self.job
        self.count("http_" + what)
        if what == "giveip":
            return 200, str([3, 0, 12, 105][self.c(4)] + 7 * self.inc)
        if what == "ping":
            if q["method"] != "GET":
                return 404, "<html>Cannot POST</html>"
            self.pending = None
            if self.jobs_done >= self.scn["jobs"] and self.id is not None:
                self.over = True
            if self.c(2, self.scn["wait"]):
                return 200, "WAIT"
            self.given += 1
            self.pending = self.make_job()
            return 200, self.pending
        if what == "config":
            if j is None or j.type != "dppir":
                return 500, "<!DOCTYPE html><html><body><pre>TypeError</pre></body></html>"
            if j.marked or self.c(12, self.scn["kill"]) == 1:
                j.marked = True
                return 200, "KILLED"
            if self.c(2, self.scn["wait"]):
                return 200, "WAIT"
            if self.c(20, self.scn["odd"]) == 1:
                return 200, ""
            n = [3, 40, 4000][self.c(3)]
            t = "parties 2 serial %d.%d\n" % (self.inc, self.given) + "".join("key  %d 0123456789abcdef *\n" % i for i in range(n))
            return 200, [t, t.rstrip("\n")][self.c(2)]
        if what == "shouldkill":
            if j is None:
                return 500, "<html>"
            return 200, "2\n" if j.log_asked else "1\n" if j.marked else "0\n"
        if what == "showlog":
            if q["method"] != "POST":
                return 404, "<html>"
            if j is not None:
                j.log_asked = False
            return 200, ""
        if what == "done":
            if q["method"] != "POST":
                return 404, "<html>"
            if j is not None:
                if getattr(j, "stored", False):
                    return 500, "<html>TypeError</html>"      # its reply was lost; the orchestrator has it
                j.stored = True
                self.report(j, q)
            return 200, ""
        return 404, "<html>Cannot GET</html>"

    last_ping_failed = False

    def delivered(self, path, code, status, body):
        what = path.split("/")[1]
        j = self.job
        if what == "giveip" and code == 0:
            self.id, self.must = body.decode(), "ping"
        elif what == "ping":
            self.last_ping_failed = code != 0
            if code == 0 and body != b"WAIT":
                self.job = Job(self.given, body.decode())
                self.must = "job"
        elif j is None:
            return
        elif what == "config" and code == 0 and body != b"WAIT":
            j.config, j.state = body, "served"
        elif what == "shouldkill":
            a = body.strip()
            if a == b"1":
                j.told = True
            if a == b"2" and code == 0:
                j.log_told = True
                j.log_from = len(j.output)
        elif what == "showlog":
            j.log_told = False
        elif what == "done":
            if code == 0:
                self.job, self.must = None, "ping"
                self.jobs_done += 1
                self.virtual = {}
                self.last_ping_failed = False
            else:
                j.state = "reported?" if j.type in ("dppir", "checklist", "sealpir") else j.state
                self.must = "done"

    def make_job(self):
        kind = self.scn["kind"]
        ts = ["dppir", "checklist"] + (["sealpir"] if kind == "client" else [])
        t = ts[self.c(len(ts), 0.5)]
        if self.c(10, self.scn["odd"]) == 1:
            return "frobnicate 1 2"
        mode = ["online", "offline", "all"][self.c(3)]
        a, b = [0, 1, 7, 12][self.c(4)], [0, 1, 3, 15][self.c(4)]
        n = [10, 1, 1000, 100000000][self.c(4)]
        pir = ["Punc", "DPF"][self.c(2)]
        if t == "dppir":
            return "dppir %d %d %s" % (a, b, mode) if kind == "server" else "dppir %d %d %s" % (b, n, mode)
        if t == "checklist":
            return "checklist %s %d %d %s" % (self.id, n, 10000 + a, pir) if kind == "server" else "checklist 10.0.0.%d:%d 10.0.1.2:%d %d %s" % (a + 1, 10000 + a, 10100 + b, n, pir)
        return "sealpir %d %d" % (n, [1, 100][self.c(2)])


def subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


def run(scn, stub, repo, given=None, trace=None, root=None):
    base = os.path.join(root or "/dev/shm", "dsim-%d-%s" % (os.getpid(), os.urandom(4).hex()))
    os.makedirs(base)
    w = World(scn, base, stub, repo, given, trace)
    out = {"violation": None}
    try:
        w.run()
    except Violation as v:
        out["violation"] = (v.cls, v.msg)
        w.log("violation " + v.cls)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    out.update(hash=w.h.hexdigest()[:16], choices=w.c.made, counters=w.counters, states=[hashlib.sha256(repr(s).encode()).hexdigest()[:12] for s in w.states],
               vtime=w.now, events=w.events, jobs=w.jobs_done)
    return out
