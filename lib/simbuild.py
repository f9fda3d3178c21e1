"""Builds the simulator and the node images from /repo's working tree.

Everything is keyed by the content of the inputs and lands in /verif/build
(ignored by git), so a changed tree is always rebuilt and an unchanged one is
not.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DPPIR_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# name -> overrides of the tuning knobs in DPPIR/sockets/consts.h
VARIANTS = {
    "real": {},
    "tiny": {"BUFFER_SIZE": 700, "POLL_RATE": 700, "PROGRESS_RATE": 3},
    "small": {"BUFFER_SIZE": 1300, "POLL_RATE": 2000, "PROGRESS_RATE": 7},
    "mid": {"BUFFER_SIZE": 5000, "POLL_RATE": 3000, "PROGRESS_RATE": 50},
    # with the documented switch that samples the noise (noise.h)
    "sample": {},
    "stiny": {"BUFFER_SIZE": 700, "POLL_RATE": 700, "PROGRESS_RATE": 3},
    # every memory access of the nodes calls into the simulator (sim/mem.cc)
    "mem": {},
    "mtiny": {"BUFFER_SIZE": 700, "POLL_RATE": 700, "PROGRESS_RATE": 3},
    # their twins: automatic variables start out with other contents
    "memz": {},
    "mtinyz": {"BUFFER_SIZE": 700, "POLL_RATE": 700, "PROGRESS_RATE": 3},
}
KASAN = ["-fsanitize=kernel-address", "-fasan-shadow-offset=0x100000000000"] + [
    x for p in ("asan-instrumentation-with-call-threshold=0", "asan-stack=1", "asan-globals=1",
                "asan-kernel-mem-intrinsic-prefix=1") for x in ("--param", p)] + [
    # arithmetic the language leaves undefined ends the node (SIGILL); not
    # alignment, which the wire format's packed buffers give up on purpose
    "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-divide-by-zero,float-cast-overflow,bool,enum,"
    "vla-bound,null,return,unreachable,bounds,pointer-overflow,nonnull-attribute,returns-nonnull-attribute",
    "-fsanitize-undefined-trap-on-error"]
MEM = ("mem", "mtiny", "memz", "mtinyz")
PATTERN, ZERO = KASAN + ["-ftrivial-auto-var-init=pattern"], KASAN + ["-ftrivial-auto-var-init=zero"]
DEFINES = {"sample": ["-DDPPIR_SAMPLE"], "stiny": ["-DDPPIR_SAMPLE"], "mem": PATTERN, "mtiny": PATTERN, "memz": ZERO, "mtinyz": ZERO}


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "DPPIR")):
        for f in files:
            if f.endswith((".cc", ".h", ".inc")):
                out.append(os.path.join(root, f))
    return sorted(out)


def units():
    us = []
    for p in repo_sources():
        if not p.endswith(".cc") or re.search(r"(_test|_bench(mark)?)\.cc$", p):
            continue
        us.append(p)
    return us


CXX = ["g++", "-std=c++17", "-O1", "-g1", "-fPIC", "-fno-gnu-unique", "-U_FORTIFY_SOURCE", "-w"]


def knobs_ok():
    """Which knobs can be overridden in consts.h by a #define replacement."""
    p = os.path.join(REPO, "DPPIR/sockets/consts.h")
    if not os.path.exists(p):
        return {}
    txt = open(p).read()
    vals = {}
    for k in ("BUFFER_SIZE", "POLL_RATE", "PROGRESS_RATE"):
        m = re.search(r"^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)(\d+)[uUlL]*[ \t]*(//.*)?$" % k, txt, re.M)
        if m:
            vals[k] = int(m.group(2))
    return vals


def _compile_variant(name, outdir, jobs):
    over = VARIANTS[name]
    overlay = os.path.join(outdir, "overlay")
    os.makedirs(os.path.join(overlay, "DPPIR/sockets"), exist_ok=True)
    consts = os.path.join(REPO, "DPPIR/sockets/consts.h")
    include = []
    if over:
        txt = open(consts).read()
        for k, v in over.items():
            txt = re.sub(r"^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\d+[uUlL]*" % k, r"\g<1>%d" % v, txt, flags=re.M)
        with open(os.path.join(overlay, "DPPIR/sockets/consts.h"), "w") as f:
            f.write(txt)
        include = ["-I", overlay]
    include += ["-I", os.path.join(VERIF, "sim/absl_stub"), "-I", REPO]
    objs = []
    defs = DEFINES.get(name, [])

    def comp(src):
        rel = os.path.relpath(src, REPO) if src.startswith(REPO) else os.path.basename(src)
        obj = os.path.join(outdir, rel.replace("/", "__") + ".o")
        optional = os.path.basename(src) == "harness.cc"
        r = _run(CXX + include + defs + ["-DDPPIR_SIM", "-c", src, "-o", obj])
        if r.returncode and not optional:
            r = _run(CXX + include + defs + ["-c", src, "-o", obj])
        if r.returncode:
            if optional:
                return None, r.stdout
            return None, "compile of %s failed:\n%s" % (src, r.stdout[-3000:])
        base = os.path.basename(src)
        syms = _run(["nm", obj]).stdout
        if re.search(r" T main$", syms, re.M):
            new = "dppir_gen_main" if "gen" in base else "dppir_main" if base == "main.cc" else "dppir_other_main_" + re.sub(r"\W", "_", base)
            _run(["objcopy", "--redefine-sym", "main=" + new, obj])
        return obj, None

    srcs = units() + [os.path.join(VERIF, "sim/harness.cc")]
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(comp, srcs))
    for s, (o, e) in zip(srcs, res):
        if o is None:
            if os.path.basename(s) == "harness.cc":
                continue
            raise BuildError(e)
        objs.append(o)
    so = os.path.join(outdir, name + ".so")
    link = ["g++", "-shared", "-Wl,-Bsymbolic", "-o", so + ".tmp"]
    r = _run(link + objs + ["-lsodium"])
    harness = any("harness" in os.path.basename(o) for o in objs)
    if r.returncode and harness:
        objs = [o for o in objs if not o.endswith("harness.cc.o")]
        r = _run(link + objs + ["-lsodium"])
    if r.returncode:
        raise BuildError("link failed:\n" + r.stdout[-3000:])
    os.rename(so + ".tmp", so)
    for o in objs:
        os.unlink(o)


def build(variants=("real",), jobs=8, quiet=True):
    """Returns (simd path, {variant: so path}, info)."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        mem = any(v in MEM for v in variants)
        kind = "simm" if mem else "simd"
        simsrc = [os.path.join(VERIF, "sim", f) for f in ("core.cc", "scenario.cc", "oracle.cc", "main.cc") + (("mem.cc",) if mem else ())]
        key = _hash_files(simsrc + glob.glob(os.path.join(VERIF, "sim/*.h")), "v1")
        simd = os.path.join(BUILD, kind + "-" + key)
        if not os.path.exists(simd):
            for old in glob.glob(os.path.join(BUILD, kind + "-*")):
                (shutil.rmtree if os.path.isdir(old) else os.unlink)(old)
            tmp = simd + ".d"
            os.makedirs(tmp, exist_ok=True)

            def comp(s):
                o = os.path.join(tmp, os.path.basename(s) + ".o")
                r = _run(["g++", "-std=c++17", "-O2", "-g1", "-U_FORTIFY_SOURCE", "-w", "-fPIE", "-c", s, "-o", o] + (["-DSIM_MEM", "-fno-builtin-strlen", "-fno-tree-loop-distribute-patterns"] if mem else []))
                if r.returncode:
                    raise BuildError(r.stdout[-4000:])
                return o
            with cf.ThreadPoolExecutor(jobs) as ex:
                objs = list(ex.map(comp, simsrc))
            r = _run(["g++", "-rdynamic", "-pie", "-o", simd + ".tmp"] + objs + ["-ldl", "-lsodium"])
            if r.returncode:
                raise BuildError(r.stdout[-4000:])
            shutil.rmtree(tmp)
            os.rename(simd + ".tmp", simd)
        srcs = repo_sources() + [os.path.join(VERIF, "sim/harness.cc")] + glob.glob(os.path.join(VERIF, "sim/absl_stub/**/*.h"), recursive=True)
        ok = knobs_ok()
        info = {"knobs": ok, "dropped": [], "values": {}}
        paths = {}
        want = []
        for v in variants:
            if VARIANTS[v] and not all(k in ok for k in ("BUFFER_SIZE", "POLL_RATE")):
                info["dropped"].append(v)
                continue
            want.append(v)
        tree = _hash_files(srcs, REPO)
        keep = []
        todo = []
        for v in want:
            key = hashlib.sha256((tree + repr(sorted(VARIANTS[v].items())) + " ".join(CXX + DEFINES.get(v, [])) + v).encode()).hexdigest()[:20]
            d = os.path.join(BUILD, "node-%s-%s" % (v, key))
            so = os.path.join(d, v + ".so")
            keep.append(d)
            paths[v] = so
            vals = dict(ok)
            vals.update(VARIANTS[v])
            info["values"][v] = vals
            if not os.path.exists(so):
                todo.append((v, d))
        for v, d in todo:
            for old in glob.glob(os.path.join(BUILD, "node-%s-*" % v)):
                shutil.rmtree(old, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
        # variants are compiled side by side
        def one(vd):
            try:
                _compile_variant(vd[0], vd[1], max(2, jobs // max(1, len(todo)) + 1))
            except Exception:
                shutil.rmtree(vd[1], ignore_errors=True)
                raise
        if todo:
            errs = {}
            with cf.ThreadPoolExecutor(len(todo)) as ex:
                futs = {ex.submit(one, vd): vd for vd in todo}
                for f in cf.as_completed(futs):
                    if f.exception():
                        errs[futs[f][0]] = f.exception()
            for v, e in errs.items():
                if v in ("real", "sample", "mem", "memz"):
                    raise e if isinstance(e, BuildError) else BuildError(repr(e))
                paths.pop(v, None)
                info["dropped"].append(v)
        info["tree"] = tree
        info["harness"] = all("dppir_harness_main" in _run(["nm", "-D", p]).stdout for p in paths.values())
        return simd, paths, info
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == "__main__":
    try:
        print(build(tuple(v for v in VARIANTS if v not in MEM)))
        print(build(MEM))
    except BuildError as e:
        print(e)
        sys.exit(2)
