"""Executes histories of binding calls, each in a fresh forked Python process, and compares every
result with the native decoder's. Reads plans as JSON lines (see host/src/b01.rs).

  b01.py run HOST LIBS TEXTURES MODDIR SEED SHARDS RUNS SECS OUT
  b01.py replay MODDIR FILE
"""
import ctypes
import importlib.machinery
import importlib.util
import json
import os
import resource
import signal
import subprocess
import sys
import time
import zlib

SMALL = 1024  # smaller output objects share their size class with everything else Python does


def load(path, variant):
    p = os.path.join(path, variant, "texture2ddecoder_rs.so")
    ld = importlib.machinery.ExtensionFileLoader("texture2ddecoder_rs", p)
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("texture2ddecoder_rs", ld))
    ld.exec_module(m)
    return m


def history(mod, fault, plan):
    """the first disagreement with the native decoder, as text, and a log"""
    datas = [bytes.fromhex(d) for d in plan["datas"]]
    sums = [zlib.crc32(d) for d in datas]
    kept, log, fired = [], [], 0
    for i, c in enumerate(plan["calls"]):
        f = getattr(mod, "decode_" + c["fn"], None)
        what = "call %d: decode_%s(%d bytes, %d, %d)" % (i, c["fn"], len(datas[c["data"]]), c["w"], c["h"])
        if f is None:
            return what + ": no such function", log, fired
        args = [datas[c["data"]], c["w"], c["h"]]
        if c["fn"] == "astc":
            args += [c["bw"], c["bh"]]
        size = c["w"] * c["h"] * 4
        armed = c["fault"] is not None and SMALL <= size < 1 << 62
        if armed:
            fault.pf_arm(size, c["fault"])
        r, ex = None, None
        try:
            r = f(*args)
        except BaseException as e:
            ex = e
        hit = fault.pf_disarm() if armed else 0
        fired += hit > 0
        if ex is None:
            got = "ok" if type(r) is bytes else "type " + type(r).__name__
            got += " %d bytes %08x" % (len(r), zlib.crc32(r)) if got == "ok" else ""
        else:
            got = "%s: %s" % (type(ex).__name__, ex)
        want = c["expect"]
        log.append("%s%s -> %s; native: %s" % (what, " with %d refused allocation(s)" % hit if hit else "", got, want))
        ordinary = isinstance(ex, (ValueError, MemoryError, OverflowError))
        if ex is not None and want[0] != "unknown" and not ordinary:
            return "%s raised %s" % (what, got), log, fired
        if ex is None and type(r) is not bytes:
            return "%s returned %s" % (what, got), log, fired
        if want[0] == "ok":
            if ex is not None:
                if not hit and not (isinstance(ex, MemoryError) and size > 1 << 26):
                    return "%s raised %s, but the native decoder succeeds" % (what, got), log, fired
            elif [len(r), zlib.crc32(r), zlib.adler32(r)] != want[1:]:
                return "%s returned %s, but the native decoder's image is %d bytes %08x" % (
                    what, got, want[1], want[2]), log, fired
            else:
                kept.append((i, r, want))
        elif want[0] in ("error", "any_error") and ex is None:
            return "%s returned %s, but the native decoder reports %s" % (what, got, want[1:] or "an error"), log, fired
        ex = None
    for i, r, want in kept:
        if zlib.crc32(r) != want[2]:
            return "the image that call %d returned changed later" % i, log, fired
    for i, d in enumerate(datas):
        if zlib.crc32(d) != sums[i]:
            return "the compressed data %d changed" % i, log, fired
    return None, log, fired


def universe(mods, fault, plan):
    """runs one history in a forked process: (violation or None, log, faults fired)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            n = os.open("/dev/null", os.O_WRONLY)
            os.dup2(n, 2)
            resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.alarm(60)
            v = history(mods[plan["variant"]], fault, plan)
            with os.fdopen(w, "w") as o:
                json.dump(v, o)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r) as i:
        t = i.read()
    _, st = os.waitpid(pid, 0)
    try:
        return tuple(json.loads(t))
    except ValueError:
        how = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)
        return "the Python process died (%s)" % how, [], 0


def shrink(mods, fault, plan, msg):
    tried = 0
    n = len(plan["calls"])
    while n and tried < 60:
        i = 0
        while i < len(plan["calls"]) and tried < 60:
            q = dict(plan, calls=plan["calls"][:i] + plan["calls"][i + n:])
            tried += 1
            v = universe(mods, fault, q)[0] if q["calls"] else None
            if v:
                plan, msg = q, v
            else:
                i += n
        n //= 2
    for i, c in enumerate(plan["calls"]):
        if c["fault"] is not None:
            cs = list(plan["calls"])
            cs[i] = dict(c, fault=None)
            q = dict(plan, calls=cs)
            v = universe(mods, fault, q)[0]
            if v:
                plan, msg = q, v
    used = {c["data"] for c in plan["calls"]}
    plan = dict(plan, datas=[d if i in used else "" for i, d in enumerate(plan["datas"])])
    return plan, msg


def setup(moddir):
    fault = ctypes.PyDLL(os.path.join(moddir, "pyfault.so"))
    fault.pf_arm.argtypes = [ctypes.c_size_t, ctypes.c_long]
    fault.pf_disarm.restype = ctypes.c_long
    mods = {v: load(moddir, v) for v in ("chk", "rel")}
    fault.pf_install()
    return mods, fault


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        mods, fault = setup(a[1])
        plan = json.load(open(a[2]))["plan"]
        v, log, _ = universe(mods, fault, plan)
        for l in log:
            print(l)
        print("verdict: %s" % (v or "the property holds in this run"))
        if v:
            print("VIOLATION property=B01 replay=%s" % a[2])
        sys.exit(bool(v))
    host, libs, tex, moddir, seed, shards, runs, secs, out = a[1:]
    mods, fault = setup(moddir)
    t0 = time.time()
    st = dict(runs=0, calls=0, planned=0, faults={}, outcome={}, by_fn={}, distinct=[], samples=[], digest=0, violation=None)
    seen = set()
    for shard in map(int, shards.split(",")):
        cmd = [host, "b01", "--libs", libs, "--textures", tex, "--seed", seed, "--shard", str(shard), "--runs", runs]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True)
        st["planned"] += int(runs)
        for line in p.stdout:
            if time.time() - t0 > float(secs):
                break
            plan = json.loads(line)
            v, log, fired = universe(mods, fault, plan)
            st["runs"] += 1
            st["calls"] += len(plan["calls"])
            st["digest"] = zlib.crc32(json.dumps([v, log]).encode(), st["digest"])
            key = []
            for c in plan["calls"]:
                st["by_fn"][c["fn"]] = st["by_fn"].get(c["fn"], 0) + 1
                k = c["expect"][0]
                st["outcome"][k] = st["outcome"].get(k, 0) + 1
                key.append((c["fn"], c["w"], c["h"], c["fault"], str(c["expect"])))
            st["faults"]["output_allocation_refused"] = st["faults"].get("output_allocation_refused", 0) + fired
            seen.add(zlib.crc32(repr((plan["variant"], key)).encode()))
            if len(st["samples"]) < 2:
                st["samples"].append("run seed %d build %s: " % (plan["run_seed"], plan["variant"]) + "; ".join(log))
            if v:
                small, msg = shrink(mods, fault, plan, v)
                st["violation"] = [plan["run"], plan["shard"], msg, small]
                break
        p.kill()
        p.wait()
        if st["violation"]:
            break
    st["distinct"] = sorted(seen)
    json.dump(st, open(out, "w"))


main()
