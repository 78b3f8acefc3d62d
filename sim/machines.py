"""Machines other than this one, simulated by Miri: the same program makes the same calls on each of
them and on this one, and what comes out is compared."""
import json
import os
import shutil
import subprocess
import threading
import time

SIM = os.path.dirname(os.path.abspath(__file__))
MACHINES = {
    "powerpc-unknown-linux-gnu": "a 32 bit big-endian machine (powerpc)",
    "i686-unknown-linux-gnu": "a 32 bit little-endian machine (i686)",
    "s390x-unknown-linux-gnu": "a 64 bit big-endian machine (s390x)",
}
SHORT = {t.split("-")[0]: t for t in MACHINES}
# a machine like this one whose processors need not see each other's writes in order
THREADS = "x86_64"
SHORT[THREADS] = "x86_64-unknown-linux-gnu"
MACHINES[SHORT[THREADS]] = "a machine with a weak memory order"
# the machine of each worker
SHARE = ["powerpc", "powerpc", "powerpc", "powerpc", "i686", "i686", "s390x", "s390x"]
# one call may take this long; it has at most 60000 steps, of which a machine makes 5000 a second or more
CALL_S = 150
FLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
# all that a machine with threads gets to see of its surroundings
KEPT = ("PATH", "HOME", "CARGO_NET_OFFLINE", "CARGO_TERM_COLOR", "CARGO_INCREMENTAL", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN",
        "MIRI_SYSROOT", "MIRIFLAGS")
CODE = {0: "ok", 1: "an error", 2: "a panic", 3: "not built"}


def menv(env, dirs, t):
    return env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(dirs, "tm-" + t),
               MIRI_SYSROOT=os.path.join(dirs, "sys-" + t),
               MIRIFLAGS=FLAGS)


def guest_cmd(t, args):
    return ["cargo", "miri", "run", "-q", "--offline", "--locked", "--target", SHORT[t], "--"] + args


def sysroots(env, build, run_all, which):
    """the standard libraries of the machines, kept for later builds; returns their directory"""
    v = subprocess.run(["cargo", "--version"], env=env(RUSTUP_TOOLCHAIN="nightly"), stdout=subprocess.PIPE, text=True).stdout
    top = os.path.join(build, "machines-" + "".join(c for c in v if c.isalnum())[:40])
    os.makedirs(top, exist_ok=True)
    jobs = {}
    for t in which:
        if not os.path.exists(os.path.join(top, "sys-%s.ok" % t)):
            d = os.path.join(top, "sys-" + t)
            shutil.rmtree(d, ignore_errors=True)
            jobs[t] = (["cargo", "miri", "setup", "--target", SHORT[t]], SIM, menv(env, top, t))
    for t, (text, rc) in run_all(jobs).items():
        if rc != 0:
            return None, text
        open(os.path.join(top, "sys-%s.ok" % t), "w").close()
    return top, ""


def guests(env, top, out, run_all, which):
    """builds the program for this machine and the others: {name: why not}"""
    src = os.path.join(SIM, "machine")
    empty = os.path.join(out, "empty.bin")
    open(empty, "wb").close()
    jobs = {"native": (["cargo", "build", "--offline", "--locked"], src,
                       env(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(out, "tm-native")))}
    for t in which:
        e = menv(env, top, t)
        e["CARGO_TARGET_DIR"] = os.path.join(out, "tm-" + t)
        jobs[t] = (guest_cmd(t, [empty]), src, e)
    return {n: text[-6000:] for n, (text, rc) in run_all(jobs).items() if rc != 0}


class Run:
    """the program on one machine; its answers arrive in `lines`"""

    def __init__(self, env, top, out, t, args, flags=None, file=None):
        if t == "native":
            cmd, e = [os.path.join(out, "tm-native/debug/machine")] + args, env()
        else:
            cmd, e = guest_cmd(t, args), menv(env, top, t)
            e["CARGO_TARGET_DIR"] = os.path.join(out, "tm-" + t)
            if flags is not None:
                e["MIRIFLAGS"] += flags
                e = {k: e[k] for k in KEPT}
                e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
        self.lines, self.last, self.err = [], time.time(), ""
        self.p = subprocess.Popen(cmd, cwd=os.path.join(SIM, "machine"), env=e, stdin=file or subprocess.DEVNULL, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, start_new_session=True)
        self.t = [threading.Thread(target=self.read), threading.Thread(target=self.errors)]
        for t in self.t:
            t.start()

    def read(self):
        for line in self.p.stdout:
            self.lines.append(line.rstrip("\n"))
            self.last = time.time()

    def errors(self):
        self.err = self.p.stderr.read()

    def wait(self, until):
        """None when it ended by itself, otherwise why it was stopped"""
        why = None
        while self.p.poll() is None:
            now = time.time()
            if now - self.last > CALL_S or now > until:
                why = "call" if now - self.last > CALL_S else "time"
                os.killpg(self.p.pid, 9)
                self.p.wait()
                break
            time.sleep(0.05)
        for t in self.t:
            t.join()
        return why


def parse(lines):
    out = []
    for line in lines:
        a = line.split(" ", 3)
        if len(a) == 4 and a[0].isdigit():
            out.append((int(a[0]), int(a[1]), a[2], a[3]))
    return out


def compare(ref, got, t):
    """index and description of the first answer that differs"""
    for r, g in zip(ref, got):
        if r != g:
            if r[1] != g[1]:
                m = "the call ends with %s here and with %s on %s" % (
                    CODE[r[1]] + (" (%s)" % r[3] if r[3] else ""), CODE[g[1]] + (" (%s)" % g[3] if g[3] else ""), MACHINES[SHORT[t]])
            elif r[2] != g[2]:
                m = "%s writes other pixels than this one" % MACHINES[SHORT[t]]
            else:
                m = "the error is '%s' here and '%s' on %s" % (r[3], g[3], MACHINES[SHORT[t]])
            return r[0], m
    return None


def judge(env, top, out, t, file, limit=CALL_S + 60):
    """makes the calls of a file on this machine and on t: None or what differs"""
    a, b = Run(env, top, out, "native", [file]), Run(env, top, out, t, [file])
    a.wait(time.time() + limit)
    why = b.wait(time.time() + limit)
    ref, got = parse(a.lines), parse(b.lines)
    d = compare(ref, got, t)
    if d:
        return "call %d: %s" % d
    if len(got) < len(ref):
        if why:
            return "call %d: does not return on %s" % (len(got), MACHINES[SHORT[t]])
        return "call %d: the program ends there on %s: %s" % (len(got), MACHINES[SHORT[t]], b.err.strip()[-600:])
    return None


def details(env, top, out, t, file):
    """the answers of both machines with the first elements of the image that differ"""
    text = []
    runs = [Run(env, top, out, n, [file, "dump"]) for n in ("native", t)]
    for r in runs:
        r.wait(time.time() + CALL_S)
    at = -1
    for x, y in zip(runs[0].lines, runs[1].lines):
        if not x.startswith("image "):
            at += 1
            if x != y:
                text.append("call %d: here '%s', there '%s'" % (at, x, y))
        elif x != y:
            p, q = x.split()[1:], y.split()[1:]
            bad = [i for i in range(min(len(p), len(q))) if p[i] != q[i]]
            text.append("call %d: %d elements differ, the first are %s" % (
                at, len(bad), ", ".join("[%d] %s here, %s there" % (i, p[i], q[i]) for i in bad[:4])))
    return text


def search(b, env, top, seed, budget, secs, textures, tag):
    """seeded search: every worker makes its own calls on its machine"""
    out, t0 = b.path, time.time()
    emits = []
    for w, t in enumerate(SHARE):
        f = os.path.join(out, "c03-%s-%d" % (tag, w))
        emits.append((f, subprocess.Popen(
            [b.host, "machine", "--seed", str(seed), "--shard", str(w), "--budget", str(budget), "--runs", "1000000",
             "--libs", b.libs, "--textures", textures, "--out", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f, p in emits:
        text = p.communicate()[0]
        if p.returncode != 0:
            return None, "simhost machine ended with %d: %s" % (p.returncode, text[-2000:])
    refs = [Run(env, top, out, "native", [f + ".bin"]) for f, _ in emits]
    for r in refs:
        r.wait(time.time() + 300)
    t1 = time.time()
    runs = [Run(env, top, out, t, [f + ".bin"]) for (f, _), t in zip(emits, SHARE)]
    whys = [None] * len(runs)

    def watch(i):
        whys[i] = runs[i].wait(t1 + secs)

    ws = [threading.Thread(target=watch, args=(i,)) for i in range(len(runs))]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    r = dict(runs=0, planned_runs=0, calls=0, steps=0, by_fn={}, outcome={}, faults={}, samples=[], machines={}, emit_s=t1 - t0,
             distinct=0, edges=0)
    found, digest = None, []
    for w, ((f, _), t) in enumerate(zip(emits, SHARE)):
        with open(f + ".json") as i:
            s = json.load(i)
        with open(f + ".jsonl") as i:
            plans = [json.loads(line) for line in i]
        ref, got = parse(refs[w].lines), parse(runs[w].lines)
        if len(ref) != s["calls"]:
            return None, "the program made %d of %d calls here: %s" % (len(ref), s["calls"], refs[w].err[-1000:])
        owner = [i for i, p in enumerate(plans) for th in p["threads"] for op in th if "call" in op]
        done = len(got)
        r["planned_runs"] += len(plans)
        r["runs"] += owner[done - 1] + 1 if done else 0
        r["distinct"] += owner[done - 1] + 1 if done else 0
        r["calls"] += done
        r["steps"] += s["steps"] * done // max(1, len(ref))
        r["edges"] = max(r["edges"], s["edges"])
        for k in ("by_fn", "faults"):
            for n, x in s[k].items():
                r[k][n] = r[k].get(n, 0) + x
        m = r["machines"].setdefault(MACHINES[SHORT[t]], {"calls": 0, "ok": 0, "errors": 0, "other": 0})
        m["calls"] += done
        for g in got:
            m["ok" if g[1] == 0 else "errors" if g[1] == 1 else "other"] += 1
        digest.append("%s:%08x" % (t, hash_lines(got)))
        r["samples"] += ["%s: %s" % (t, l) for l in runs[w].lines[:1]]
        d = compare(ref, got, t)
        if d is None and done < len(ref) and whys[w] != "time":
            d = (done, "does not return there" if whys[w] else "the program ends there: " + runs[w].err.strip()[-600:])
        if d and (found is None or d[0] < found[1]):
            found = (w, d[0], t, d[1], plans[owner[d[0]]])
        for x in (".bin", ".json", ".jsonl"):
            os.remove(f + x)
    r["event_digest"] = " ".join(digest)
    r["machine_s"] = time.time() - t1
    for m in r["machines"].values():
        for k in ("ok", "errors", "other"):
            r["outcome"][k] = r["outcome"].get(k, 0) + m[k]
    return (r, found), ""


def hash_lines(got):
    h = 0
    for g in got:
        for c in repr(g).encode():
            h = (h * 31 + c) & 0xffffffff
    return h


# ---------------------------------------------------------------- threads

def schedule(seed):
    """the machine's scheduler and its memory order, decided by a seed"""
    return " -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, (0.01, 0.05, 0.2)[seed % 3])


def threads_on(env, top, out, t, file, mode, flags=""):
    """the machine gets its calls as standard input, so that nothing from outside differs between two executions"""
    with open(file, "rb") as i:
        return Run(env, top, out, t, ["-", mode], flags, i)


def unclear(err):
    """the machine cannot execute something: no answer"""
    return "unsupported operation" in err or "resource exhaustion" in err or "internal compiler error" in err


def differs(ref, run, why):
    """None or (call, what) for threads on the machine against the same calls made alone"""
    got = parse(run.lines)
    for r, g in zip(ref, got):
        if r[1:] != g[1:]:
            return r[0], "the call ends with %s (pixels %s) when it runs alone and with %s (pixels %s) beside other threads" % (
                CODE[r[1]] + (" (%s)" % r[3] if r[3] else ""), r[2], CODE[g[1]] + (" (%s)" % g[3] if g[3] else ""), g[2])
    if len(got) < len(ref) and why != "time" and not unclear(run.err):
        return len(got), "does not return beside other threads" if why else "the program ends beside other threads: " + " ".join(
            run.err.split("error:")[-1].split())[:300]
    return None


def beside(env, top, out, file, ref, run, why):
    """None or (call, what) only the threads can be the reason for: the same calls made alone on the
    same machine end as they do here"""
    d = differs(ref, run, why)
    if not d:
        return None
    a = threads_on(env, top, out, THREADS, file, "alone")
    a.wait(time.time() + CALL_S)
    alone = parse(a.lines)
    if len(alone) < len(ref) and "Data race" not in run.err:
        return None
    return differs(alone, run, why) if len(alone) == len(ref) else d


def judge_threads(env, top, out, file, seeds, until):
    """the first of the seeds with which the threads of a file get other answers than alone"""
    a = threads_on(env, top, out, "native", file, "alone")
    a.wait(until)
    ref = parse(a.lines)
    for i in range(0, len(seeds), 8):
        runs = [(s, threads_on(env, top, out, THREADS, file, "threads", schedule(s))) for s in seeds[i:i + 8]]
        ends = [r.wait(until) for _, r in runs]
        for (s, r), why in zip(runs, ends):
            d = beside(env, top, out, file, ref, r, why)
            if d:
                return s, d
    return None


def search_threads(b, env, top, seed, secs, textures, tag, plans=5):
    """seeded search: programs of a few plans, each executed with a schedule of its own"""
    out, t0 = b.path, time.time()
    lock = threading.Lock()
    r = dict(programs=0, plans=0, calls=0, steps=0, unclear=0)
    found, state = [], {"next": 0}

    def worker():
        while time.time() - t0 < secs and not found:
            with lock:
                n = state["next"]
                state["next"] += 1
            f = os.path.join(out, "thr-%s-%d" % (tag, n))
            p = subprocess.run([b.host, "threads", "--seed", str(seed), "--shard", str(n), "--runs", str(plans), "--libs", b.libs,
                                "--textures", textures, "--out", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                found.append((n, None, "simhost threads ended with %d: %s" % (p.returncode, p.stdout[-1000:]), None, 0))
                return
            with open(f + ".json") as i:
                s = json.load(i)
            with open(f + ".jsonl") as i:
                text = [json.loads(line) for line in i]
            a = threads_on(env, top, out, "native", f + ".bin", "alone")
            a.wait(time.time() + 100)
            ref = parse(a.lines)
            m = threads_on(env, top, out, THREADS, f + ".bin", "threads", schedule(seed * 100003 + n))
            why = m.wait(t0 + secs + 30)
            d = beside(env, top, out, f + ".bin", ref, m, why)
            with lock:
                r["programs"] += 1
                r["unclear"] += bool(len(m.lines) < len(ref) and not d)
                r["plans"] += s["plans"]
                r["calls"] += len(m.lines)
                r["steps"] += s["steps"]
                if d:
                    found.append((n, d[0], d[1], text, seed * 100003 + n))
            for x in (".bin", ".json", ".jsonl"):
                if os.path.exists(f + x):
                    os.remove(f + x)

    ws = [threading.Thread(target=worker) for _ in SHARE]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    r["machine_s"] = time.time() - t0
    return r, min(found, key=lambda x: x[0]) if found else None
