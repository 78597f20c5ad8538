#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on /repo's current tree
   check.py replay FILE                  runs the case of a replay file again
   check.py setup                        sanity check of the toolchain"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
CXX = "/usr/bin/clang++"
sys.path.insert(0, VERIF)
from units import UNITS, RULES  # noqa: E402

COMMON = ["-std=c++20", "-gline-tables-only", "-DNDEBUG", "-fno-omit-frame-pointer", "-w", "-pthread"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=object-size,vptr",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread", "-include", os.path.join(H, "vf_pre.hpp")],
    "plain": [],
}
# a callback in every block of the library's functions: preemption points besides the synchronisation operations
EDGES = ["-fsanitize-coverage=trace-pc-guard", "-fsanitize-coverage-allowlist=" + os.path.join(H, "edges.txt")]
WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
        "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv"]
WRAP_TSAN = ["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "__cxa_end_catch"]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:detect_stack_use_after_return=0:"
                    "handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:detect_deadlocks=0:report_thread_leaks=0:history_size=4:atexit_sleep_ms=0",
}


class Error(Exception):
    pass


def render_config(out, pool_max):
    d = os.path.join(out, "stlab")
    os.makedirs(d, exist_ok=True)
    on = {"STLAB_STD_COROUTINES", "STLAB_THREADS_PTHREAD", "STLAB_TASK_SYSTEM_PORTABLE",
          "STLAB_MAIN_EXECUTOR_NONE"}
    text = open(os.path.join(REPO, "include/stlab/config.hpp.in")).read()
    text = re.sub(r"#cmakedefine01 (\w+)\(\)",
                  lambda m: "#define %s() %d" % (m.group(1), m.group(1) in on), text)
    text = re.sub(r"@PROJECT_VERSION_\w+@", "0", text)
    text = text.replace("@STLAB_TASK_POOL_MAXIMUM@", str(pool_max))
    with open(os.path.join(d, "config.hpp"), "w") as f:
        f.write(text)


class Build:
    def __init__(self, tmp):
        self.tmp = tmp
        self.lock = threading.Lock()
        self.objs = {}
        self.pool = cf.ThreadPoolExecutor(8)

    def obj(self, src, san, pool_max, opt, defs):
        key = (src, san, pool_max, opt, tuple(defs))
        with self.lock:
            if key not in self.objs:
                cfg = os.path.join(self.tmp, "cfg%d" % pool_max)
                if not os.path.isdir(cfg):
                    render_config(cfg, pool_max)
                o = os.path.join(self.tmp, "%s.o" % hashlib.sha1(repr(key).encode()).hexdigest()[:16])
                own = src == os.path.join(H, "vf.cpp") or san == "plain"
                cmd = [CXX, *COMMON, opt, *SAN[san], *([] if own else EDGES), *["-D" + d for d in defs], "-I" + cfg,
                       "-I" + os.path.join(REPO, "include"), "-I" + H, "-c", src, "-o", o]
                self.objs[key] = self.pool.submit(self.run, cmd, o)
            return self.objs[key]

    def run(self, cmd, out):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            lines = [l[:300] for l in p.stdout.splitlines() if "error" in l or "undefined" in l]
            raise Error("build failed: %s\n%s" % (" ".join(cmd)[:400], "\n".join(lines[:8])))
        return out

    def unit(self, prop, u):
        """futures of the objects, and the link command"""
        san, pm, opt = u["san"], u.get("pool", 0), u.get("opt", "-O0")
        src = os.path.join(H, u.get("src", prop) + ".cpp")
        objs = [self.obj(src, san, pm, opt, u.get("defs", [])),
                self.obj(os.path.join(H, "vf.cpp"), san, 0, "-O1", [])]
        for s in sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)):
            objs.append(self.obj(s, san, pm, "-O1", []))
        return objs

    def link(self, u, objs, out):
        san = u["san"]
        w = WRAP + (WRAP_TSAN if san == "tsan" else [])
        cmd = [CXX, *[f for f in SAN[san] if f.startswith("-fs") or f.startswith("-fno")], "-pthread",
               *["-Wl,--wrap=" + s for s in w], *objs, "-o", out]
        return self.run(cmd, out)


def execute(cmd, timeout):
    env = dict(os.environ)
    env.update(ENV)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True,
                         stdin=subprocess.DEVNULL)
    with RUNNING_LOCK:
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        to = True
    with RUNNING_LOCK:
        RUNNING.discard(p)
    return p.returncode, out.decode(errors="replace"), to


RUNNING = set()
RUNNING_LOCK = threading.Lock()
STOP = threading.Event()


def stop_all():
    STOP.set()
    with RUNNING_LOCK:
        for p in RUNNING:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def sanitizer_key(out):
    m = re.search(r"SUMMARY: (\w+): ?([\w-]+(?: [\w-]+)?)", out)
    kind = m.group(2).strip() if m else "crash"
    rt = re.search(r"runtime error: ([^\n]{0,80})", out)
    if rt:
        kind = "ub " + re.sub(r"0x[0-9a-f]+|\d+", "N", rt.group(1))[:60]
    loc = ""
    for l in out.splitlines():
        f = re.search(r"#\d+ .*?((?:include/stlab|/src)/[\w/.]+\.[hc]pp):\d+", l)
        if f:
            loc = " in " + f.group(1)
            break
    return (kind + loc).strip()


def interpret(rc, out, to):
    """-> kind, data; kind: done violation hang inconclusive error"""
    m = re.findall(r"^@@(\w+) (\{.*\})\s*$", out, re.M)
    for k, js in m:
        try:
            d = json.loads(js, strict=False)
        except ValueError:
            continue
        if k == "VIOLATION":
            return "violation", d
        if k == "HANG":
            return "hang", d
        if k == "INCONCLUSIVE":
            return "inconclusive", d
        if k == "DONE" and rc == 0:
            return "done", d
    if to:
        return "hang", {"key": "timeout", "scenario": "", "case": "0", "msg": "the run did not end"}
    if rc == 66 or rc < 0 or "Sanitizer" in out or "runtime error:" in out:
        lines = [l[:220] for l in out.splitlines() if l.strip()]
        start = next((i for i, l in enumerate(lines) if "Sanitizer" in l or "runtime error" in l), 0)
        key = sanitizer_key(out) if rc >= 0 or "Sanitizer" in out else "signal %d" % -rc
        if rc == -signal.SIGKILL:
            return "error", {"msg": "killed (out of memory?)"}
        return "violation", {"key": key, "scenario": "", "case": "0", "msg": "\n".join(lines[start:start + 40])}
    return "error", {"msg": "exit %d: %s" % (rc, out[-600:])}


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) scenario=(\S+) (.*)", l)
            if m:
                known.append(m.groups())
    return known


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VF_SCALE", "1"))
    units = UNITS[prop]
    known = [k for k in load_known() if k[0] == prop]
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    results, errors, notes, found, seen_known = [], [], [], [], set()
    lock = threading.Lock()
    b = Build(tmp)
    slots = threading.Semaphore(int(os.environ.get("VF_RUNS", "4")))

    def one(i, u):
        name = "%s%s/%s%s" % (u.get("src", prop), "".join(":" + d for d in u.get("defs", [])), u["san"],
                              "/pool%d" % u["pool"] if u.get("pool") else "")
        objs = [o.result() for o in b.unit(prop, u)]
        if STOP.is_set():
            return
        exe = b.link(u, objs, os.path.join(tmp, "run%d" % i))
        shards = u.get("shards", (1, 4))[tier == "thorough"]

        def shard(s):
            with slots:
                if STOP.is_set():
                    return
                sc = u.get("scale", 1) * scale
                if tier == "thorough":
                    sc *= u.get("tscale", 1)
                cmd = [exe, "--seed", str(seed * 1000003 + s * 7919 + i), "--tier", tier, "--scale", str(sc),
                       "--limit", "60"]
                if u.get("only"):
                    cmd += ["--only", u["only"]]
                t = time.time()
                kind, d = interpret(*execute(cmd, 700 if tier == "quick" else 7200))
                if STOP.is_set() and kind != "violation":
                    return
                if kind in ("hang", "error", "inconclusive"):
                    with lock:
                        notes.append("%s: first run %s (%s), run again" % (name, kind, str(d)[:200]))
                    kind2, d2 = interpret(*execute(cmd, 700 if tier == "quick" else 7200))
                    if kind == "hang" and kind2 == "hang":
                        kind, d = "violation", {"key": "hang", "scenario": d2.get("scenario", ""),
                                                "case": d2.get("case", "0"),
                                                "msg": "does not finish, twice: " + d2.get("msg", "")}
                    else:
                        kind, d = kind2, d2
                with lock:
                    if kind == "done":
                        d["unit"], d["shard"], d["wall"] = name, s, round(time.time() - t, 1)
                        results.append(d)
                    elif kind == "violation":
                        for k in known:
                            if k[1] == d["key"].replace(" ", "_") and k[2] in ("*", d["scenario"]):
                                seen_known.add(k)
                                return
                        found.append((name, u, cmd[1:], d))
                        stop_all()
                    else:
                        errors.append("%s: %s %s" % (name, kind, str(d)[:500]))

        with cf.ThreadPoolExecutor(shards) as p:
            for f in [p.submit(shard, s) for s in range(shards)]:
                f.result()

    try:
        with cf.ThreadPoolExecutor(len(units)) as p:
            fs = [p.submit(one, i, u) for i, u in enumerate(units)]
            for f in fs:
                try:
                    f.result()
                except Error as e:
                    errors.append(str(e))
    finally:
        b.pool.shutdown()
        shutil.rmtree(tmp, ignore_errors=True)

    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": RULES[prop],
        "samples": [s for r in results for s in r["samples"]][:12],
        "nontrivial": sum(r["nontrivial"] for r in results),
        "monitored_events": sum(r["events"] for r in results),
        "perturbation_points": sum(r["sync_ops"] for r in results),
        "block_preemptions": sum(r.get("edge_delays", 0) for r in results),
        "library_blocks_run": max([r.get("edges_hit", 0) for r in results], default=0),
        "units": [{"unit": r["unit"], "shard": r["shard"], "wall_s": r["wall"], "scenarios": r["scenarios"]}
                  for r in sorted(results, key=lambda r: (r["unit"], r["shard"]))],
    }
    if notes:
        cov["notes"] = notes
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["clang 18 sanitizers", "Linux, portable task system, libstdc++"],
          "wall_s": round(time.time() - t0, 1), "violations": len(found)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for n in notes:
        print("note:", n)
    if found:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        name, u, args, d = found[0]
        path = os.path.join(VERIF, "replay", "%s-%s.json" % (prop, hashlib.sha1(repr(d).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "unit": u, "args": args, "tier": tier, "violation": d}, f, indent=1)
        print("unit %s scenario %s case %s" % (name, d.get("scenario"), d.get("case")))
        print("key %s: %s" % (d["key"], d["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or not results:
        for e in errors:
            print("ERROR:", e[:1500])
        return 2
    if cov["distinct_nontrivial"] == 0 or cov["monitored_events"] == 0:
        print("ERROR: nothing was observed")
        return 2
    print("held: property=%s evaluations=%d distinct_nontrivial=%d events=%d wall=%.0fs" %
          (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["monitored_events"], ev["wall_s"]))
    return 0


def replay(path):
    r = json.load(open(path))
    u, d = r["unit"], r["violation"]
    tmp = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        b = Build(tmp)
        exe = b.link(u, [o.result() for o in b.unit(r["property"], u)], os.path.join(tmp, "run"))
        b.pool.shutdown()
        for i in range(1 if not d.get("scenario") else 50):
            cmd = [exe] + r["args"]
            if d.get("scenario") and d.get("case", "0") != "0":
                cmd = [exe, "--only", d["scenario"], "--case", d["case"], "--tier", r["tier"], "--scale", "0.01",
                       "--limit", "60"]
            kind, x = interpret(*execute(cmd, 700))
            if kind in ("violation", "hang"):
                print("%s after %d runs: %s" % (kind, i + 1, json.dumps(x)[:3000]))
                return 1
        print("not reproduced by the case alone; the whole run is: %s" % " ".join(r["args"]))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    v = subprocess.run([CXX, "--version"], stdout=subprocess.PIPE, text=True).stdout.splitlines()[0]
    print(v)
    for p in UNITS:
        for u in UNITS[p]:
            s = os.path.join(H, u.get("src", p) + ".cpp")
            if not os.path.exists(s):
                print("missing", s)
                return 1
    return 0


if __name__ == "__main__":
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        sys.exit(setup())
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) < 2 or sys.argv[1] not in UNITS:
        print(__doc__)
        sys.exit(2)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(sys.argv[1], tier))
