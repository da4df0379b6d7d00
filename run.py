#!/usr/bin/env python3
"""Runner of the runtime monitors.

  run.py check <PROPERTY> [quick|thorough]     build from /repo's tree, run, write evidence
  run.py replay <FILE>                         re-run the single case a replay file names
  run.py setup                                 check that the toolchain is there
"""
import collections, fcntl, json, os, re, shlex, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NPROC = os.cpu_count() or 4

CFG = {
    "plain": ["-O1 -g0", []],
    "asan": ["-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS", []],
    "tsan": ["-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", ["-DGOMP_SHIM=ON"]],
}
ENV = {
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "2", "OMP_DYNAMIC": "false", "OMP_WAIT_POLICY": "passive",
    "ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:suppressions=" + os.path.join(HERE, "harness", "tsan.supp"),
    "LSAN_OPTIONS": "suppressions=" + os.path.join(HERE, "harness", "lsan.supp") + ":print_suppressions=0",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none", "OMPI_MCA_plm": "isolated",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
}

from props import PROPS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR", msg)
    sys.exit(2)


def build(cfg, targets):
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    flags, extra = CFG[cfg]
    lock = open(os.path.join(BUILD, cfg + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CC="gcc", CXX="g++")
    out = ""
    for attempt in range(2):
        if not os.path.exists(os.path.join(d, "build.ninja")):
            p = subprocess.run(["cmake", "-G", "Ninja", "-S", os.path.join(HERE, "harness"), "-B", d, "-DCMAKE_BUILD_TYPE=None",
                                "-DREPO=" + REPO, "-DCMAKE_CXX_FLAGS=" + flags] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = p.stdout
            if p.returncode:
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d, exist_ok=True)
                continue
        p = subprocess.run(["ninja", "-C", d, "-j", str(NPROC)] + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = p.stdout
        if p.returncode == 0:
            lock.close()
            return
    log(out[-6000:])
    die("build of %s failed for %s" % (cfg, targets))


class Shard(threading.Thread):
    """Runs cases start, start+stride, ... < end of one phase in a child process,
    restarting after a crash with the case that follows the crashing one."""

    def __init__(self, phase, tier, seed, prop, start, end, stride, results, tmp):
        super().__init__()
        self.phase, self.tier, self.seed, self.prop = phase, tier, seed, prop
        self.start_, self.end_, self.stride, self.results, self.tmp = start, end, stride, results, tmp

    def cmd(self, start, end, stride):
        ph = self.phase
        exe = os.path.join(BUILD, ph["cfg"], ph["target"])
        c = [exe, "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--start", str(start), "--end", str(end), "--stride", str(stride)]
        for k, v in ph.get("modes", {}).items():
            c += ["--mode", "%s=%d" % (k, v)]
        if ph.get("vg"):
            c = ["valgrind", "-q", "--num-callers=16", "--undef-value-errors=yes"] + c
        if ph.get("mpi"):
            c = ["timeout", "-k", "5", "%d" % (ph.get("case_timeout", 100) * 4), "mpirun", "--oversubscribe", "-n", str(ph["mpi"])] + c
        return c

    def run(self):
        cur = self.start_
        while cur < self.end_:
            nxt = self.go(cur, self.end_, self.stride, self.phase.get("case_timeout", 100))
            if nxt is None:
                break
            cur = nxt

    def go(self, start, end, stride, limit, retry=True):
        env = dict(os.environ, **ENV)
        env.update(self.phase.get("env", {}))
        errf = os.path.join(self.tmp, "err.%s.%d.%d" % (self.phase["name"], start, time.monotonic_ns()))
        with open(errf, "w") as ef:
            p = subprocess.Popen(self.cmd(start, end, stride), stdout=subprocess.PIPE, stderr=ef, env=env, text=True, start_new_session=True, cwd=self.tmp)
        state = {"t": time.monotonic(), "hang": False}

        def watch():
            while p.poll() is None:
                time.sleep(0.5)
                if time.monotonic() - state["t"] > limit:
                    state["hang"] = True
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    return
        w = threading.Thread(target=watch, daemon=True)
        w.start()
        last, lastdone, finished = None, None, False
        for line in p.stdout:
            state["t"] = time.monotonic()
            try:
                if line.startswith("B "):
                    last = int(line[2:])
                elif line.startswith("E "):
                    r = json.loads(line[2:])
                    r["phase"] = self.phase["name"]
                    self.results.append(r)
                    lastdone = r["id"]
                elif line.startswith("D"):
                    finished = True
            except ValueError:
                pass
        p.wait()
        err = open(errf, errors="replace").read()
        os.unlink(errf)
        san, parts = [], re.split(r"@@CASE (\d+)\n", err)
        for i in range(0, len(parts), 2):
            cid = int(parts[i - 1]) if i else start
            san += [(k, m, cid) for k, m in self.sanitizer(parts[i])]
        for key, msg, cid in san:
            self.results.append({"id": cid, "phase": self.phase["name"], "evals": 0, "events": 0, "nt": 0, "worst": 0,
                                 "desc": "sanitizer report", "tags": [], "viol": [{"key": key, "msg": msg}], "synthetic": True})
        if finished and (p.returncode == 0 or san):
            return None
        bad = last if last is not None else start
        if finished and last == lastdone:
            # all cases ran but the process ended badly (leak check, abort in a destructor at exit)
            self.results.append(self.crash(bad, "exit-status", "process ended with status %s after all cases: %s" % (p.returncode, err[-1500:])))
            return None
        if state["hang"] or p.returncode in (-9, 124, 137):
            if retry:      # once more, alone, with a longer limit
                r = self.go(bad, bad + 1, 1, limit * 2, retry=False)
                if r == "hang":
                    self.results.append(self.crash(bad, "hang", "case did not finish within %d s (twice)" % (limit * 2)))
                return bad + stride
            return "hang"
        if not san:
            sig = "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode
            self.results.append(self.crash(bad, "crash", "%s; stderr: %s" % (sig, err[-1500:])))
        return (bad + stride) if retry else None

    def crash(self, cid, key, msg):
        return {"id": cid, "phase": self.phase["name"], "evals": 0, "events": 0, "nt": 0, "worst": 0, "desc": "", "tags": [],
                "viol": [{"key": key, "msg": msg}], "synthetic": True}

    def sanitizer(self, err):
        out = []
        if self.phase.get("vg"):
            for blk in re.split(r"==\d+== \n", err):
                m = re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Uninitialised|Source and|Mismatched|Syscall param|Jump|Process terminating|Argument)[^\n]*)", blk)
                if m and "client check" not in m.group(1):
                    gw = [f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(", blk) if "gwm::" in f]
                    out.append(("memcheck:%s:%s" % ("-".join(m.group(1).split()[:2]), short(gw[0] if gw else "?")), blk[:2000]))
            return out
        if self.phase["cfg"] == "tsan":
            for blk in re.split(r"={18,}\n", err):
                m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
                if not m:
                    continue
                fr = [f for f in re.findall(r"#\d+ (.+?) (?:/|<null>)", blk)]
                gw = [f for f in fr if "gwm::" in f]
                out.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), short(gw[0] if gw else (fr[0] if fr else "?"))), blk[:2500]))
        elif self.phase["cfg"] == "asan":
            m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", err)
            if m:
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()", err)
                gw = [f for f in fr if "gwm::" in f]
                kind = re.split(r"[ :]", m.group(2).strip())[0]
                if m.group(1) == "LeakSanitizer":
                    for blk in re.split(r"\n\n", err):
                        if re.match(r"(Direct) leak", blk.strip()):
                            f = [x for x in re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()", blk) if "gwm::" in x]
                            out.append(("leak:" + short(f[0] if f else "?"), blk[:2000]))
                    if not out:
                        out.append(("leak:?", err[:2000]))
                else:
                    out.append(("asan:%s:%s" % (kind, short(gw[0] if gw else (fr[0] if fr else "?"))), err[:3000]))
            m = re.search(r"([^\n]*runtime error: [^\n]*)", err)
            if m:
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/|\()", err)
                gw = [f for f in fr if "gwm::" in f]
                out.append(("ubsan:" + short(gw[0] if gw else (fr[0] if fr else "?")), m.group(1) + "\n" + err[:2000]))
        return out


def short(f):
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"<.*", "", f)
    return f.strip()


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    phases = []
    for ph in spec["phases"]:
        ph = dict(ph)
        n = ph["cases"] if tier == "quick" else ph.get("thorough", ph["cases"] * 12)
        if n <= 0:
            continue
        ph["n"] = n
        phases.append(ph)
    by = collections.defaultdict(set)
    for ph in phases:
        by[ph["cfg"]].add(ph["target"])
    for cfg, ts in by.items():
        build(cfg, sorted(ts))
    tb = time.time() - t0
    tmp = os.path.join(BUILD, "tmp.%s.%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    results = []
    try:
        for ph in phases:
            jobs = ph.get("jobs", NPROC)
            if tier == "thorough" and not ph.get("mpi"):
                jobs = min(NPROC, max(jobs, 4))
            jobs = min(jobs, ph["n"])
            th = [Shard(ph, tier, seed, prop, j, ph["n"], jobs, results, tmp) for j in range(jobs)]
            [t.start() for t in th]
            [t.join() for t in th]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ---- verdict
    kf = [f for f in known()["findings"] if f["property"] == prop]
    viol, matched = collections.OrderedDict(), collections.OrderedDict()
    for r in sorted(results, key=lambda r: (r["phase"], r["id"])):
        for v in r["viol"]:
            k = v["key"]
            f = next((f for f in kf if re.fullmatch(f["key"], k) and re.search(f.get("when", ""), r.get("desc", "") + " " + v["msg"])), None)
            (matched if f else viol).setdefault((f["id"] if f else k), []).append((r, v, f))
    ncase = sum(1 for r in results if not r.get("synthetic"))
    expected = sum(ph["n"] for ph in phases)
    tags = collections.Counter(t for r in results for t in r["tags"])
    missing = [t for t in spec.get("require", []) if not any(re.fullmatch(t, x) for x in tags)]
    distinct = len({(r["phase"], r["desc"]) for r in results if r.get("nt")})
    samples = [r for r in results if r.get("nt")]
    samples = [samples[i * len(samples) // 6] for i in range(min(6, len(samples)))] if samples else []
    out = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": ncase, "distinct_nontrivial": distinct, "rule": spec["rule"],
            "samples": [{"phase": s["phase"], "case": s["id"], "what": s["desc"], "comparisons": s["evals"], "events": s["events"]} for s in samples],
            "monitor_comparisons": sum(r["evals"] for r in results),
            "events_observed": sum(r["events"] for r in results),
            "configuration_cells": len(tags),
            "cells": dict(sorted(tags.items())[:400]),
            "worst_error_over_tolerance": max([r["worst"] for r in results] or [0]),
            "phases": [{"name": p["name"], "build": p["cfg"], "cases": p["n"], "processes": p.get("mpi", 1)} for p in phases],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"key": k, "count": len(v), "case": v[0][0]["id"], "message": v[0][1]["msg"][:600]} for k, v in viol.items()],
        "known_findings_seen": [{"id": k, "count": len(v)} for k, v in matched.items()],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    log("%s %s seed=%d: %d cases (%d distinct non-trivial), %d comparisons, %d monitored events, %d configuration cells, worst err/tol %.2g, build %.0fs, total %.0fs"
        % (prop, tier, seed, ncase, distinct, out["coverage"]["monitor_comparisons"], out["coverage"]["events_observed"], len(tags), out["coverage"]["worst_error_over_tolerance"], tb, time.time() - t0))
    for k, v in matched.items():
        log("KNOWN-FINDING: property=%s %s" % (prop, v[0][2]["what"]))
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, (k, v) in enumerate(viol.items()):
            r, vv, _ = v[0]
            ph = next(p for p in phases if p["name"] == r["phase"])
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:60], r["id"]))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "phase": {x: ph[x] for x in ph if x != "n"}, "case": r["id"], "key": k, "message": vv["msg"], "desc": r["desc"], "occurrences": len(v)}, f, indent=1)
            if n < 12:
                log("  %s (x%d) case %s/%d: %s" % (k, len(v), r["phase"], r["id"], vv["msg"][:700]))
                log("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if ncase < expected or distinct == 0:
        die("only %d of %d cases observed" % (ncase, expected))
    if missing:
        die("required configuration cells never reached: %s" % missing)
    sys.exit(0)


def replay(path):
    j = json.load(open(path))
    ph = j["phase"]
    build(ph["cfg"], [ph["target"]])
    res = []
    tmp = os.path.join(BUILD, "tmp.replay.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    s = Shard(ph, j["tier"], j["seed"], j["property"], j["case"], j["case"] + 1, 1, res, tmp)
    s.start()
    s.join()
    shutil.rmtree(tmp, ignore_errors=True)
    bad = False
    for r in res:
        log(r["desc"])
        for v in r["viol"]:
            bad = True
            log(v["key"], v["msg"])
    if bad:
        log("VIOLATION property=%s replay=%s" % (j["property"], path))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else (os.environ.get("VERIF_TIER") or "quick"))
    elif len(sys.argv) >= 3 and sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for t in ("cmake", "ninja", "g++", "mpirun"):
            if not shutil.which(t):
                die("missing tool " + t)
        log("toolchain present")
    else:
        print(__doc__)
        sys.exit(2)
