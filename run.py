#!/usr/bin/env python3
"""Checks a property of /repo by symbolic execution of the code built from /repo's current tree.

  run.py check C04 [--tier quick|thorough]   decide one property
  run.py replay FILE                         run a reported counterexample against the real code again
  run.py build                               build everything (nothing else depends on it)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CAPI_REPO", "/repo")
CODE = REPO + "/capi/src/implementation/visibility_graphs/code"
LIBS = REPO + "/capi/cpp_libs"
OUT = os.environ.get("SX_BUILD", HERE + "/build")
ENG = HERE + "/engine"
sys.path.insert(0, HERE)
from specs import PROPS, HARNESS

SYNC = ["-include", ENG + "/include/sx_sync.h"]
INC = ["-I" + ENG + "/shadow", "-I" + ENG + "/include", "-I" + HERE + "/harness", "-I" + CODE, "-I" + LIBS + "/fmt/include", "-I" + LIBS + "/mio", "-I" + LIBS + "/indicators/include"]
BCFLAGS = ["-std=c++17", "-O1", "-fopenmp"] + SYNC + INC + ["-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-emit-llvm", "-Wno-everything"]
NATFLAGS = ["-std=c++17", "-O1", "-g1", "-U_FORTIFY_SOURCE"] + INC + ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-w"]
# concurrency harnesses: clang with OpenMP, thread sanitizer, and our scheduler instead of the OpenMP runtime
TSFLAGS = ["-std=c++17", "-O1", "-g1", "-fopenmp"] + SYNC + INC + ["-fsanitize=thread", "-ffp-contract=off", "-Wno-everything"]
CORES = os.cpu_count() or 8


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r.returncode, r.stdout, r.stderr


class BuildError(Exception):
    pass


# ---------------------------------------------------------------- building
class Builder:
    def __init__(self):
        os.makedirs(OUT, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(CORES)
        self.fut = {}
        self.lock = threading.Lock()
        h = hashlib.sha256()
        for d in (CODE, ENG + "/include", ENG + "/shadow", ENG + "/s2", HERE + "/harness"):
            for r, ds, fs in sorted(os.walk(d)):
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h")):
                        h.update((r + "/" + f).encode())
                        h.update(open(r + "/" + f, "rb").read())
        self.hdr = h.hexdigest()
        self.cpps = sorted(glob.glob(CODE + "/**/*.cpp", recursive=True))

    def obj(self, cmd, src, suffix, hdr=True):
        h = hashlib.sha256((" ".join(cmd) + (self.hdr if hdr else "")).encode() + open(src, "rb").read()).hexdigest()[:20]
        base = os.path.relpath(src, "/").replace("/", "_")
        out = "%s/%s.%s%s" % (OUT, base[-60:], h, suffix)
        with self.lock:
            if out in self.fut:
                return self.fut[out]
            f = self.pool.submit(self.compile, cmd, src, out)
            self.fut[out] = f
            return f

    def compile(self, cmd, src, out):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        rc, o, e = sh(cmd + ["-c", src, "-o", tmp])
        if rc:
            raise BuildError("%s: %s" % (src, e[-3000:]))
        os.rename(tmp, out)
        return out

    def engine(self):
        h = hashlib.sha256()
        for f in sorted(glob.glob(ENG + "/*.*")):
            h.update(open(f, "rb").read())
        d = "%s/engine.%s" % (OUT, h.hexdigest()[:16])
        if not os.path.exists(d + "/sxe"):
            rc, o, e = sh(["bash", ENG + "/build.sh", d])
            if rc:
                raise BuildError("engine: " + e[-3000:])
        return d + "/sxe"

    def skip(self, src, spec):
        return os.path.basename(src)[:-4] in spec.get("exclude", [])

    def flags(self, spec):
        fs = list(spec.get("flags", []))
        for d in spec.get("deps", []):  # sources the harness includes
            fs.append("-DSX_DEP_%s" % hashlib.sha256(open(CODE + "/" + d, "rb").read()).hexdigest()[:16])
        return fs

    def shadow(self, spec):
        """include paths that stand before the system's"""
        return ["-I" + ENG + "/" + d for d in spec.get("shadow", [])]

    def bitcode(self, h):
        spec = HARNESS.get(h, {})
        base = ["clang++-18"] + self.shadow(spec) + BCFLAGS
        cc = base + self.flags(spec)
        fs = [self.obj(cc, "%s/harness/%s.cpp" % (HERE, spec.get("src", h)), ".bc")]
        cc = base
        fs += [self.obj(cc, c, ".bc") for c in self.cpps if not self.skip(c, spec)]
        return fs

    def native(self, h):
        spec = HARNESS.get(h, {})
        if spec.get("threads"):
            cc, pl = ["clang++-18"] + TSFLAGS, ["clang++-18", "-std=c++17", "-O1", "-g1", "-I" + ENG + "/include"]
            sched = "sx_sched_baton"
        else:
            cc, pl = ["g++"] + NATFLAGS, ["g++", "-std=c++17", "-O1", "-I" + ENG + "/include"]
            sched = "sx_sched_none"
        cc = cc[:1] + self.shadow(spec) + cc[1:]
        fs = [self.obj(cc + self.flags(spec), "%s/harness/%s.cpp" % (HERE, spec.get("src", h)), ".o")]
        fs += [self.obj(cc, c, ".o") for c in self.cpps if not self.skip(c, spec)]
        fs += [self.obj(pl, ENG + "/sx_native.cpp", ".o"), self.obj(pl, ENG + "/" + sched + ".cpp", ".o")]
        fs += [self.obj(["g++", "-std=c++17", "-O1", "-I" + LIBS + "/fmt/include"], LIBS + "/fmt/src/format.cc", ".o", False)]
        return fs

    def prepare(self, hs, engine=True):
        """start everything in parallel, then link; returns {harness: (bc, native)}"""
        ef = self.pool.submit(self.engine) if engine else None
        st = {h: (self.bitcode(h) if engine else [], self.native(h)) for h in hs}
        res = {}

        def link(cmd_of, fs, name, suffix):
            objs = [f.result() for f in fs]
            k = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:20]
            out = "%s/%s.%s%s" % (OUT, name, k, suffix)
            if not os.path.exists(out):
                rc, o, e = sh(cmd_of(objs, out + ".tmp"))
                if rc:
                    raise BuildError("link %s: %s" % (name, e[-3000:]))
                os.rename(out + ".tmp", out)
            return out
        for h in hs:
            spec = HARNESS.get(h, {})
            bc = link(lambda o, t: ["/usr/lib/llvm-18/bin/llvm-link"] + o + ["-o", t], st[h][0], h, ".bc") if engine else None
            if spec.get("threads"):
                ld = lambda o, t, w=tuple(WRAPS + spec.get("wrap", [])): ["clang++-18", "-fsanitize=thread", "-rdynamic"] + o + ["-o", t] + ["-Wl,--wrap=" + x for x in w] + ["-ls2", "-labsl_raw_logging_internal", "-Wl,--copy-dt-needed-entries", "-lpthread", "-ldl"]
            else:
                ld = lambda o, t, w=tuple(spec.get("wrap", [])): ["g++", "-fsanitize=address,undefined", "-rdynamic"] + o + ["-o", t] + ["-Wl,--wrap=" + x for x in w] + ["-ls2", "-labsl_raw_logging_internal", "-Wl,--copy-dt-needed-entries", "-lpthread", "-ldl"]
            nat = link(ld, st[h][1], h, ".nat")
            res[h] = (bc, nat)
        return (ef.result() if ef else None), res


WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_unlock"]


# ---------------------------------------------------------------- running natively
def native(nat, entry, vecs, secs=20):
    if not vecs:
        return []
    d = tempfile.mkdtemp(prefix="sxn", dir=OUT)
    try:
        with open(d + "/v", "w") as f:
            for v in vecs:
                f.write("VEC\n")
                for k, x in v.items():
                    f.write("%s %s\n" % (k, x))
        env = dict(os.environ, MALLOC_PERTURB_="85", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_container_overflow=0",
                   UBSAN_OPTIONS="print_stacktrace=0", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0:detect_deadlocks=0:history_size=4")
        r = subprocess.run([nat, entry, d + "/v", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=d, env=env)
        res = []
        for l in r.stdout.decode("utf8", "replace").splitlines():
            try:
                res.append(json.loads(l))
            except ValueError:
                res.append({"status": "garbled", "out": []})
        while len(res) < len(vecs):
            res.append({"status": "not run", "out": []})
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def failing(st):
    return st.startswith(("assert: ", "signal ", "exit ", "uncaught exception", "timeout", "deadlock", "race"))


def same_out(a, b):
    """engine observations vs native ones; pointers never appear in them"""
    if len(a) != len(b):
        return False
    for (n, x), (m, y) in zip(a, b):
        if n != m:
            return False
        if x != y:
            try:
                fx, fy = float.fromhex(x) if "x" in x or "p" in x else float(x), float.fromhex(y) if "x" in y or "p" in y else float(y)
            except ValueError:
                return False
            if not (fx == fy or (fx != fx and fy != fy)):
                return False
    return True


# ---------------------------------------------------------------- one entry
class Slots:
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def get(self, k):
        with self.c:
            self.c.wait_for(lambda: self.n >= k)
            self.n -= k

    def put(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def run_entry(prop, e, tier, sxe, bc, nat, slots, deadline, found=None):
    p = dict(e)
    p.update(e.get(tier, {}))
    jobs = min(p.get("jobs", CORES), CORES)
    slots.get(jobs)
    try:
        left = deadline - time.time()
        if left < 3:
            return {"entry": e["entry"], "skipped": "no time left"}
        if found is not None and found.is_set():
            return {"entry": e["entry"], "skipped": "another entry has found a violation"}
        to = min(p.get("timeout", 60), left)
        lf = "%s/log.%s.%s.%d" % (OUT, prop, e["entry"], os.getpid())
        cmd = [sxe, bc, "--entry", e["entry"], "--log", lf, "--timeout", "%.0f" % max(2, to), "--jobs", str(jobs)]
        for k, v in p.get("cfg", {}).items():
            cmd += ["--cfg", "%s=%s" % (k, v)]
        for k in ("soft", "hard", "max-insts", "max-viol"):
            if k in p:
                cmd += ["--" + k, str(p[k])]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=to + 40, start_new_session=True)
            err = r.stderr.decode("utf8", "replace")[-500:]
        except subprocess.TimeoutExpired as ex:
            err = "engine did not stop in time"
            subprocess.run(["pkill", "-9", "-f", lf])
        recs = []
        if os.path.exists(lf):
            for l in open(lf, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
            os.unlink(lf)
    finally:
        slots.put(jobs)
    res = {"entry": e["entry"], "wall": round(time.time() - t0, 2), "about": e.get("about", "")}
    if err.strip():
        res["stderr"] = err.strip()[-300:]
    sums = [x for x in recs if x["k"] == "sum"]
    res["sum"] = sums[-1] if sums else None
    res["reach"] = sorted({x["what"] for x in recs if x["k"] == "reach"})
    res["unk"] = sorted({x["what"] for x in recs if x["k"] == "unk"})
    inc = {}
    for x in recs:
        if x["k"] == "incomplete":
            inc[x["msg"]] = inc.get(x["msg"], 0) + 1
        if x["k"] == "crash":
            inc["engine process ended by status %s" % x["status"]] = inc.get("engine process ended by status %s" % x["status"], 0) + 1
    res["incomplete_reasons"] = inc
    viols = [x for x in recs if x["k"] == "viol"]
    rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")))
    paths = [x for x in recs if x["k"] == "path"]
    rnd.shuffle(paths)
    paths = paths[: p.get("validate", 40)]
    incs = [x for x in recs if x["k"] == "incomplete" and x.get("in")][:10]
    # one vector per different message first
    seen, vs = {}, []
    for v in viols:
        seen.setdefault(v["what"], []).append(v)
    for i in range(5):
        for w in seen:
            if i < len(seen[w]):
                vs.append(seen[w][i])
    vs = vs[:30]
    secs = p.get("native_secs", 20)
    out = native(nat, e["entry"], [x["in"] for x in vs + paths + incs], secs)
    conf, unconf, agree, differ, stopped = [], [], 0, [], 0
    for x, o in zip(vs, out):
        if failing(o["status"]):
            conf.append({"what": x["what"], "in": x["in"], "native": o["status"], "at": x.get("at", "")})
        else:
            unconf.append({"what": x["what"], "in": x["in"], "native": o["status"], "at": x.get("at", "")})
    for x, o in zip(paths, out[len(vs):]):
        if failing(o["status"]):
            conf.append({"what": o["status"], "in": x["in"], "native": o["status"], "at": "real run of a path the engine passed"})
        elif o["status"] == "ok" and same_out(x["out"], o["out"]):
            agree += 1
        elif o["status"].startswith(("diverged", "assume")):
            stopped += 1
            differ.append({"in": x["in"], "engine": x["out"][:6], "native": o["status"]})
        else:
            differ.append({"in": x["in"], "engine": x["out"][:40], "native": o["status"], "out": o["out"][:40]})
    for x, o in zip(incs, out[len(vs) + len(paths):]):
        if failing(o["status"]):
            conf.append({"what": o["status"], "in": x["in"], "native": o["status"], "at": "real run of an input the engine did not finish"})
    # a timeout must repeat on an otherwise idle machine slot before it counts
    ok = []
    for c in conf:
        if c["native"].startswith("timeout"):
            r = native(nat, e["entry"], [c["in"]], max(60, secs))
            if not failing(r[0]["status"]):
                unconf.append(c)
                continue
        ok.append(c)
    if found is not None and any(not any(match(k, prop, e, v) for k in known()) for v in ok):
        found.set()
    res.update(violations=ok, unconfirmed=unconf, agree=agree, differ=differ, sample=[x["in"] for x in paths[:2]])
    need = e.get("reach", ["end"])
    res["unreached"] = [n for n in need if n not in res["reach"]]
    return res


# ---------------------------------------------------------------- known findings
def known():
    f = HERE + "/known_findings.json"
    return json.load(open(f)) if os.path.exists(f) else []


def match(k, prop, e, v):
    if k.get("status") != "known" or k["property"] != prop or k.get("entry") != e["entry"]:
        return False
    if k.get("what") and k["what"] not in (v["what"], v["native"]):
        return False
    for n, rng in k.get("where", {}).items():
        if n not in v["in"] or not (rng[0] <= int(v["in"][n]) <= rng[1]):
            return False
    return True


def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    if "py" in spec:
        return check_py(prop, tier, spec, t0)
    entries = [e for e in spec["entries"] if tier == "thorough" or not e.get("thorough_only")]
    b = Builder()
    try:
        sxe, bins = b.prepare(sorted({e["harness"] for e in entries}))
    except BuildError as ex:
        log("BUILD FAILED:", ex)
        return 2
    tb = time.time() - t0
    budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 3000)
    slots = Slots(CORES)
    deadline = time.time() + budget
    with cf.ThreadPoolExecutor(CORES) as ex:
        found = threading.Event() if tier == "quick" else None
        fs = [(e, ex.submit(run_entry, prop, e, tier, sxe, bins[e["harness"]][0], bins[e["harness"]][1], slots, deadline, found)) for e in entries]
        rs = [(e, f.result()) for e, f in fs]
    return report(prop, tier, spec, t0, tb, rs)


def report(prop, tier, spec, t0, tb, rs):
    kn = known()
    news, olds = [], {}
    for e, r in rs:
        for v in r.get("violations", []):
            ks = [k for k in kn if match(k, prop, e, v)]
            if ks:
                olds.setdefault(ks[0]["id"], ks[0])
            else:
                news.append((e, v))
    tot = lambda k: sum((r.get("sum") or {}).get(k, 0) for _, r in rs)
    fns = sorted({f for _, r in rs for f in (r.get("sum") or {}).get("fns", []) if not f.startswith(("std::", "__", "fmt::", "void std::", "bool std::", "decltype", "unsigned long std::"))})
    samples = []
    for e, r in rs:
        for s in r.get("sample", [])[:1]:
            samples.append({"entry": e["entry"], "input": s})
    ent = []
    for e, r in rs:
        s = r.get("sum") or {}
        ent.append({"entry": e["entry"], "about": e.get("about", ""), "bounds": e.get("bounds", ""), "config": dict(e.get("cfg", {}), **e.get(tier, {}).get("cfg", {})), "paths": s.get("paths", 0), "infeasible": s.get("ended", 0),
                    "assertions": s.get("asserts", 0), "queries": s.get("queries", 0), "unsat": s.get("unsat", 0), "sat": s.get("sat", 0), "unknown": s.get("unk", 0), "solver_seconds": round(s.get("solverSeconds", 0), 2),
                    "undecided_assertions": r.get("unk", []), "paths_not_finished": s.get("incomplete", 0) + s.get("crashed", 0), "why_not_finished": r.get("incomplete_reasons", {}), "reached": r.get("reach", []), "not_reached": r.get("unreached", []),
                    "complete": bool(s) and not (s.get("incomplete", 0) or s.get("crashed", 0) or s.get("stopped", 0) or r.get("unk")), "native_runs_agreeing": r.get("agree", 0), "native_runs_differing": len(r.get("differ", [])), "differing_sample": r.get("differ", [])[:2],
                    "counterexamples_not_reproduced": [dict(u, at=u.get("at", "")[:200]) for u in r.get("unconfirmed", [])][:3], "wall_s": r.get("wall", 0), **({"skipped": r["skipped"]} if "skipped" in r else {}), **({"stderr": r["stderr"]} if "stderr" in r else {})})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec.get("level", "model_checking"),
          "coverage": {"states": tot("paths"), "transitions": tot("insts"), "traces_validated_against_impl": sum(r.get("agree", 0) for _, r in rs), "samples": samples,
                       "explanation": "states: symbolic paths explored to the end; transitions: lines of the real Python code run on symbolic numbers; traces validated: path models also run through the same code as plain numbers" if "py" in spec else "states: symbolic paths explored to the end; transitions: LLVM instructions of the real code interpreted on them; traces validated: path models also run on the natively compiled code (same harness, ASan/UBSan or TSan) with equal observations",
                       "exhaustive": all(x["complete"] for x in ent), "entries": ent, "functions_encoded": fns, "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unk"), "solver_seconds": round(tot("solverSeconds"), 2),
                       "assertions": tot("asserts"), "bounds": spec.get("bounds", ""), "build_seconds": round(tb, 1)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(news)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    for x in ent:
        log("%-24s paths %d (unfinished %d) asserts %d queries %d (unsat %d unknown %d) solver %.1fs wall %.1fs native agree %d differ %d unreproduced %d%s%s" % (
            x["entry"], x["paths"], x["paths_not_finished"], x["assertions"], x["queries"], x["unsat"], x["unknown"], x["solver_seconds"], x["wall_s"], x["native_runs_agreeing"], x["native_runs_differing"], len(x["counterexamples_not_reproduced"]),
            " undecided " + str(x["undecided_assertions"]) if x["undecided_assertions"] else "", " NOT REACHED " + str(x["not_reached"]) if x["not_reached"] else ""))
    for k in olds.values():
        log("KNOWN-FINDING: property=%s %s" % (prop, k["title"]))
    if news:
        d = HERE + "/evidence/replay"
        os.makedirs(d, exist_ok=True)
        for i, (e, v) in enumerate(news[:5]):
            f = "%s/%s-%s-%d.json" % (d, prop, e["entry"], i)
            json.dump({"property": prop, "harness": e.get("harness"), "entry": e["entry"], "what": v["what"], "native": v["native"], "at": v.get("at", ""), "input": v["in"]}, open(f, "w"), indent=1)
            log("  %s: %s (real code: %s) with %s" % (e["entry"], v["what"], v["native"], json.dumps(v["in"])[:600]))
            log("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    bad = [x["entry"] for x in ent if x["paths"] == 0]
    if len(bad) == len(ent):
        log("INCONCLUSIVE: no path explored to its end in", bad)
        return 2
    return 0


def check_py(prop, tier, spec, t0):
    import importlib
    sys.path.insert(0, HERE + "/pysym")
    m = importlib.import_module(spec["py"])
    rs = m.run(prop, tier, REPO)
    return report(prop, tier, spec, t0, 0, rs)


def replay(f):
    j = json.load(open(f))
    if "py" in PROPS[j["property"]]:
        import importlib
        sys.path.insert(0, HERE + "/pysym")
        m = importlib.import_module(PROPS[j["property"]]["py"])
        st = m.replay(j, REPO)
    else:
        b = Builder()
        _, bins = b.prepare([j["harness"]], engine=False)
        st = native(bins[j["harness"]][1], j["entry"], [j["input"]], 60)[0]["status"]
    log("real code:", st)
    if failing(st):
        log("VIOLATION property=%s replay=%s" % (j["property"], f))
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "build"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "build":
        Builder().prepare(sorted({e["harness"] for p in PROPS.values() for e in p.get("entries", [])}))
        return 0
    rc = check(a.what, "thorough" if a.tier == "thorough" else "quick")
    # the cache is only a convenience between runs by hand; keep it small
    fs = sorted((os.path.join(OUT, f) for f in os.listdir(OUT)), key=os.path.getmtime) if os.path.isdir(OUT) else []
    for f in fs[:-400]:
        if os.path.isfile(f):
            os.unlink(f)
    return rc


if __name__ == "__main__":
    if "python3-vt" not in sys.executable and "/opt/veriftools" not in sys.executable and os.path.exists("/opt/veriftools/pyvenv/bin/python3") and os.environ.get("SX_VT") != "1" and len(sys.argv) > 2 and "py" in PROPS.get(sys.argv[2], {}):
        os.environ["SX_VT"] = "1"
        os.execv("/opt/veriftools/pyvenv/bin/python3", ["/opt/veriftools/pyvenv/bin/python3"] + sys.argv)
    sys.exit(main())
