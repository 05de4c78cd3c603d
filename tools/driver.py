#!/usr/bin/env python3
"""Runs the solver-based check of one property.

For every unit of the property's spec (harness/<id>/spec.py) the real sources of /repo are compiled
to LLVM bitcode together with the harness and the library stand-ins, linked, and executed
symbolically by the engine for each job (a set of bound parameters). Counterexamples are replayed
natively (same harness and sources, AddressSanitizer) before they are reported.
"""
import concurrent.futures as cf
import hashlib, importlib.util, json, os, re, resource, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
CLANG = "clang++-18"
STUBS = os.path.join(VERIF, "stubs", "include")
RT = os.path.join(VERIF, "stubs", "rt")
NCPU = int(os.environ.get("VF_JOBS", "8"))
COMMON = ["-std=c++17", "-fno-exceptions", "-fno-access-control", "-fno-strict-aliasing",
          "-fno-delete-null-pointer-checks", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + STUBS]
IR = ["-O1", "-emit-llvm", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
      "-fno-threadsafe-statics", "-gline-tables-only", "-DVF_ENGINE",
      "-fno-use-cxa-atexit", "-fmerge-all-constants", "-fno-builtin-printf"]
NATIVE = ["-O1", "-g", "-fno-pie", "-ffunction-sections", "-fdata-sections", "-fsanitize=address", "-ftrivial-auto-var-init=pattern",
          "-fno-omit-frame-pointer"]


class BuildError(Exception):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def sha(b):
    return hashlib.sha1(b).hexdigest()


def fhash(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = sha(f.read())
    return cache[k]


def compile_one(src, flags, out_dir, suffix):
    """Compiles src; the object is reused only if every file it was made from is unchanged."""
    cmd = [CLANG] + flags + ["-c", src]
    key = sha(" ".join(cmd).encode())[:20]
    out = os.path.join(out_dir, os.path.basename(src).replace(".", "_") + "-" + key + suffix)
    meta = out + ".meta"
    if os.path.exists(out) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()):
                return out
        except (OSError, ValueError):
            pass
    tmp = out + ".%d.tmp" % os.getpid()
    dep = tmp + ".d"
    r = run(cmd + ["-o", tmp, "-MD", "-MF", dep])
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dep)
    os.replace(tmp, out)
    json.dump({d: fhash(d) for d in deps if not d.startswith("/usr/")}, open(meta, "w"))
    return out


def build_engine():
    r = run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "-j%d" % NCPU, "OUT=" + BUILD])
    if r.returncode != 0:
        raise BuildError("engine build failed:\n" + r.stdout[-4000:])
    return os.path.join(BUILD, "symex")


def load_spec(pid):
    path = os.path.join(VERIF, "harness", pid, "spec.py")
    sp = importlib.util.spec_from_file_location("spec_" + pid, path)
    m = importlib.util.module_from_spec(sp)
    m.REPO, m.VERIF, m.BUILD = REPO, VERIF, BUILD
    sp.loader.exec_module(m)
    return m


GEN = os.path.join(BUILD, "gen")


def gen_protos():
    """Message classes for all of the repository's .proto files."""
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import fbsgen
    import protogen
    try:
        protogen.generate(REPO, os.path.join(VERIF, "stubs", "proto"), GEN)
        fbsgen.generate(REPO, GEN)
    except RuntimeError as e:
        raise BuildError(str(e))


class Unit:
    def __init__(self, pid, name, d):
        self.pid, self.name, self.d = pid, name, d
        self.dir = os.path.join(BUILD, "units", pid, name)
        os.makedirs(self.dir, exist_ok=True)
        self.gen = os.path.join(self.dir, "gen")
        self.native = None

    def sources(self):
        hd = os.path.join(VERIF, "harness", self.pid)
        out = []
        for h in [self.d["harness"]] if isinstance(self.d["harness"], str) else self.d["harness"]:
            p = os.path.join(hd, h)
            out.append(p if os.path.exists(p) else os.path.join(VERIF, "harness", "common", h))
        for s in self.d.get("sources", []):
            out.append(os.path.join(REPO, s))
        for s in self.d.get("rt", []) + ["rt.cc", "rtc.cc", "sched.cc"]:
            out.append(os.path.join(RT, s))
        return out

    def flags(self):
        inc = ["-I" + os.path.join(VERIF, "harness", self.pid), "-I" + os.path.join(VERIF, "harness", "common")]
        pre = []
        for i in self.d.get("incl_first", []):
            pre.append("-I" + os.path.join(VERIF, "stubs", i))
        return pre + COMMON + inc + ["-I" + self.gen, "-I" + GEN, "-I" + REPO] + ["-D" + x for x in self.d.get("defs", [])] + self.d.get("flags", [])

    def prepare(self):
        os.makedirs(self.gen, exist_ok=True)
        g = self.d.get("generate")
        if g:
            g(self.gen)

    def ir_tasks(self, pool):
        bc = os.path.join(BUILD, "bc")
        os.makedirs(bc, exist_ok=True)
        fl = self.flags() + IR + self.d.get("ir_flags", [])
        return [pool.submit(compile_one, s, fl, bc, ".bc") for s in self.sources()]

    def pb_tasks(self, pool, objs):
        """The message classes that the compiled sources include."""
        need = set()
        for o in objs:
            need |= {d[:-2] + ".cc" for d in json.load(open(o + ".meta")) if d.startswith(GEN) and d.endswith(".pb.h")}
        skip = self.d.get("no_pb", [])
        self.pb = sorted(n for n in need if not any(x in n for x in skip))
        if self.pb:
            self.pb.append(os.path.join(RT, "pb.cc"))
        fl = self.flags() + IR + self.d.get("ir_flags", [])
        return [pool.submit(compile_one, s, fl, os.path.join(BUILD, "bc"), ".bc") for s in self.pb]

    def link_ir(self, objs):
        out = os.path.join(self.dir, "all.bc")
        lk = os.path.join(self.dir, "linked.bc")
        r = run(["llvm-link-18", "-o", lk] + objs)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (self.name, r.stdout[-3000:]))
        keep = ["vf_main"] + ["strlen", "memchr", "strcmp"]
        r = run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(keep), lk, "-o", out])
        if r.returncode != 0:
            raise BuildError("internalize failed:\n" + r.stdout[-3000:])
        os.unlink(lk)
        self.bc = out
        return out

    def build_native(self, pool):
        if self.native:
            return self.native
        nd = os.path.join(BUILD, "native")
        os.makedirs(nd, exist_ok=True)
        srcs = self.sources() + self.pb + [os.path.join(RT, "native.cc")]
        fs = [pool.submit(compile_one, s, self.flags() + NATIVE, nd, ".o") for s in srcs]
        objs = [f.result() for f in fs]
        exe = os.path.join(self.dir, "replay")
        r = run([CLANG, "-fsanitize=address", "-o", exe, "-no-pie", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all"] + objs)
        if r.returncode != 0:
            raise BuildError("native link failed:\n" + r.stdout[-3000:])
        self.native = exe
        return exe


def replay(exe, inputs_file, params, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=45:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0")
    args = [exe, inputs_file] + ["%s=%d" % kv for kv in sorted(params.items())]
    try:
        r = run(args, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        return "timeout", ""
    return r.returncode, r.stdout[-3000:]


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, pid + ".json")
    os.makedirs(BUILD, exist_ok=True)
    spec = load_spec(pid)
    if hasattr(spec, "run"):  # properties decided by another engine (Python sources)
        sys.exit(spec.run(pid, tier, seed, ev_path))
    pool = cf.ThreadPoolExecutor(NCPU)
    jobs = [j for j in spec.JOBS if j.get("tier", "both") in ("both", tier)]
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    names = sorted({j["unit"] for j in jobs})
    units = {n: Unit(pid, n, spec.UNITS[n]) for n in names}
    try:
        fe = pool.submit(build_engine)
        gen_protos()
        for u in units.values():
            u.prepare()
        tasks = {n: u.ir_tasks(pool) for n, u in units.items()}
        objs = {n: [f.result() for f in tasks[n]] for n in units}
        tasks = {n: u.pb_tasks(pool, objs[n]) for n, u in units.items()}
        for n, u in units.items():
            u.link_ir(objs[n] + [f.result() for f in tasks[n]])
        symex = fe.result()
    except BuildError as e:
        print("CHECK-ERROR property=%s: %s" % (pid, e))
        sys.exit(3)
    t_build = time.time() - t0
    budget = float(os.environ.get("VF_BUDGET", "700" if tier == "quick" else "10800"))

    stop, nlock = threading.Event(), threading.Lock()
    known = known_findings(pid)

    def vkey(v):
        return v["kind"] + ": " + v["msg"] + " @ " + v["loc"]

    def confirms(v, rc):
        return rc == "timeout" if v["kind"] == "nontermination" else rc not in (0, 42, 43, "timeout")

    def run_job(j):
        u = units[j["unit"]]
        jn = re.sub(r"\W+", "_", j["name"])
        out = os.path.join(u.dir, jn + ".json")
        if os.path.exists(out):
            os.unlink(out)
        left = budget - (time.time() - t0)
        to = max(5, min(j.get("timeout", 300), left))
        cmd = [symex, u.bc, "--out", out, "--timeout", str(int(to)), "--src-prefix", REPO + "/"]
        for k, v in sorted(j.get("params", {}).items()):
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += j.get("flags", [])
        if stop.is_set():
            return j, None, "skipped"
        log = open(out + ".log", "w+")
        pr = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30)))
        end = time.time() + to + 120
        while True:
            try:
                pr.wait(1)
                break
            except subprocess.TimeoutExpired:
                if stop.is_set() or time.time() > end:
                    pr.kill()
                    pr.wait()
                    return j, None, "skipped" if stop.is_set() else "engine did not stop"
        log.seek(0)
        text = log.read()[-2000:]
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            return j, None, text
        try:
            for v in res["violations"][:3]:
                if any(k[0] in vkey(v) for k in known):
                    continue
                with nlock:
                    u.build_native(pool)
                p = out + ".inputs"
                with open(p, "w") as f:
                    f.write("\n".join(v["inputs"]) + "\n")
                if confirms(v, replay(u.native, p, j.get("params", {}), timeout=20 if v["kind"] == "nontermination" else 60)[0]):
                    stop.set()  # one confirmed counterexample decides the property
                    break
        except BuildError:
            pass
        return j, res, text

    epool = cf.ThreadPoolExecutor(NCPU)
    order = sorted(jobs, key=lambda j: -j.get("weight", 1))
    futs = [epool.submit(run_job, j) for j in order]
    want_native = getattr(spec, "VALIDATE", True)
    results = [f.result() for f in futs]
    results.sort(key=lambda x: jobs.index(x[0]))

    known_hit = []
    violations, unconfirmed, incomplete, errors, vacuous = [], [], [], [], []
    rdir = os.path.join(ev_dir, pid + ".replay")
    shutil.rmtree(rdir, ignore_errors=True)
    tot = {}
    funcs, samples, jobs_ev = {}, [], []
    validated = 0
    mismatched = []

    def inputs_for(u, lines, tag):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, tag + ".inputs")
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    # native replay binaries are needed for counterexamples and for validating explored paths
    need = set() if stop.is_set() else {j["unit"] for j, res, _ in results if res and (res["violations"] or (want_native and res.get("samples")))}
    for n in sorted(need):
        try:
            units[n].build_native(pool)
        except BuildError as e:
            errors.append("native build: %s" % e)
    vtasks = []
    for j, res, log in results:
        jn = re.sub(r"\W+", "_", j["name"])
        if res is None and log == "skipped":
            incomplete.append("%s: skipped after a violation was confirmed" % j["name"])
            continue
        if res is None:
            errors.append("%s: %s" % (j["name"], log))
            continue
        for k in ("paths", "states", "forks", "steps", "assumed_out", "assert_checks", "assert_proved_by_solver", "assert_concrete", "safety_checks_symbolic", "queries", "sat", "unsat", "unknown", "cache_hits", "int_queries", "solver_s"):
            tot[k] = tot.get(k, 0) + res.get(k, 0)
        tot["max_query_s"] = max(tot.get("max_query_s", 0), res.get("max_query_s", 0))
        for f in res["functions"]:
            if f["file"].startswith(REPO + "/") or f["file"].startswith("fcp/"):
                a = funcs.setdefault(f["fn"], {"file": f["file"].replace(REPO + "/", ""), "blocks": f["blocks"], "seen": 0})
                a["seen"] = max(a["seen"], f["seen"])
        jobs_ev.append({"job": j["name"], "bounds": j.get("params", {}), "what": j.get("what", ""), "paths": res["paths"], "queries": res["queries"], "asserts": res["asserts"], "reach": res["reach"], "wall_s": res["wall_s"], "incomplete": res["incomplete"], "allowed_crashes": res.get("allowed_crashes", {})})
        if res["incomplete"]:
            incomplete.append("%s: %s" % (j["name"], "; ".join("%s x%s" % kv for kv in res["incomplete"].items())))
        miss = [r for r in j.get("reach", []) if r not in res["reach"]]
        if miss and not res["violations"] and not res["incomplete"]:
            vacuous.append("%s: not reached: %s" % (j["name"], ", ".join(miss)))
        u = units[j["unit"]]
        for i, v in enumerate(res["violations"]):
            hit = [k for k in known if k[0] in vkey(v)]
            tag = "%s-%d" % (jn, i)
            p = inputs_for(u, v["inputs"], tag)
            params = j.get("params", {})
            with open(os.path.join(rdir, tag + ".json"), "w") as f:
                json.dump({"property": pid, "job": j["name"], "params": params, **v}, f, indent=1)
            if not u.native:
                unconfirmed.append("%s: %s (no native build)" % (j["name"], v["msg"]))
                continue
            rc, out = replay(u.native, p, params, timeout=20 if v["kind"] == "nontermination" else 60)
            ok = confirms(v, rc)
            with open(os.path.join(rdir, tag + ".out"), "w") as f:
                f.write("exit %s\n%s" % (rc, out))
            sh = os.path.join(rdir, tag + ".sh")
            with open(sh, "w") as f:
                f.write("#!/bin/bash\n# %s: %s at %s\nexec env ASAN_OPTIONS=detect_leaks=0:exitcode=45 %s %s %s\n" % (v["kind"], v["msg"], v["loc"], u.native, p, " ".join("%s=%d" % kv for kv in sorted(params.items()))))
            desc = "%s: %s: %s at %s" % (j["name"], v["kind"], v["msg"], v["loc"])
            if not ok:
                unconfirmed.append(desc + " (native replay: %s)" % rc)
            elif hit:
                known_hit.append((hit[0][1], desc))
            else:
                violations.append((desc, os.path.join(rdir, tag + ".json")))
        if want_native and u.native and not res["violations"]:
            ss = [s for s in res.get("samples", []) if s]
            lim = 6 if tier == "quick" else 20
            step = max(1, len(ss) // lim)
            for i, s in enumerate(ss[::step][:lim]):
                p = inputs_for(u, s.split("\n"), "%s-path%d" % (jn, i))
                vtasks.append((j, s, epool.submit(replay, u.native, p, j.get("params", {}), 60)))
    for j, s, f in vtasks:
        rc, out = f.result()
        if rc == 0:
            validated += 1
            if len(samples) < 6:
                samples.append({"job": j["name"], "inputs": s.split("\n")[:40]})
        elif rc in (41, 45):  # a concrete failing run of the real code
            tag = "%s-native%d" % (re.sub(r"\W+", "_", j["name"]), len(violations))
            p = inputs_for(units[j["unit"]], s.split("\n"), tag)
            json.dump({"property": pid, "job": j["name"], "params": j.get("params", {}), "kind": "native", "msg": out[-1500:], "inputs": s.split("\n")}, open(os.path.join(rdir, tag + ".json"), "w"), indent=1)
            violations.append(("%s: native run of an explored path fails: %s" % (j["name"], out[-300:]), os.path.join(rdir, tag + ".json")))
        else:
            mismatched.append("%s: native run of an explored path ended with %s: %s" % (j["name"], rc, out[-300:]))
    for m in mismatched:
        unconfirmed.append(m)
    if not violations and not unconfirmed:
        shutil.rmtree(rdir, ignore_errors=True)

    cov = {
        "states": int(tot.get("states", 0)), "transitions": int(tot.get("steps", 0)),
        "traces_validated_against_impl": validated, "samples": samples or [{"note": "no completed path with inputs"}],
        "symbolic_paths": int(tot.get("paths", 0)),
        "paths_outside_assumptions": int(tot.get("assumed_out", 0)),
        "assertions_evaluated": int(tot.get("assert_checks", 0)),
        "assertions_discharged_by_solver": int(tot.get("assert_proved_by_solver", 0)),
        "symbolic_memory_and_arithmetic_safety_checks": int(tot.get("safety_checks_symbolic", 0)),
        "solver_queries": int(tot.get("queries", 0)), "solver_sat": int(tot.get("sat", 0)), "solver_unsat": int(tot.get("unsat", 0)),
        "solver_unknown": int(tot.get("unknown", 0)), "integer_encoded_queries": int(tot.get("int_queries", 0)),
        "solver_s": round(tot.get("solver_s", 0), 2), "longest_query_s": round(tot.get("max_query_s", 0), 2), "build_s": round(t_build, 1),
        "functions_encoded": [{"function": k, **v} for k, v in sorted(funcs.items(), key=lambda x: (x[1]["file"], x[0]))],
        "jobs": jobs_ev, "bounds": getattr(spec, "BOUNDS", ""), "outside_bounds": getattr(spec, "OUTSIDE", ""),
        "exhaustive": not incomplete and not errors,
        "incomplete": incomplete, "unconfirmed_counterexamples": unconfirmed, "not_reached": vacuous,
        "explanation": "Every path of the listed functions of /repo under the harness within the bounds was executed symbolically; each assertion and each memory/arithmetic safety condition was decided by the SMT solver for all inputs on that path.",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(spec, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s %s: %d jobs, %d paths, %d solver queries (%d unsat, %d sat, %d unknown), %.1fs solver, %.1fs wall, %d paths validated natively" % (
        pid, tier, len(jobs), cov["symbolic_paths"], cov["solver_queries"], cov["solver_unsat"], cov["solver_sat"], cov["solver_unknown"], cov["solver_s"], ev["wall_s"], validated))
    if os.environ.get("VF_VERBOSE"):
        for x in jobs_ev:
            print("   ", x["job"], "paths", x["paths"], "queries", x["queries"], "wall", x["wall_s"], x["reach"], x["incomplete"] or "")
    for x in incomplete:
        print("INCOMPLETE:", x)
    for x in unconfirmed:
        print("UNCONFIRMED:", x)
    for x in errors:
        print("ERROR:", x)
    seen = set()
    for d, full in known_hit:
        if d not in seen:
            seen.add(d)
            print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if violations:
        for d, p in violations:
            print("  ", d)
        print("VIOLATION property=%s replay=%s" % (pid, violations[0][1]))
        sys.exit(1)
    if errors and not jobs_ev:
        sys.exit(3)
    if vacuous:
        for x in vacuous:
            print("VACUOUS:", x)
        sys.exit(4)
    sys.exit(0)


if __name__ == "__main__":
    main()
