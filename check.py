#!/usr/bin/env python3
"""Solver-based checking of the real control-toolbox code.  usage: check.py <PROPERTY> [--tier quick|thorough] [--only FILE]
Compiles every harness/<PROPERTY>_*.cpp against /repo's current headers with the symbolic pass, lets the runtime discharge
every assertion with the SMT solver over all values, replays each counterexample natively, writes evidence."""
import sys, os, json, glob, re, subprocess, time, fcntl, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CT_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CLANG, GXX = "/usr/bin/clang++-18", "/usr/bin/g++"
INC = ["-I%s/%s/include" % (REPO, d) for d in ("ct_core", "ct_optcon", "ct_rbd", "ct_models")] + \
      ["-I%s/ct_rbd/include/ct" % REPO, "-I" + REPO, "-isystem", "/usr/include/eigen3", "-I" + HERE + "/engine", "-I" + HERE + "/harness", "-I" + HERE + "/harness/hpipm"]
DEFS = ["-std=c++14", "-w", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-D_GLIBCXX_ASSERTIONS",
        "-ffp-contract=off"]
NCPU = os.cpu_count() or 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in ("pass.cpp", "rt.cpp", "replay.cpp", "sched.cpp", "sym.h", "family.h"):
            h.update(open(os.path.join(HERE, "engine", f), "rb").read())
        stamp = os.path.join(BUILD, "engine.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return
        llvm = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        llvm = [x for x in llvm if x != "-fno-exceptions"]
        cmds = [[GXX, "-O1", "-fPIC", "-shared", "-w", "-fno-rtti"] + llvm + ["-std=c++17", HERE + "/engine/pass.cpp", "-o", BUILD + "/libsympass.so"],
                [GXX, "-O2", "-std=c++17", "-w", "-c", HERE + "/engine/rt.cpp", "-o", BUILD + "/rt.o"],
                [GXX, "-O1", "-std=c++17", "-w", "-c", HERE + "/engine/sched.cpp", "-o", BUILD + "/sched.o"],
                [GXX, "-O1", "-std=c++17", "-w", "-c", HERE + "/engine/replay.cpp", "-o", BUILD + "/replay.o"]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(sh, cmds):
                if r.returncode:
                    print(r.stdout)
                    sys.exit("engine build failed")
        open(stamp, "w").write(h.hexdigest())


def gen_includes(work):
    """templateDir.h is generated by cmake and git-ignored; provide it when the tree has none."""
    if os.path.exists(REPO + "/ct_core/include/ct/core/templateDir.h"):
        return []
    d = os.path.join(work, "gen/ct/core")
    os.makedirs(d, exist_ok=True)
    open(d + "/templateDir.h", "w").write('#pragma once\n#include <string>\nnamespace ct{namespace core{static const std::string CODEGEN_TEMPLATE_DIR="";static const std::string CODEGEN_OUTPUT_DIR="";}}\n')
    # included as "templateDir.h" from core.h's own directory, or <ct/core/templateDir.h>
    return ["-I" + work + "/gen", "-I" + d]


class Harness:
    def __init__(self, path, tier, work):
        self.path, self.tier = path, tier
        self.name = os.path.basename(path)[:-4]
        self.work = work
        self.opts = {}
        for l in open(path):
            m = re.match(r"//\s*SYM(-THOROUGH)?:\s*(.*)", l)
            if m and (not m.group(1) or tier == "thorough"):
                for kv in m.group(2).split():
                    k, _, v = kv.partition("=")
                    self.opts[k] = v
        self.bounds = [re.sub(r"^//\s*BOUNDS:\s*", "", l).strip() for l in open(path) if re.match(r"//\s*BOUNDS:", l)]
        self.report = os.path.join(work, self.name + ".fn")
        self.sym = os.path.join(work, self.name + ".sym")
        self.nat = os.path.join(work, self.name + ".nat")
        self.natobj = None
        self.defs = ["-DTHOROUGH=%d" % (1 if tier == "thorough" else 0)]
        # multi-threaded code: run its threads on the engine's scheduler, every context switch a choice
        self.sched = self.opts.get("sched", "0")
        self.schedobj = [BUILD + "/sched.o"] if self.sched != "0" else []
        self.libs = self.opts.get("libs", "").split(",") if self.opts.get("libs") else []

    def compile(self, extra):
        env = dict(os.environ, SYMPASS_REPORT=self.report, SYMPASS_SCHED=self.sched)
        o = self.sym + ".o"
        opt = "-O" + self.opts.get("O", "1")
        r = sh([CLANG, opt, "-fno-vectorize", "-fno-slp-vectorize"] + DEFS + self.defs + INC + extra +
               ["-fpass-plugin=" + BUILD + "/libsympass.so", "-c", self.path, "-o", o], env=env)
        if r.returncode:
            return r.stdout
        r = sh([CLANG, o, BUILD + "/rt.o"] + self.schedobj + ["-o", self.sym, "-lpthread"] + ["-l" + l for l in self.libs])
        return r.stdout if r.returncode else None

    def compile_native(self, extra):
        if os.path.exists(self.nat):
            return None
        cxx, env = [GXX, "-O1"], dict(os.environ)
        if self.schedobj:  # the same scheduling points, ordinary doubles
            cxx = [CLANG, "-O1", "-fpass-plugin=" + BUILD + "/libsympass.so"]
            env["SYMPASS_SCHED"] = "2"
        r = sh(cxx + DEFS + self.defs + INC + extra + [self.path, BUILD + "/replay.o"] + self.schedobj + ["-o", self.nat, "-lpthread"] +
               ["-l" + l for l in self.libs], env=env)
        return r.stdout if r.returncode else None

    def run(self, budget, par):
        out = os.path.join(self.work, self.name + ".out")
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, SYM_OUT=out, SYM_BUDGET=str(budget), SYM_PAR=str(par), SYM_QT=self.opts.get("qt", "20"),
                   SYM_ABS=self.opts.get("abs", "0"), SYM_MAXPATHS=self.opts.get("maxpaths", "20000"))
        log = open(os.path.join(self.work, self.name + ".log"), "w")
        t = time.time()
        p = subprocess.Popen([self.sym], env=env, stdout=log, stderr=log, start_new_session=True)
        try:
            p.wait(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        self.wall = time.time() - t
        self.lines = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    self.lines.append(json.loads(l))
                except ValueError:
                    pass
        return self


def replay_inputs(cex):
    """several concrete instances of a counterexample: solver model with its function values, the model with smooth
    functions, and resampled values on the same discrete choices"""
    ch = ["c %s %d" % (n, v) for n, v in cex["choices"]]
    va = ["v %s %.17g" % (n, v) for n, v in cex["vars"].items()]
    uf = ["u %s %d %s %.17g" % (f, len(a), " ".join("%.17g" % x for x in a), v) for f, a, v in cex["uf"]]
    yield "model", ch + va + uf + ["s 0", "nod"]
    for s in (0, 1, 2):
        yield "model+functions%d" % s, ch + va + ["s %d" % s]
    for s in range(1, 26):
        yield "resampled%d" % s, ch + ["r", "s %d" % s]


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--only" in args:
        only = args[args.index("--only") + 1]
    keep = "--keep" in args
    t0 = time.time()
    total = float(os.environ.get("SYM_TOTAL", "600" if tier == "quick" else "3000"))
    build_engine()
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "_", dir=os.path.join(BUILD, "work"))
    try:
        rc = run(prop, tier, only, work, t0, total)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work:", work)
    sys.exit(rc)


def run(prop, tier, only, work, t0, total):
    extra = gen_includes(work)
    files = sorted(glob.glob(os.path.join(HERE, "harness", prop + "_*.cpp")))
    if only:
        files = [f for f in files if only in f]
    if not files:
        sys.exit("no harness for " + prop)
    hs = [Harness(f, tier, work) for f in files]
    with ThreadPoolExecutor(NCPU) as ex:
        errs = list(ex.map(lambda h: h.compile(extra), hs))
    bad = [(h, e) for h, e in zip(hs, errs) if e]
    if bad:
        for h, e in bad:
            print("COMPILE-ERROR %s\n%s" % (h.name, e[:6000]))
        return 2
    tc = time.time() - t0
    remaining = max(60, total - tc)
    # harnesses side by side, each with a share of the cores
    groups = min(len(hs), 4)
    par = max(2, NCPU // groups)
    with ThreadPoolExecutor(groups) as ex:
        list(ex.map(lambda h: h.run(float(h.opts.get("budget", remaining)), par), hs))
    findings = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        findings = [f for f in json.load(open(kf))["known"] if f["property"] == prop]
    cov = dict(explanation="", harnesses=[], functions_encoded=0, functions_sample=[], paths=0, feasible_paths=0, assertions=0,
               solver_queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, forks=0, assertion_results={}, incomplete_paths=0,
               unsupported_paths=0, counterexamples=0, counterexamples_replayed=0, not_reproduced=0, bounds=[])
    fns = set()
    violations, known, undecided, labels_all = [], {}, [], {}
    for h in hs:
        st = [l for l in h.lines if l.get("t") == "stats"]
        st = st[-1] if st else {}
        labels, res, sts = {}, {}, {}
        for l in h.lines:
            if l.get("t") == "path":
                sts[l["status"]] = sts.get(l["status"], 0) + 1
                for k, v in l.get("labels", {}).items():
                    labels[k] = labels.get(k, 0) + v
                for k, v in l.get("res", {}).items():
                    res[k] = res.get(k, 0) + v
                if l["status"] in ("unsupported", "crash-in-runtime", "fork-failed"):
                    undecided.append("%s: %s %s" % (h.name, l["status"], l.get("msg", "")))
            if l.get("t") == "unknown":
                undecided.append("%s: solver gave no answer for %s" % (h.name, l["label"]))
        for l in open(h.report):
            n = l.rstrip("\n").split("\t", 1)[-1]
            if "ct::" in n.split("(")[0] or "quadrotor" in n.lower():
                fns.add(n)
        cov["harnesses"].append(dict(name=h.name, wall_s=round(h.wall, 2), paths=sts, assertion_labels=len(labels), results=res,
                                     queries=st.get("queries", 0), solver_s=st.get("solver_ms", 0) / 1000.0))
        for a, b in (("paths", "paths"), ("feasible_paths", "witnessed"), ("assertions", "asserts"), ("solver_queries", "queries"),
                     ("unsat", "unsat"), ("sat", "sat"), ("unknown", "unknown"), ("forks", "forks"), ("incomplete_paths", "budget"), ("unsupported_paths", "unsupported")):
            cov[a] += st.get(b, 0)
        cov["solver_s"] += st.get("solver_ms", 0) / 1000.0
        for k, v in res.items():
            cov["assertion_results"][k] = cov["assertion_results"].get(k, 0) + v
        cov["bounds"] += h.bounds
        for k, v in labels.items():
            labels_all[h.name + ":" + k] = v
        if not st:
            undecided.append(h.name + ": run did not complete")
        if not labels:
            undecided.append(h.name + ": no assertion reached")
        if st.get("budget"):
            undecided.append("%s: %d paths cut by the time budget" % (h.name, st["budget"]))
        # replay counterexamples, one per (label, choices) up to a limit
        cexs = [l for l in h.lines if l.get("t") == "cex"]
        cov["counterexamples"] += len(cexs)
        by = {}
        for c in cexs:
            by.setdefault(re.sub(r"\[.*", "", c["label"]), []).append(c)
        reported = 0
        for lab, cs in sorted(by.items()):
            done = False
            for c in cs[:6]:
                e = h.compile_native(extra)
                if e:
                    print("COMPILE-ERROR (native) %s\n%s" % (h.name, e[:3000]))
                    return 2
                for kind, lines in replay_inputs(c):
                    inp = os.path.join(work, "in.txt")
                    open(inp, "w").write("\n".join(lines) + "\n")
                    try:
                        r = sh([h.nat, inp], timeout=150, errors="replace")
                    except subprocess.TimeoutExpired:
                        continue
                    if r.returncode not in (0, 77):
                        fl = [x for x in r.stdout.splitlines() if "REPLAY-FAIL" in x]
                        if not fl:
                            fl = ["REPLAY-FAIL abnormal exit %d" % r.returncode]
                        cov["counterexamples_replayed"] += 1
                        rid = None
                        for f in findings:
                            if re.search(f["match"], h.name + ":" + c["label"]) and all(re.search(f["match_fail"], x) for x in fl[:20]) and \
                                    all([n, v] in [list(x) for x in c["choices"]] for n, v in f.get("choices", [])):
                                rid = f
                        if rid:
                            known[rid["id"]] = rid["what"]
                        else:
                            violations.append((h, c, kind, lines, fl))
                        done = True
                        break
                if done:
                    break
            if not done:
                cov["not_reproduced"] += 1
                undecided.append("%s: counterexample for %s not reproduced natively" % (h.name, lab))
    # encoding sanity: the native build must agree on sampled inputs (thorough tier)
    natruns = 0
    if tier == "thorough" and not violations:
        for h in hs:
            if h.compile_native(extra):
                continue
            for s in range(1, 21):
                inp = os.path.join(work, "in.txt")
                open(inp, "w").write("r\ns %d\n" % s)
                try:
                    r = sh([h.nat, inp], timeout=150, errors="replace")
                except subprocess.TimeoutExpired:
                    continue
                if r.returncode == 0:
                    natruns += 1
                elif r.returncode != 77 and not findings:
                    undecided.append("%s: native run with seed %d disagrees: %s" % (h.name, s, r.stdout[-300:]))
    cov["native_crosschecks"] = natruns
    cov["functions_encoded"] = len(fns)
    cov["functions_sample"] = [f[:160] for f in sorted(fns)[:40]]
    cov["assertion_labels"] = labels_all
    cov["undecided"] = sorted(set(undecided))[:60]
    cov["solver_s"] = round(cov["solver_s"], 2)
    cov["compile_s"] = round(tc, 1)
    cov["explanation"] = ("Symbolic execution of the real code compiled from /repo (LLVM IR, every double operation) with z3 deciding each branch's "
                          "feasibility and each assertion over all real values of the symbolic inputs; %d paths, %d assertion instances, %d solver queries "
                          "(%d unsat, %d sat, %d unknown)." % (cov["paths"], cov["assertions"], cov["solver_queries"], cov["unsat"], cov["sat"], cov["unknown"]))
    vdir = os.path.join(HERE, "evidence", "replays")
    if violations:
        os.makedirs(vdir, exist_ok=True)
    for i, (h, c, kind, lines, fl) in enumerate(violations[:20]):
        p = os.path.join(vdir, "%s_%d.txt" % (prop, i))
        open(p, "w").write("# %s  label=%s  instance=%s  choices=%s\n# compile: g++ %s %s engine/replay.cpp ; run with this file as argument\n%s\n%s\n" % (
            h.name, c["label"], kind, c["choices"], " ".join(DEFS + h.defs + INC), h.path, "\n".join("# " + x for x in fl[:20]), "\n".join(lines)))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("   %s: %s (choices %s, instance %s)" % (h.name, fl[0], c["choices"], kind))
    for k, v in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    man = {}
    try:
        man = {c["property"]: c for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]}
    except Exception:
        pass
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=man.get(prop, {}).get("level", "other"), coverage=cov,
              assumptions=["double arithmetic is modelled as real arithmetic (rounding abstracted; constants taken as the simplest rational within one ulp)",
                           "denominators that occur are non-zero; user-supplied dynamics, costs and constraints are smooth functions (uninterpreted)",
                           "bounds as listed in coverage.bounds"], wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if not only:
        json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s %s: paths=%d asserts=%d queries=%d solver=%.1fs results=%s wall=%.1fs undecided=%d" % (
        prop, tier, cov["paths"], cov["assertions"], cov["solver_queries"], cov["solver_s"], cov["assertion_results"], time.time() - t0, len(set(undecided))))
    for u in sorted(set(undecided))[:15]:
        print("  undecided:", u)
    if violations:
        return 1
    if cov["unsat"] + cov["assertion_results"].get("path_ok", 0) + cov["assertion_results"].get("identical", 0) == 0:
        return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        build_engine()
        print("engine ready")
    else:
        main()
