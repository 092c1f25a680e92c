#!/usr/bin/env python3
"""Driver: compiles a property's harness against /repo's current headers, runs symx on every entry,
replays counterexamples natively, writes evidence, prints VIOLATION / KNOWN-FINDING lines.

usage: run.py <property> [--tier quick|thorough] [--keep] [--entry NAME]
exit: 0 held on everything explored, 1 violation, 2 no answer (the reason is printed)
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
sys.path.insert(0, HERE)
import checks  # noqa: E402

LLVM = "/usr/lib/llvm-18/bin"
CLANG = LLVM + "/clang++" if os.path.exists(LLVM + "/clang++") else "clang++"
OPT = LLVM + "/opt" if os.path.exists(LLVM + "/opt") else "opt"
SYMX = os.path.join(HERE, "build", "symx")
UB = "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bool,float-cast-overflow"
JOBS = int(os.environ.get("SX_JOBS", "8"))


def sh_until(cmd, timeout, stop):
    """like sh; ends the command when stop() says so"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, LC_ALL="C.UTF-8"))
    end = time.time() + timeout
    while True:
        try:
            out, _ = p.communicate(timeout=0.5)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            if stop() or time.time() > end:
                p.kill()
                out, _ = p.communicate()
                return (-998 if stop() else -999), out.decode("utf-8", "replace") + "\nTIMEOUT"


def sh(cmd, timeout=None, env=None):
    e = dict(os.environ, LC_ALL="C.UTF-8")
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT"


class Unit:
    """one harness file compiled in one configuration"""

    def __init__(self, prop, idx, cfg, tier, tmp):
        self.cfg, self.tier, self.tmp = cfg, tier, tmp
        self.src = os.path.join(HERE, "harness", cfg["file"])
        self.name = "%s_%d" % (prop, idx)
        self.real = cfg.get("mode", "bv") == "real"
        self.defs = list(cfg.get("defs", [])) + ["-DSX_THOROUGH=%d" % (tier == "thorough")]
        if self.real:
            self.defs.append("-DSX_REAL=1")
        if cfg.get("extra"):
            self.extra = [os.path.join(HERE, "harness", x) for x in cfg["extra"]]
        else:
            self.extra = []
        self.base = ["-std=c++17", "-include", "cstdint", "-I" + REPO, "-I" + os.path.join(HERE, "harness"),
                     "-ffp-contract=off", "-w", "-Wno-narrowing"] + self.defs
        self.errors = []
        self.broken = None
        self.native = {}
        self.lock = threading.Lock()

    def compile(self):
        self.bcfile = os.path.join(self.tmp, self.name + ".bc")
        bcs = []
        for i, src in enumerate([self.src] + self.extra):
            o = os.path.join(self.tmp, "%s_%d.raw.bc" % (self.name, i))
            cmd = [CLANG] + self.base + ["-D_GLIBCXX_ASSERTIONS", "-DSX_ENGINE=1", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", src, "-o", o]
            if self.cfg.get("ub", True):
                cmd += [UB, "-fsanitize-trap=all"]
            rc, out = sh(cmd, 300)
            if rc:
                # the repository is built with g++: when that rejects the harness too, valid uses of the API no longer compile
                g = ["g++"] + self.base + ["-fsyntax-only", src]
                rc2, out2 = sh(g, 300)
                if rc2 and "error:" in out2:
                    self.broken = "command: %s\n%s" % (" ".join(g), out2)
                return "harness does not compile against the current headers:\n" + out[-3000:]
            bcs.append(o)
        raw = bcs[0]
        if len(bcs) > 1:
            raw = os.path.join(self.tmp, self.name + ".link.bc")
            rc, out = sh([LLVM + "/llvm-link"] + bcs + ["-o", raw], 120)
            if rc:
                return "llvm-link: " + out[-2000:]
        full = os.path.join(self.tmp, self.name + ".std.bc")
        rc, out = sh([LLVM + "/llvm-link", "--only-needed", raw] + [os.path.join(HERE, "build", "model_%s.bc" % m) for m in ("std", "except")] + ["-o", full], 120)
        if rc:
            return "llvm-link: " + out[-2000:]
        raw = full
        rc, out = sh([OPT, "-passes=function(sroa,early-cse,simplifycfg,instsimplify)", raw, "-o", self.bcfile], 300)
        if rc:
            return "opt: " + out[-2000:]
        rc, out = sh([LLVM + "/llvm-nm", "--defined-only", self.bcfile], 60)
        self.entries = sorted(set(re.findall(r" T (check_\w+)", out)))
        only = self.cfg.get("entries")
        if only:
            self.entries = [e for e in self.entries if any(re.fullmatch("check_" + p, e) for p in only)]
        skip = self.cfg.get("skip", [])
        self.entries = [e for e in self.entries if not any(re.fullmatch("check_" + p, e) for p in skip)]
        if not self.entries:
            return "no entries"
        return None

    def build_native(self, kind):
        """kind: plain | san | vg"""
        with self.lock:
            return self._build_native(kind)

    def _build_native(self, kind):
        if kind in self.native:
            return self.native[kind]
        exe = os.path.join(self.tmp, "%s_%s" % (self.name, kind))
        cmd = ["g++"] + self.base + ["-rdynamic", "-g", self.src, os.path.join(HERE, "harness", "replay.cpp"), "-o", exe, "-ldl"]
        if kind == "san":
            cmd += ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
        elif kind == "vg":
            cmd += ["-O0"]
        else:
            cmd += ["-O1", "-D_GLIBCXX_ASSERTIONS"]
        rc, out = sh(cmd, 300)
        if rc:
            self.native[kind] = None
            self.errors.append("native build failed: " + out[-1500:])
        else:
            self.native[kind] = exe
        return self.native[kind]

    def run_native(self, kind, entry, inputs, trace=False, tol=None):
        exe = self.build_native(kind)
        if not exe:
            return None, "native build failed"
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".in", delete=False)
        f.write("\n".join(inputs) + "\n")
        f.close()
        cmd = [exe, entry, f.name] + (["trace"] if trace else [])
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:exitcode=21", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=22"}
        if tol:
            env["SX_TOL"] = tol
        if kind == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=99"] + cmd
        return sh(cmd, 30, env)


def reproduces(u, entry, v):
    """True when the real code shows the violation for these inputs, or other ones of the same path; v["inputs"] are those"""
    ok, log = reproduces1(u, entry, v)
    for alt in v.get("alts", []):
        if ok:
            break
        w = dict(v, inputs=alt)
        ok, log2 = reproduces1(u, entry, w)
        log += log2
        if ok:
            v["inputs"] = alt
    return ok, log


def reproduces1(u, entry, v):
    kind = v["kind"]
    if kind == "precision":
        rc, out = u.run_native("plain", entry, v["inputs"], tol="1e-9")
        return "SX-ASSERT-FAILED " + v["id"] in out, out[-2500:]
    order = ["vg"] if kind == "uninit" else ["plain", "san"] if kind == "assert" else ["san"]
    log = ""
    for k in order:
        rc, out = u.run_native(k, entry, v["inputs"])
        log += "[%s] exit %s\n%s\n" % (k, rc, out[-2500:])
        if kind == "assert" and "SX-ASSERT-FAILED " + v["id"] in out:
            return True, log
        if rc in (None, 11, 12, 2):
            continue
        if kind == "assert":
            if rc not in (0, 10):
                return True, log
        elif kind in ("leak",):
            if rc != 0:
                return True, log
        elif rc != 0:
            return True, log
    if kind == "assert" and u.real:
        # a difference the solver found over the reals that is small because the values are: rounding stays below 1e-10
        rc, out = u.run_native("plain", entry, v["inputs"], tol="1e-10")
        log += "[tolerance 1e-10] exit %s\n%s\n" % (rc, out[-2500:])
        return "SX-ASSERT-FAILED " + v["id"] in out, log
    return False, log


def load_findings():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) id=(\S+)\s*(.*)", line)
            if m:
                known.append(m.groups())
    return known


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in sys.argv
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = checks.CHECKS[prop]
    rc, out = sh([os.path.join(HERE, "engine", "build.sh")], 1200)
    if rc:
        print("engine build failed\n" + out[-3000:])
        return 2
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run_%s_" % prop, dir=os.path.join(HERE, "build"))
    try:
        return check(prop, spec, tier, seed, tmp, t0, only)
    finally:
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)


def broken(prop, spec, tier, seed, u, t0):
    """documented uses of the API, which compile against the original code, are rejected by the repository's compiler"""
    outdir = os.path.join(HERE, "replays", prop)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(outdir, "compile.txt")
    with open(p, "w") as f:
        f.write(u.broken)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[dict(entry=u.cfg["file"], inputs=[])],
               explanation="the harness is rejected by g++: nothing was explored", bounds=spec.get("bounds", ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, p))
    return 1


def check(prop, spec, tier, seed, tmp, t0, only):
    units = [Unit(prop, i, c, tier, tmp) for i, c in enumerate(spec["units"]) if tier == "thorough" or not c.get("thorough_only")]
    problems = []
    known = load_findings()
    budget = spec.get("budget", {}).get(tier, 240 if tier == "quick" else 780)
    with ThreadPoolExecutor(JOBS) as ex:
        comp = {u: ex.submit(u.compile) for u in units}
        for u in units:
            err = comp[u].result()
            if err:
                print("%s: %s" % (u.cfg["file"], err))
                if not u.broken:
                    return 2
                return broken(prop, spec, tier, seed, u, t0)
        jobs = []
        native = [ex.submit(u.build_native, "plain") for u in units]

        confirmed = []

        def run_entry(u, e):
            o = os.path.join(tmp, "%s_%s.json" % (u.name, e))
            # the family_ entries go beyond the exhaustive part of the bounds, as far as they get in this time
            limit = min(budget, 60 if tier == "quick" else 420) if e.startswith("check_family_") else budget
            cmd = [SYMX, u.bcfile, e, "--out", o, "--time", str(limit), "--seed", str(seed)]
            if u.real:
                cmd.append("--real")
            cmd += ["--witnesses", "4" if tier == "quick" else "12"]
            cmd += [str(x) for x in u.cfg.get("args", [])]
            if confirmed and time.time() > confirmed[0] + 30:
                return "skipped", ""
            rc, out = sh_until(cmd, budget + 90, lambda: confirmed and time.time() > confirmed[0] + 60)
            if rc == -998:
                return "skipped", ""
            try:
                r = json.load(open(o))
                for v in r["violations"]:
                    # once the real code shows a violation that is not listed, the rest need not be explored to the end
                    if not confirmed and v["kind"] != "precision" and not any(x[:3] == (prop, e, v["id"].replace(" ", "_")) for x in known):
                        if reproduces(u, e, v)[0]:
                            confirmed.append(time.time())
                return r, out
            except Exception:
                return None, "exit %s %s" % (rc, out[-1500:])

        for u in units:
            for e in u.entries:
                if only and e != "check_" + only:
                    continue
                jobs.append((u, e, ex.submit(run_entry, u, e)))
        results = [(u, e) + j.result() for u, e, j in jobs]
        for n in native:
            n.result()

    agg = dict(paths=0, completed=0, forks=0, insts=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0, max_query_s=0.0, assumed_away=0)
    funcs, stubs = set(), set()
    asserts = {}
    precision = 0
    cands, wits = [], []
    rows = []
    # what the solver or the budget left open: the property held on everything explored, and the rest is named;
    # with less than half of the entries decided there is no answer
    partial, unfinished = [], 0
    for u, e, r, log in results:
        if r == "skipped":
            partial.append("%s: not explored: a violation was already found" % e)
            continue
        if r is None:
            problems.append("%s: symx failed: %s" % (e, log))
            continue
        for k in agg:
            agg[k] = max(agg[k], r[k]) if k == "max_query_s" else agg[k] + r[k]
        funcs.update(r["functions"])
        stubs.update(r["stubs"])
        for a, s in r["asserts"].items():
            t = asserts.setdefault(a, dict(reached=0, trivial=0, normal_form=0, solver=0, failed=0, undecided=0))
            for k in t:
                t[k] += s[k]
        rows.append(dict(entry=e, mode=r["mode"], paths=r["paths"], completed=r["completed"], queries=r["queries"], solver_s=round(r["solver_s"], 3), wall_s=round(r["wall_s"], 3), insts=r["insts"]))
        bad = [v for v in r["violations"] if v["kind"] != "precision"]
        if not r["complete"] and not bad:
            partial.append("%s: exploration incomplete: %s" % (e, r["why"]))
        for x in sorted(set(r["undecided"])):
            partial.append("%s: undecided: %s" % (e, x))
        unfinished += not e.startswith("check_family_") and not bad and (not r["complete"] or bool(r["undecided"]))
        if r["completed"] == 0 and not bad:
            problems.append("%s: no path reached the end" % e)
        for v in r["violations"]:
            cands.append((u, e, v))
            precision += v["kind"] == "precision"
        for w in r["witnesses"]:
            wits.append((u, e, w))

    # counterexamples are believed only when the real code shows them
    reported, knownhit, dead = [], set(), []
    outdir = os.path.join(HERE, "replays", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    seen = set()
    tried = {}
    for u, e, v in cands:
        key = (e, v["kind"], v["id"])
        if key in seen or len(reported) >= 6 or tried.get(key, 0) >= 4:
            continue
        tried[key] = tried.get(key, 0) + 1
        ok, log = reproduces(u, e, v)
        if not ok and v["kind"] == "precision":
            continue  # the rounding does not influence what is asserted
        if not ok:
            dead.append((e, v, log))
            continue
        seen.add(key)
        k = [x for x in known if x[0] == prop and x[1] == e and x[2] == v["id"].replace(" ", "_")]
        if k:
            knownhit.add(k[0])
            continue
        os.makedirs(outdir, exist_ok=True)
        p = os.path.join(outdir, "%s-%d.txt" % (e, len(reported)))
        with open(p, "w") as f:
            f.write("# property %s, entry %s of harness/%s: %s %s\n" % (prop, e, u.cfg["file"], v["kind"], v["id"]))
            for line in v["msg"].split("\n"):
                f.write("# %s\n" % line)
            f.write("# replay: g++ %s %s harness/replay.cpp -rdynamic -ldl -o replay && ./replay %s %s\n" % (" ".join(u.base), u.src, e, p))
            f.write("\n".join(v["inputs"]) + "\n")
            for line in log.split("\n")[:60]:
                f.write("# %s\n" % line)
        reported.append((p, e, v))
    for e, v, log in dead:
        if (e, v["kind"], v["id"]) not in seen:
            problems.append("%s: counterexample for %s %s did not reproduce natively (%s)\n%s\n%s" % (e, v["kind"], v["id"], v["msg"].split("\n")[0], " ; ".join(v["inputs"][:40]), log[-600:]))

    # validation of the encoding: path witnesses must take the same course in the real code
    validated, disagree = 0, []
    samples, hard = [], 0
    def val(t):
        u, e, w = t
        rc, out = u.run_native("plain", e, w["inputs"], trace=True)
        tr = re.findall(r"SX-REACHED (.*)", out)
        return t, rc, tr, out
    with ThreadPoolExecutor(JOBS) as ex:
        for t, rc, tr, out in ex.map(val, wits):
            u, e, w = t
            if rc == 0 and tr == w["trace"]:
                validated += 1
                if len(samples) < 6 and w["inputs"]:
                    samples.append(dict(entry=e, inputs=w["inputs"][:24], asserts=len(tr)))
            elif rc == 11 and u.real:
                pass  # rounding moved the input off an equality assumption
            elif rc == 10 and not u.real and "SX-ASSERT-FAILED " in out:
                # the code generated by the repository's compiler breaks an assertion on a path the solver proved for the source
                i = re.search(r"SX-ASSERT-FAILED (.*)", out).group(1)
                if len(reported) < 6 and (e, "native", i) not in seen:
                    seen.add((e, "native", i))
                    os.makedirs(outdir, exist_ok=True)
                    p = os.path.join(outdir, "%s-native-%d.txt" % (e, len(reported)))
                    with open(p, "w") as f:
                        f.write("# property %s, entry %s of harness/%s: compiled by g++ -O1 the path witness fails: %s\n" % (prop, e, u.cfg["file"], i))
                        f.write("# replay: g++ -O1 %s %s harness/replay.cpp -rdynamic -ldl -o replay && ./replay %s %s\n" % (" ".join(u.base), u.src, e, p))
                        f.write("\n".join(w["inputs"]) + "\n")
                    reported.append((p, e, dict(kind="native", id=i, msg="path witness fails in the compiled code")))
            else:
                hard += not u.real  # rounding may lead elsewhere than exact arithmetic
                disagree.append("%s rc=%s inputs=%s\n%s" % (e, rc, " ; ".join(w["inputs"][:30]), out[-300:]))
    if disagree and not reported:
        for d in disagree[:3]:
            print("note: witness of %s" % d)
        if hard:
            problems.append("%d path witnesses took a different course natively" % hard)

    # vacuity: every assertion of the explored entries must be reached
    if unfinished * 2 > len(rows) or (partial and os.environ.get("SX_STRICT")):
        problems += partial
    if not only and not reported and not partial:
        ids = set()
        for u in units:
            for src in [u.src]:
                pass
            ids |= static_ids(u)
        for i in sorted(ids - set(a for a, s in asserts.items() if s["reached"])):
            problems.append("assertion never reached: " + i)

    wall = time.time() - t0
    nassert = sum(s["reached"] for s in asserts.values())
    disc = sum(s["trivial"] + s["normal_form"] + s["solver"] for s in asserts.values())
    cov = dict(
        states=agg["paths"], transitions=agg["insts"], traces_validated_against_impl=validated,
        samples=samples or [dict(entry=r["entry"], inputs=[]) for r in rows[:3]],
        explanation=spec.get("bounds", ""),
        bounds=spec.get("bounds", ""), functions_encoded=sorted(f for f in funcs if "nytl" in f),
        functions_total=len(funcs), stubs=sorted(stubs), entries=rows,
        assertions_checked=nassert, assertions_discharged=disc,
        decided_by=dict(constant_folding=sum(s["trivial"] for s in asserts.values()), normal_form=sum(s["normal_form"] for s in asserts.values()), solver=sum(s["solver"] for s in asserts.values())),
        queries=dict(total=agg["queries"], sat=agg["sat"], unsat=agg["unsat"], unknown=agg["unknown"], cache_hits=agg["cached"], solver_seconds=round(agg["solver_s"], 3), longest_s=round(agg["max_query_s"], 3)),
        forks=agg["forks"], completed_paths=agg["completed"], assumed_away=agg["assumed_away"], undecided=[p[:300] for p in problems + partial],
        witness_disagreements=len(disagree), precision_candidates=precision)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k[0] == prop:
            print("KNOWN-FINDING: property=%s %s%s" % (prop, k[3], "" if k in knownhit else " (not met in this run)"))
    print("%s %s: %d entries, %d paths, %d assertions discharged, %d queries (%.1f s solver), %d witnesses validated, %.1f s" % (
        prop, tier, len(rows), agg["paths"], disc, agg["queries"], agg["solver_s"], validated, wall))
    if reported:
        for p, e, v in reported:
            print("  %s: %s %s: %s" % (e, v["kind"], v["id"], v["msg"].split("\n")[0]))
        for p, e, v in reported:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for p in partial[:12]:
        print("UNDECIDED: " + p)
    if problems:
        for p in problems[:12]:
            print("no answer: " + p)
        return 2
    return 0


def static_ids(u):
    """assertion ids of the functions reachable from the explored entries"""
    rc, out = sh([LLVM + "/llvm-dis", u.bcfile, "-o", "-"], 120)
    strs = {}
    for m in re.finditer(r'^(@[\w.$"]+) = .*? c"((?:[^"\\]|\\.)*)\\00"', out, re.M):
        strs[m.group(1)] = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x.group(1), 16)), m.group(2))
    bodies = {}
    cur = None
    for line in out.split("\n"):
        m = re.match(r"define .*?@(\"[^\"]+\"|[\w.$]+)\(", line)
        if m:
            cur = m.group(1)
            bodies[cur] = []
        elif line == "}":
            cur = None
        elif cur is not None:
            bodies[cur].append(line)
    todo, seen, ids = list(u.entries), set(), set()
    while todo:
        f = todo.pop()
        if f in seen or f not in bodies:
            continue
        seen.add(f)
        for line in bodies[f]:
            if "@" not in line:
                continue
            m = re.search(r"@__sx_assert(?:_eq_f64|_eq_f32)?\(.*?(@[\w.$]+)\)", line)
            if m:
                if m.group(1) in strs:
                    ids.add(strs[m.group(1)])
            for g in re.findall(r"@(\"[^\"]+\"|[\w.$]+)", line):
                if g in bodies:
                    todo.append(g)
    return ids


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as x:  # any error of the machinery is "no answer"
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
