"""Runs the checks: compile harness + current /repo to bitcode, explore symbolically, replay natively, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TSE = os.path.join(BUILD, "tse")
RT = os.path.join(BUILD, "rt.bc")
JOBS = 8


def sh(cmd, timeout=300, cwd=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=cwd, env=env, errors="replace")


class CheckError(Exception):
    pass


def ensure_engine():
    src = os.path.join(VERIF, "engine")
    newest = max([os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src)] + [os.path.getmtime(os.path.join(VERIF, "harness", "rt.cpp"))])
    if not all(os.path.exists(x) and os.path.getmtime(x) >= newest for x in (TSE, RT)):
        r = sh(["make", "-j8", "-C", os.path.join(VERIF, "engine")], timeout=900)
        if r.returncode or not os.path.exists(TSE):
            raise CheckError("engine build failed:\n" + r.stdout[-3000:])


def std_of(u):
    return u.get("std", "c++20")


def defs_of(u):
    return ["-D" + d for d in u.get("defs", [])]


def compile_bc(u, wd):
    """harness + Tecs.cc -> optimised bitcode file"""
    n = u["name"]
    f = ["clang++", "-std=" + std_of(u), "-O1", "-Xclang", "-disable-llvm-passes", "-include", VERIF + "/harness/noext.h", "-I" + REPO + "/inc",
         "-I" + VERIF + "/harness", "-emit-llvm", "-c", "-Wno-everything"] + defs_of(u)
    src = os.path.join(VERIF, "harness", u["src"])
    h, t, l, o = (os.path.join(wd, n + x) for x in (".h.bc", ".t.bc", ".l.bc", ".bc"))
    r1 = sh(f + [src, "-o", h])
    if r1.returncode:
        raise CheckError("harness %s does not compile:\n%s" % (n, r1.stdout[-3000:]))
    r2 = sh(f + ["-include", "algorithm", "-include", "functional", REPO + "/src/Tecs.cc", "-o", t])
    if r2.returncode:
        raise CheckError("Tecs.cc does not compile:\n" + r2.stdout[-3000:])
    r = sh(["llvm-link", h, t, RT, "-o", l])
    if r.returncode:
        raise CheckError("llvm-link: " + r.stdout[-2000:])
    keep = ",".join(u.get("entries", ["vp_main"]))
    passes = u.get("passes", "internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce")
    r = sh(["opt", "-passes=" + passes, "--internalize-public-api-list=" + keep, l, "-o", o])
    if r.returncode:
        raise CheckError("opt: " + r.stdout[-2000:])
    for x in (h, t, l):
        os.unlink(x)
    return o


def native_cmd(u, out, flavour):
    src = os.path.join(VERIF, "harness", u["src"])
    base = ["-std=" + std_of(u), "-I" + REPO + "/inc", "-I" + VERIF + "/harness", "-w"] + defs_of(u)
    files = [src, os.path.join(VERIF, "harness", "native.cpp"), "-include", "algorithm", "-include", "functional", REPO + "/src/Tecs.cc"]
    if flavour == "plain":
        return ["g++", "-O1"] + base + files + ["-o", out, "-pthread"]
    if flavour == "asan":
        return ["g++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + base + files + ["-o", out, "-pthread"]
    raise ValueError(flavour)


def run_native(exe, infile, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = sh([exe, infile], timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write("%s %d\n" % (n, v))


class Check:
    def __init__(self, pid, units, tier, seed):
        self.pid, self.units, self.tier, self.seed = pid, units, tier, seed
        self.wd = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
        self.exes = {}
        self.notes = []

    def log(self, *a):
        print(*a, flush=True)

    def native(self, u, flavour):
        k = (u["name"], flavour)
        if k not in self.exes:
            out = os.path.join(self.wd, u["name"] + "." + flavour)
            r = sh(native_cmd(u, out, flavour), timeout=600)
            if r.returncode:
                raise CheckError("native build of %s failed:\n%s" % (u["name"], r.stdout[-3000:]))
            self.exes[k] = out
        return self.exes[k]

    def explore(self, u, bc, budget):
        out = os.path.join(self.wd, u["name"] + ".json")
        cmd = [TSE, bc, "--out", out, "--jobs", str(JOBS), "--budget", "%.1f" % budget, "--seed", str(self.seed)] + u.get("opts", [])
        t0 = time.time()
        r = sh(cmd, timeout=budget + 300)
        el = time.time() - t0
        if r.returncode not in (0,):
            raise CheckError("engine failed on %s (rc %s): %s" % (u["name"], r.returncode, r.stdout[-2000:]))
        parts = []
        for f in sorted(os.listdir(self.wd)):
            if f == u["name"] + ".json" or f.startswith(u["name"] + ".json."):
                d = json.load(open(os.path.join(self.wd, f)))
                if "paths" in d:
                    parts.append(d)
        tot = {"wall_s": round(el, 2)}
        for k in ("paths", "killed", "errors", "instrs", "forks", "branches", "asserts_solver", "asserts_folded", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "left"):
            tot[k] = sum(p[k] for p in parts)
        tot["solver_s"] = round(tot["solver_s"], 3)
        for k in ("reach", "havoc", "errmsgs"):
            m = {}
            for p in parts:
                for a, b in p[k].items():
                    m[a] = m.get(a, 0) + b
            tot[k] = m
        tot["functions"] = sorted(set(x for p in parts for x in p["functions"]))
        viol, seen = [], set()
        for p in parts:
            for v in p["violations"]:
                if v["msg"] not in seen:
                    seen.add(v["msg"])
                    viol.append(v)
        tot["violations"] = viol
        tot["samples"] = [s for p in parts for s in p["samples"]]
        return tot

    def confirm(self, u, v, idx):
        """native replay of a counterexample; returns (confirmed, replay dir, detail)"""
        rd = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(rd, exist_ok=True)
        base = os.path.join(rd, "%s-%d" % (u["name"], idx))
        write_inputs(base + ".in", v["inputs"])
        slow = u.get("replay_timeout", 120)
        detail, ok = [], False
        for fl in ("asan", "plain"):
            exe = self.native(u, fl)
            rc, outp = run_native(exe, base + ".in", slow)
            hit = [l for l in outp.splitlines() if l.startswith("REPLAY-ASSERT")]
            if "REPLAY-MISMATCH" in outp or "REPLAY-ASSUME-FALSE" in outp:
                detail.append("%s: replay diverged: %s" % (fl, outp.strip()[-200:]))
                continue
            if hit or rc != 0:
                ok = True
            detail.append("%s: rc=%s %s" % (fl, rc, " | ".join(hit) if hit else outp.strip()[-600:]))
            if ok:
                break
        with open(base + ".txt", "w") as f:
            f.write("property %s, harness %s (%s), definitions %s, -std=%s\ncounterexample: %s\nat: %s\ninputs (in call order): %s\n" %
                    (self.pid, u["name"], u["src"], " ".join(u.get("defs", [])), std_of(u), v["msg"], v["where"], v["inputs"]))
            f.write("native replay:\n" + "\n".join(detail) + "\n")
            f.write("rebuild: " + " ".join(native_cmd(u, "/tmp/replay", "asan")) + "\nrun: /tmp/replay " + base + ".in\n")
        return ok, base + ".txt", "; ".join(detail)

    def validate_samples(self, u, samples, limit):
        """replay explored paths natively: validates the encoding against the real build"""
        exe = self.native(u, u.get("validate_flavour", "plain"))
        n = bad = 0
        for k, s in enumerate(samples[:limit]):
            p = os.path.join(self.wd, "%s.s%d.in" % (u["name"], k))
            write_inputs(p, s)
            rc, outp = run_native(exe, p, 60)
            n += 1
            if rc != 0 or "REPLAY-END" not in outp or "REPLAY-ASSERT" in outp:
                bad += 1
                self.notes.append("sample path of %s did not replay: rc=%s %s inputs=%s" % (u["name"], rc, outp.strip()[-300:], s))
        return n, bad


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n") if r.returncode == 0 else names


PARTS = None # coverage of the parts of a check that has both kinds of units


def finish(pid, tier, seed, t0, coverage, assumptions, nviol, level="model_checking"):
    if PARTS is not None:
        PARTS.append((coverage, assumptions, nviol))
        return
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def known_findings(pid):
    """lines "known: property=<id> unit=<harness> msg=<text>" of KNOWN_FINDINGS.txt: exactly these violations are not alarms"""
    out = []
    for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) unit=(\S+) msg=(.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


COMMON_ASSUME = [
    "bounded: histories, entity counts and operation counts as listed per harness; anything larger is outside the claim",
    "LLVM IR of clang 18 (-O1, no inlining) of the current /repo sources; memory allocation never fails",
    "exception message texts are stubbed (std::to_string in messages) except in C11; clocks return arbitrary values",
]


def run_seq(pid, units, tier, seed, assumptions):
    """a property decided in sequential mode by one or more harness units"""
    t0 = time.time()
    ensure_engine()
    units = [dict(u) for u in units if tier == "thorough" or u.get("tier", "quick") == "quick"]
    if tier == "thorough":
        for u in units:
            if "tdefs" in u:
                u["defs"] = u["tdefs"]
    c = Check(pid, units, tier, seed)
    nviol = 0
    known = known_findings(pid)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            bcs = list(ex.map(lambda u: compile_bc(u, c.wd), units))
        pool = ThreadPoolExecutor(2)
        tot_budget = 1500.0 if tier == "thorough" else float(os.environ.get("VP_BUDGET", "300"))
        res, viol_out = [], []
        for u, bc in zip(units, bcs):
            left = tot_budget - (time.time() - t0)
            r = c.explore(u, bc, max(5.0, left))
            res.append(r)
            c.log("[%s] %s: %d paths, %d killed, %d unsupported, %d unexplored, %d queries (%.1fs solver), %d violations, %.1fs" %
                  (pid, u["name"], r["paths"], r["killed"], r["errors"], r["left"], r["queries"], r["solver_s"], len(r["violations"]), r["wall_s"]))
            for k, v in enumerate(r["violations"]):
                if (u["name"], v["msg"]) in known:
                    c.log("KNOWN-FINDING: property=%s %s: %s" % (pid, u["name"], v["msg"]))
                    continue
                ok, path, det = c.confirm(u, v, k)
                if ok:
                    nviol += 1
                    viol_out.append((u, v, path))
                    c.log("  %s\n    at %s\n    %s" % (v["msg"], v["where"], det[:400]))
                    c.log("VIOLATION property=%s replay=%s" % (pid, path))
                else:
                    c.notes.append("counterexample not reproduced natively: %s (%s): %s" % (v["msg"], u["name"], det))
                    c.log("  not reproduced natively (not reported): %s: %s" % (v["msg"], det[:600]))
            if nviol:
                break
        # encoding validation: explored paths replayed on the native build
        val = bad = 0
        if not nviol:
            todo = [(u, r["samples"]) for u, r in zip(units, res) if r["samples"] and u.get("validate", True)]
            if tier == "quick":
                todo = todo[:1]
            for u, s in todo:
                n, b = c.validate_samples(u, s, 60 if tier == "thorough" else 24)
                val += n
                bad += b
            for n in c.notes:
                c.log("note: " + n[:800])
            for u, r in zip(units, res):
                for lab in u.get("reach", ["end"]):
                    if not r["reach"].get(lab):
                        raise CheckError("vacuous: harness %s never reaches '%s' (%s)" % (u["name"], lab, list(r["errmsgs"].items())[:3]))
                if r["errors"]:
                    c.log("note: %s: paths abandoned as unsupported: %s" % (u["name"], list(r["errmsgs"].items())[:3]))
            if bad:
                raise CheckError("%d of %d explored paths behave differently natively (encoding invalid)" % (bad, val))
        fn = sorted(set(x for r in res for x in r["functions"]))
        dm = [x for x in demangle(fn) if "Tecs::" in x and not x.startswith("std::")]
        cov = {
            "states": sum(r["paths"] + r["killed"] for r in res), "transitions": sum(r["instrs"] for r in res),
            "traces_validated_against_impl": val,
            "samples": [{"harness": u["name"], "inputs": s} for u, r in zip(units, res) for s in r["samples"][:2]][:10] or [{"harness": units[0]["name"], "inputs": []}],
            "explanation": "states = symbolic execution paths explored, transitions = IR instructions executed on them; a path covers all values of its symbolic inputs",
            "exhaustive": all(r["left"] == 0 and r["errors"] == 0 and r["unknown"] == 0 for r in res),
            "harnesses": [{"name": u["name"], "src": u["src"], "defs": u.get("defs", []), "std": std_of(u), "bounds": u.get("bounds", ""),
                           **{k: r[k] for k in ("paths", "killed", "errors", "left", "instrs", "forks", "branches", "asserts_solver", "asserts_folded", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "wall_s", "reach")},
                           "havocked_externals": r["havoc"], "unsupported": r["errmsgs"]} for u, r in zip(units, res)],
            "queries_discharged": sum(r["queries"] for r in res), "solver_seconds": round(sum(r["solver_s"] for r in res), 3),
            "assertions_checked": sum(r["asserts_solver"] + r["asserts_folded"] for r in res),
            "functions_encoded": len(fn), "tecs_functions_encoded": dm[:400],
            "notes": c.notes[:20],
        }
        finish(pid, tier, seed, t0, cov, COMMON_ASSUME + assumptions, nviol)
        c.log("[%s] %s in %.1fs" % (pid, "VIOLATED" if nviol else "holds within bounds", time.time() - t0))
        return 1 if nviol else 0
    finally:
        shutil.rmtree(c.wd, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ concurrency
CONC_ASSUME = [
    "bounded: 2 threads (3 for the waiting and overtaking queries) running one transaction each (two for the *_x programs), every interleaving of their atomic operations; each lock is tried at most twice per thread (one rollback), other retries are covered by waiting until the value has changed",
    "atomics: sequentially consistent values, release/acquire as written in the source for the happens-before relation; std::atomic wait/notify work as specified; weak compare-exchange does not fail spuriously",
    "a thread's control flow depends on other threads only through the atomics inside the ECS instance; all else is evaluated on the instance the set-up built (3 entities, 2 per-entity components, 1 global component, 3 observers)",
    "reference counts of shared_ptr and the transaction id counter are private to each thread in the encoding",
    "LLVM IR of clang 18 (-O1, no inlining) of the current /repo sources; TECS_SPINLOCK_RETRY_YIELD=-1 (a thread sleeps or yields on every failed attempt)",
]


def conc_native(c, u, bc):
    k = (u["name"], "tsan")
    if k not in c.exes:
        inst, obj, exe = (os.path.join(c.wd, u["name"] + x) for x in (".inst.bc", ".inst.o", ".tsan"))
        rt = os.path.join(c.wd, u["name"] + ".rt.o")
        for cmd in ([TSE, bc, "--conc", "--instrument", inst], ["clang++", "-O1", "-fsanitize=thread", "-Wno-everything", "-c", inst, "-o", obj],
                    ["clang++", "-std=c++20", "-O1", "-c", VERIF + "/harness/replay.cpp", "-o", rt],
                    ["clang++", "-fsanitize=thread", "-rdynamic", obj, rt, "-o", exe, "-pthread"]):
            r = sh(cmd, timeout=600)
            if r.returncode:
                raise CheckError("native build of %s failed: %s\n%s" % (u["name"], " ".join(cmd), r.stdout[-3000:]))
        c.exes[k] = exe
    return c.exes[k]


def conc_replay(c, u, bc, v, idx):
    rd = os.path.join(VERIF, "replays", c.pid)
    os.makedirs(rd, exist_ok=True)
    base = os.path.join(rd, "%s-%d" % (u["name"], idx))
    with open(base + ".in", "w") as f:
        f.write("%d\n" % len(v["threads"]))
        for t in v["threads"]:
            f.write("%s %d %s\n" % (t["func"], t["park"], t["leaf"]))
        for s in v["schedule"]:
            f.write("%d %d %s %d %d\n" % (s[0], s[1], s[2], s[3], s[4]))
    exe = conc_native(c, u, bc)
    ok, outp = False, ""
    for attempt in range(3):
        try:
            r = sh(["setarch", "-R", exe, base + ".in"], timeout=120, env=dict(os.environ, TSAN_OPTIONS="exitcode=66 history_size=7" + ("" if v["kind"] == "race" or c.pid == "S01" else " report_bugs=0")))
            rc, outp = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, outp = "timeout", ""
        done = "REPLAY-SCHEDULE-DONE" in outp
        race = "ThreadSanitizer: data race" in outp
        term = "REPLAY-TERMINATE" in outp
        stuck = "REPLAY-STUCK" in outp
        crash = isinstance(rc, int) and rc not in (0, 7, 9, 66)
        if v["kind"] == "race":
            ok = race or crash
        elif v["kind"] == "throw":
            ok = term or crash or (done and "terminate" not in v["msg"] and "exception" not in v["msg"])
        elif v["kind"] == "distinct":
            ok = "REPLAY-SAME" in outp
        elif v["kind"] in ("stuck", "block", "block3"):
            ok = done and stuck
        else:
            ok = done
        if ok:
            break
    with open(base + ".txt", "w") as f:
        f.write("property %s, harness %s (%s), definitions %s, -std=%s\nquery: %s\n%s\n%s\nthreads:\n" % (c.pid, u["name"], u["src"], " ".join(u.get("defs", [])), std_of(u), v["query"], v["msg"], v["detail"]))
        for i, t in enumerate(v["threads"]):
            f.write("  %d: %s%s, ends: %s %s\n" % (i, t["func"], " (transaction stays open)" if t["park"] else "", t["leaf"], t["leafmsg"]))
        f.write("interleaving (thread, event, L load S store R read-modify-write F failed compare-exchange N notify W wait M mark, offset in the ECS instance, value read, where):\n")
        for s in v["schedule"]:
            f.write("  %d %3d %s +%x %d %s\n" % tuple(s))
        f.write("native replay (rc=%s):\n%s\n" % (rc, outp[-6000:]))
    first = next((l for l in outp.splitlines() if "SUMMARY" in l or "REPLAY-STUCK" in l or "REPLAY-TERM" in l or "DIVERGED" in l), outp.strip()[-200:])
    return ok, base + ".txt", "rc=%s %s" % (rc, first)


def run_conc(pid, units, tier, seed, assumptions):
    t0 = time.time()
    ensure_engine()
    units = [dict(u) for u in units if tier == "thorough" or u.get("tier", "quick") == "quick"]
    for u in units:
        u.setdefault("entries", ["vp_setup", "t_*"])
        u.setdefault("opts", [])
    c = Check(pid, units, tier, seed)
    known = known_findings(pid)
    nviol, nval, reports, fns, samples = 0, 0, [], set(), []
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            bcs = list(ex.map(lambda u: compile_bc(u, c.wd), units))
        tot_budget = 3000.0 if tier == "thorough" else float(os.environ.get("VP_BUDGET", "400"))
        for u, bc in zip(units, bcs):
            lines = list(u["queries"]) + (list(u.get("tqueries", [])) if tier == "thorough" else [])
            # every thread program must be able to run to its end, and all programs of a query together
            funcs = []
            for l in lines:
                for t in l.split()[1:]:
                    if t not in funcs:
                        funcs.append(t)
            full = ["live " + t for t in funcs] + list(u.get("live", [])) + lines
            spec, out = os.path.join(c.wd, u["name"] + ".spec"), os.path.join(c.wd, u["name"] + ".conc")
            open(spec, "w").write("\n".join(full) + "\n")
            left = max(10.0, tot_budget - (time.time() - t0))
            r = sh([TSE, bc, "--conc", "--spec", spec, "--out", out, "--jobs", str(JOBS), "--budget", "%.1f" % left, "--max-events", str(u.get("max_events", 600)), "--max-visits", str(u.get("visits", 2))] + u["opts"], timeout=left + 400)
            if r.returncode:
                raise CheckError("engine failed on %s (rc %s): %s" % (u["name"], r.returncode, r.stdout[-2000:]))
            m = json.load(open(out))
            tot = [[0] * 8 for _ in full]
            found = []
            for i in range(m["jobs"]):
                d = json.load(open("%s.%d" % (out, i)))
                for a, b in zip(tot, d["queries"]):
                    for k in range(8):
                        a[k] += b[k]
                found += d["found"]
            fns.update(m["functions"])
            qrep = [{"query": q, "path_combinations": mm["combos"], "decided": t[2] + t[1] + t[5], "sat": t[1], "unsat": t[2], "unknown": t[3], "not_explored": t[4], "no_conflict": t[5], "access_pairs": t[6], "solver_s": round(t[7], 2)} for q, mm, t in zip(full, m["queries"], tot)]
            live_sat = [f for f in found if f["kind"] == "live"]
            viol, seen = [], set()
            for f in found:
                if f["kind"] == "live" or f["query"] in u.get("controls", []):
                    continue
                if f["query"] in seen:
                    continue
                seen.add(f["query"])
                viol.append(f)
            c.log("[%s] %s: %d programs, %d queries, %d path combinations, %.1fs solver, %.1fs, %d violations" %
                  (pid, u["name"], len(m["threads"]), len(full), sum(t[0] for t in tot), sum(t[7] for t in tot), m["wall_s"] + m["explore_s"], len(viol)))
            for k, v in enumerate(viol):
                if (u["name"], v["query"] + ": " + v["msg"]) in known:
                    c.log("KNOWN-FINDING: property=%s %s: %s: %s" % (pid, u["name"], v["query"], v["msg"]))
                    continue
                if nviol >= 3:
                    break
                ok, path, det = conc_replay(c, u, bc, v, k)
                if ok:
                    nviol += 1
                    c.log("  %s: %s\n    %s\n    %s" % (v["query"], v["msg"], v["detail"], det[:400]))
                    c.log("VIOLATION property=%s replay=%s" % (pid, path))
                else:
                    c.notes.append("counterexample not reproduced natively: %s: %s (%s)" % (v["query"], v["msg"], det))
                    c.log("  not reproduced natively (not reported): %s: %s: %s\n    %s" % (v["query"], v["msg"], det[:600], v["detail"][:600]))
            reports.append((u, m, qrep))
            if nviol:
                break
            # validation of the encoding: witnesses of the live queries are executed natively
            pick = [f for f in live_sat if len(f["threads"]) > 1] or live_sat
            for f in pick[:(12 if tier == "thorough" else 3)]:
                ok, path, det = conc_replay(c, u, bc, f, 900)
                nval += 1
                if len(samples) < 6:
                    samples.append({"query": f["query"], "interleaving": [s[:4] for s in f["schedule"]][:80]})
                if not ok or "ThreadSanitizer" in open(path).read():
                    raise CheckError("an explored interleaving behaves differently natively (encoding invalid): %s: %s" % (f["query"], det))
                os.unlink(path)
            alive = set(f["query"] for f in live_sat)
            dead = [q for q in full if q.startswith("live ") and q not in alive and q not in u.get("controls", [])]
            if dead:
                if len(dead) == sum(q.startswith("live ") for q in full):
                    raise CheckError("vacuous: no complete interleaving for %s (%s)" % (dead[:4], m["errmsgs"][:3]))
                c.log("note: reduced coverage, no complete interleaving within the bounds for %s" % dead[:6])
                c.notes.append("no complete interleaving within the bounds for %s" % dead)
            for q in u.get("controls", []):
                if not any(f["query"] == q for f in found):
                    c.log("note: reduced coverage, expected wait not seen: %s" % q)
                    c.notes.append("expected wait not seen: " + q)
            if m["errmsgs"]:
                c.log("note: paths abandoned as unsupported: %s" % m["errmsgs"][:3])
        fn = sorted(fns)
        dm = [x for x in demangle(fn) if "Tecs::" in x and not x.startswith("std::")]
        allq = [q for _, _, qr in reports for q in qr]
        ths = [t for _, m, _ in reports for t in m["threads"]]
        cov = {
            "states": sum(q["decided"] for q in allq), "transitions": sum(t["instrs"] for t in ths),
            "traces_validated_against_impl": nval, "samples": samples or [{"query": q["query"]} for q in allq[:3]],
            "explanation": "states = decided combinations of symbolic thread paths (each stands for all interleavings and all values of its loads); transitions = IR instructions executed while encoding the thread programs",
            "exhaustive": all(q["not_explored"] == 0 and q["unknown"] == 0 for q in allq) and not any(m["errmsgs"] for _, m, _ in reports) and not c.notes,
            "harnesses": [{"name": u["name"], "src": u["src"], "defs": u.get("defs", []), "std": std_of(u), "bounds": u.get("bounds", ""), "programs": m["threads"], "queries": qr, "unsupported": m["errmsgs"]} for u, m, qr in reports],
            "queries_discharged": sum(q["sat"] + q["unsat"] for q in allq), "solver_seconds": round(sum(q["solver_s"] for q in allq), 2),
            "functions_encoded": len(fn), "tecs_functions_encoded": dm[:400], "notes": c.notes[:20],
        }
        finish(pid, tier, seed, t0, cov, CONC_ASSUME + assumptions, nviol)
        c.log("[%s] %s in %.1fs" % (pid, "VIOLATED" if nviol else "holds within bounds", time.time() - t0))
        return 1 if nviol else 0
    finally:
        shutil.rmtree(c.wd, ignore_errors=True)


def run_both(pid, units, tier, seed, assumptions):
    """sequential units first, then the concurrency units ("conc": True); one evidence file"""
    global PARTS
    t0 = time.time()
    PARTS = []
    rc = run_seq(pid, [u for u in units if not u.get("conc")], tier, seed, assumptions)
    if rc == 0:
        rc = run_conc(pid, [u for u in units if u.get("conc")], tier, seed, assumptions)
    parts, PARTS = PARTS, None
    cov = {}
    for p, _, _ in parts:
        for k, v in p.items():
            if k not in cov:
                cov[k] = v
            elif k == "exhaustive":
                cov[k] = cov[k] and v
            elif k == "explanation":
                cov[k] += "; concurrency units: " + v
            elif isinstance(v, (int, float)):
                cov[k] = round(cov[k] + v, 3)
            elif isinstance(v, list):
                cov[k] = cov[k] + v
    finish(pid, tier, seed, t0, cov, [a for _, x, _ in parts for a in x], sum(n for _, _, n in parts))
    return rc
