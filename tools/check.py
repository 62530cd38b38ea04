#!/usr/bin/env python3
"""Builds and runs the check of one property; see DESIGN.md.

usage: check.py PROPERTY [--tier quick|thorough] | check.py --setup
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OAC_REPO", "/repo")
LIB = REPO + "/src/lib"
SRC = LIB + "/sup/oac-tree"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/.build")
JOBS = os.cpu_count() or 8

CORE = ["base/exceptions.cpp", "base/log_severity.cpp", "base/scope_guard.cpp",
        "procedure/execution_status.cpp", "procedure/procedure_preamble.cpp",
        "runner/breakpoint.cpp", "runner/job_command_queue.cpp", "runner/job_commands.cpp",
        "runner/job_state_monitor.cpp", "runner/job_states.cpp"]

COMMON = ["-std=c++17", "-w", "-pipe", "-no-pie", "-fno-pie", "-I" + VERIF + "/standin", "-I" + LIB,
          "-I" + REPO + "/src", "-I" + REPO + "/src/app", "-I" + VERIF + "/mcrt", "-I" + VERIF + "/harness",
          "-I" + VERIF + "/seq"]
FLAVOUR = {
    # instrumented: under the controlled scheduler
    "mc": ["-O1", "-fno-inline", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_MC"],
    # plain: sequential explorers
    "seq": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_SEQ"],
    # runtime and stand-ins
    "rt": ["-O2", "-g1"],
}
LINK_MC = ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp",
           "-lpthread", "-ldl"]
LINK_SEQ = ["-no-pie", "-rdynamic", "-lpthread", "-ldl"]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree_files(root, ext):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(ext)]
    return sorted(out)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


_hdr = {}


def header_key(roots):
    """Content of all headers a translation unit could include."""
    key = tuple(roots)
    if key not in _hdr:
        parts = []
        for r in roots:
            for f in tree_files(r, (".h", ".hpp", ".inc")):
                parts.append(f)
                parts.append(read(f))
        _hdr[key] = digest(*parts)
    return _hdr[key]


class BuildError(Exception):
    pass


def compile_one(src, flavour, roots, extra=()):
    # the harness calls the main function of a program
    extra = list(extra) + (["-Dmain=ProgramMain"] if os.path.basename(src) == "main.cpp" else [])
    flags = COMMON + FLAVOUR[flavour] + extra
    key = digest(src, read(src), header_key(roots), " ".join(flags))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    cmd = ["g++"] + flags + ["-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)
    return obj


def header_directives(src):
    d = {"lib": "core", "app": []}
    with open(src) as f:
        for line in f:
            if not line.startswith("//"):
                break
            if line.startswith("// LIB:"):
                d["lib"] = line.split(":")[1].strip()
            if line.startswith("// APP:"):
                d["app"] = line.split(":")[1].split()
    return d


def plan(harness, flavour):
    """Translation units needed for a harness: (source, flavour, header roots)."""
    d = header_directives(harness)
    hroots = [VERIF + "/mcrt", VERIF + "/harness", VERIF + "/seq"]
    units = []
    if d["lib"] == "core":
        units += [(os.path.join(SRC, c), flavour, (LIB,)) for c in CORE]
    elif d["lib"] == "full":
        units += [(c, flavour, (LIB, VERIF + "/standin")) for c in tree_files(LIB, ".cpp")]
    for a in d["app"]:
        units.append((os.path.join(REPO, "src/app", a), flavour, (REPO + "/src", VERIF + "/standin")))
    units.append((harness, flavour, tuple(hroots + [REPO + "/src", VERIF + "/standin"])))
    for s in tree_files(VERIF + "/standin/src", ".cpp"):
        units.append((s, "rt", (VERIF + "/standin",)))
    units.append((VERIF + ("/mcrt/mcrt.cpp" if flavour == "mc" else "/mcrt/seqrt.cpp"), "rt", (VERIF + "/mcrt",)))
    return units


def build_many(targets):
    """targets: list of (harness, flavour); returns list of executables."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    plans = [plan(h, f) for h, f in targets]
    units = []
    for p in plans:
        for u in p:
            if u not in units:
                units.append(u)
    # longest first: harnesses, then the rest
    units.sort(key=lambda u: 0 if u[0].startswith(VERIF) else 1)
    objs = {}
    for u in units:
        header_key(u[2])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for u, o in zip(units, ex.map(lambda u: compile_one(u[0], u[1], u[2]), units)):
            objs[u] = o
    if uses_try_locks(o for u, o in objs.items() if u[1] == "mc"):
        os.environ["MC_UNLOCK_POINTS"] = "1"
    exes = []
    for (h, f), p in zip(targets, plans):
        os_ = [objs[u] for u in p]
        exe = os.path.join(BUILD, "bin", os.path.basename(h)[:-4] + "-" + digest(f, *os_))
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            r = subprocess.run(["g++", "-o", tmp] + os_ + (LINK_MC if f == "mc" else LINK_SEQ),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("link of %s failed:\n%s" % (h, r.stdout[-4000:]))
            os.rename(tmp, exe)
        exes.append(exe)
    return exes


TRY_LOCKS = ("pthread_mutex_trylock", "pthread_mutex_timedlock", "pthread_mutex_clocklock",
             "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock")


def uses_try_locks(objs):
    r = subprocess.run(["nm", "-u"] + sorted(objs), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return any(w in TRY_LOCKS for l in r.stdout.split("\n") for w in l.split()[-1:])


def targets_of(prop):
    t = []
    low = prop.lower()
    for d, f in (("harness", "mc"), ("seq", "seq")):
        for s in tree_files(os.path.join(VERIF, d), ".cpp"):
            b = os.path.basename(s)[:-4]
            if b == low or b.startswith(low + "_"):
                t.append((s, f))
    return t


def known_findings(prop):
    """Signatures of recorded findings: list of (needle, description)."""
    out = []
    path = VERIF + "/known_findings.json"
    if os.path.exists(path):
        for k in json.load(open(path)).get("findings", []):
            if k["property"] == prop and k.get("status", "open") == "open":
                out.append(k)
    return out


def match_known(known, scenario, message):
    for k in known:
        if k["scenario"] == scenario and all(n in message for n in k["match"]):
            return k
    return None


def main():
    if sys.argv[1:2] == ["--setup"]:
        os.makedirs(BUILD, exist_ok=True)
        ts = []
        for d, f in (("harness", "mc"), ("seq", "seq")):
            ts += [(s, f) for s in tree_files(os.path.join(VERIF, d), ".cpp")]
        build_many(ts)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ts = targets_of(prop)
    if not ts:
        print("no harness for", prop)
        return 3
    try:
        exes = build_many(ts)
    except BuildError as e:
        print("BUILD ERROR:", e)
        return 3
    t_build = time.time() - t0
    scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    replay_dir = VERIF + "/evidence/replay"
    os.makedirs(replay_dir, exist_ok=True)
    jobs = []
    for (src, flav), exe in zip(ts, exes):
        r = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True)
        for line in r.stdout.split("\n"):
            w = line.split()
            if len(w) >= 3 and (only is None or w[0] == only):
                bound = int(w[1]) if tier == "quick" else int(w[2])
                if bound >= 0:
                    jobs.append((src, flav, exe, w[0], bound))
    env = dict(os.environ)
    env["TMPDIR"] = scratch
    # Time budget: the cap only matters on slow machines; bounds are what limits the exploration.
    per = float(os.environ.get("VERIF_TIME", 60 if tier == "quick" else 600))
    deadline = time.time() + float(os.environ.get("VERIF_TOTAL", 500 if tier == "quick" else 780))

    def run_again(cmd, out, limit):
        if os.path.exists(out):
            os.remove(out)
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", env=env, cwd=scratch, timeout=limit * 2 + 60)

    def run(job):
        src, flav, exe, name, bound = job
        limit = max(5.0, min(per, deadline - time.time()))
        out = os.path.join(scratch, name + ".json")
        ce = os.path.join(replay_dir, "%s-%s.replay" % (prop, name))
        if os.path.exists(ce):
            os.remove(ce)
        cmd = [exe, "--scenario", name, "--bound", str(bound), "--time", str(limit), "--out", out,
               "--ce", ce]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", env=env, cwd=scratch, timeout=limit * 2 + 60)
        except subprocess.TimeoutExpired:
            return job, None, "timeout of the explorer", 99, ce
        if r.returncode == 3 and flav == "mc" and "NONDETERMINISM" in r.stdout:
            # Executions influence each other through process-wide state: explore each in a process of its own.
            cmd.append("--fresh")
            r = run_again(cmd, out, limit)
        res = json.load(open(out)) if os.path.exists(out) else None
        if r.returncode == 1 and res is not None:
            rr = subprocess.run([exe, "--replay", ce, "--trace"], stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=scratch, timeout=300)
            with open(ce, "a") as f:
                f.write("\n# replay: %s%s --replay %s --trace  (binary built from %s)\n# --- trace\n" %
                        ("MC_UNLOCK_POINTS=1 " if "MC_UNLOCK_POINTS" in os.environ else "", exe, ce, src))
                f.write("\n".join("# " + l for l in rr.stdout.split("\n")[-4000:]))
            if rr.returncode != 1:
                # Not a matter of this execution alone: state that outlives an execution (statics, globals).
                # The exploration up to here, which is deterministic, is then the history that fails.
                again = run_again(cmd, out, limit)
                if again.returncode != 1 or not os.path.exists(out) or \
                        json.load(open(out)).get("violation") != res.get("violation"):
                    return job, res, "violation not reproduced by replay: " + rr.stdout[-2000:], 98, ce
                with open(ce, "a") as f:
                    f.write("\n# reproduced by the whole exploration, not by its last execution alone:\n# %s\n"
                            % " ".join(cmd))
        return job, res, r.stdout[-3000:], r.returncode, ce

    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(run, jobs))
    known = known_findings(prop)
    status = 0
    violations = []
    errors = []
    for job, res, text, rc, ce in results:
        name = job[3]
        if rc == 1 and res is not None:
            k = match_known(known, name, res.get("violation", ""))
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            violations.append({"scenario": name, "message": res.get("violation"), "replay": ce})
        elif rc != 0 or res is None:
            errors.append((name, rc, text))
    subprocess.run(["rm", "-rf", "--", scratch])
    rs = [r for _, r, _, _, _ in results if r]
    mc = [r for r in rs if "schedules" in r]
    sq = [r for r in rs if "cases" in r]
    cov = {
        "states": sum(r.get("states", 0) for r in rs),
        "transitions": sum(r.get("transitions", 0) for r in rs),
        "traces_validated_against_impl": sum(r.get("schedules", 0) for r in mc) + sum(r.get("cases", 0) for r in sq),
        "evaluations": sum(r.get("schedules", 0) + r.get("pruned", 0) for r in mc) + sum(r.get("cases", 0) for r in sq),
        "schedules_completed": sum(r.get("schedules", 0) for r in mc),
        "schedules_pruned_as_seen": sum(r.get("pruned", 0) for r in mc),
        "operation_sequences": sum(r.get("cases", 0) for r in sq),
        "scenarios": [{k: r[k] for k in r if k not in ("outcome_samples", "violation")} for r in rs],
        "samples": [s for r in rs for s in r.get("outcome_samples", [])[:2]][:20] or ["none"],
        "rule": "every schedule is an execution of the real code under the controlled scheduler; every "
                "operation sequence is executed on the real code and compared step by step with a reference model",
        "exhaustive_within_bounds": not any(r.get("time_capped") for r in rs) and not errors,
        "time_capped_scenarios": [r["scenario"] for r in rs if r.get("time_capped")],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": ["sup-dto, sup-xml and sup-log are replaced by stand-ins validated with the repository's own unit tests",
                          "sequential consistency for atomics; plain accesses are checked for data races",
                          "64-bit hashes identify happens-before prefixes"]}
    if errors:
        ev["errors"] = [{"scenario": n, "exit": rc, "text": t[-500:]} for n, rc, t in errors]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in violations:
        print("scenario %s: %s" % (v["scenario"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        status = 1
    if not violations and errors:
        for n, rc, t in errors:
            print("ERROR in scenario %s (exit %s): %s" % (n, rc, t[-1500:]))
        status = 3
    print("%s %s: %d scenarios, %d schedules, %d states, %d transitions, %d sequences, %.1fs (build %.1fs)%s" % (
        prop, tier, len(rs), cov["schedules_completed"], cov["states"], cov["transitions"],
        cov["operation_sequences"], time.time() - t0, t_build,
        " TIME-CAPPED: %s" % ",".join(cov["time_capped_scenarios"]) if cov["time_capped_scenarios"] else ""))
    return status


if __name__ == "__main__":
    sys.exit(main())
