#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]
Builds the library variants and monitors a property needs from /repo's working
tree, runs the monitors (sharded), turns anything they observe into a verdict
and writes evidence/<property>.json.
exit 0: held on everything observed; 1: VIOLATION; 2: the check itself failed."""
import argparse
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from specs import SPECS

VERIF = build.VERIF
NCPU = min(8, os.cpu_count() or 8)
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """[(key, text)] of the listed findings of a property: lines
    'known: property=<id> key=<key> <text>'"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def no_aslr():
    """child side: fixed addresses, which ThreadSanitizer needs on some kernels"""
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                    "handle_segv=1:max_malloc_fill_size=1000000000:malloc_fill_byte=190:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
    "LC_ALL": "C",
})


def stage_cmd(st, tier, seed, libs, mons, x32):
    cmd = []
    if st.get("valgrind"):
        cmd += ["valgrind", "-q", "--error-exitcode=99", "--track-origins=yes" if tier == "thorough" else "--track-origins=no",
                "--num-callers=20", "--errors-for-leak-kinds=none"]
    cmd += [mons[(st["src"], st.get("kind", "plain"))], "--seed", str(seed), "--tier", tier]
    for v in st["libs"]:
        if v in libs:
            cmd += ["--lib", v, libs[v]]
    for k, v in st.get("opt", {}).items():
        cmd += ["--opt", k, str(v)]
    if st.get("x32") and "x32" in x32:
        cmd += ["--opt", "x32", x32["x32"], "--opt", "x32np", x32["x32np"]]
    if st.get("msan"):
        cmd += ["--opt", "msan", x32["msan"]]
    cmd += ["--cpu", str(st.get("cpu", 120))]
    return cmd


def run_procs(jobs, wall):
    """jobs: list of dict(cmd, out, err); runs NCPU at a time"""
    todo = list(jobs)
    live = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < NCPU:
            j = todo.pop(0)
            j["fo"] = open(j["out"], "wb")
            j["fe"] = open(j["err"], "wb")
            j["p"] = subprocess.Popen(j["cmd"], stdout=j["fo"], stderr=j["fe"], stdin=subprocess.DEVNULL, env=ENV, cwd=j["cwd"],
                                      start_new_session=True,
                                      preexec_fn=no_aslr if j["stage"].get("kind") == "tsan" else None)
            j["t0"] = time.time()
            live.append(j)
        for j in list(live):
            rc = j["p"].poll()
            late = time.time() - t0 > wall
            if rc is None and late:
                try:
                    os.killpg(j["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                j["p"].wait()
                rc = "timeout"
            if rc is not None:
                j["rc"] = rc
                j["sec"] = time.time() - j["t0"]
                j["fo"].close()
                j["fe"].close()
                live.remove(j)
                if rc not in (0, "timeout") and j.get("stop"):
                    for o in live:
                        try:
                            os.killpg(o["p"].pid, signal.SIGKILL)
                        except OSError:
                            pass
                        o["p"].wait()
                        o["rc"] = "stopped"
                        o["fo"].close()
                        o["fe"].close()
                    for o in todo:
                        o["rc"] = "stopped"
                    return
        time.sleep(0.01)


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            d = f.read()
        return d[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def head(path, n=6000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def classify(j):
    """-> None (fine), ('viol', text, case), ('hang', text, case), ('error', text)"""
    rc = j["rc"]
    out, err = tail(j["out"]), head(j["err"])
    case = None
    try:
        with open(j["crumb"], "rb") as f:
            case = int(f.read(64).split(b"\n")[0].strip(b"\0") or b"-1")
    except (OSError, ValueError):
        pass
    if rc == 0:
        return None
    if rc == "stopped":
        return None
    if rc == "timeout":
        return ("error", "wall-clock limit reached in case %s" % case)
    if rc == 1:
        m = re.search(r"VIOL case=(-?\d+) (.*)", out)
        if m:
            return ("viol", m.group(2), int(m.group(1)))
        return ("error", "exit 1 without a report: " + (out + err)[-800:])
    if rc == 97:
        return ("hang", "a call did not return within its processor-time limit", case)
    if re.search(r"FATAL: ThreadSanitizer|unexpected memory mapping|failed to allocate|Cannot allocate memory", err):
        return ("error", err[-800:])
    if "HARNESS" in err or "HARNESS" in out:
        return ("error", (out + err)[-800:])
    if rc == 2:
        return ("error", (out + err)[-800:])
    if rc == -signal.SIGKILL:
        return ("error", "killed (memory?)")
    # everything else is the program under test going down: sanitizer reports,
    # guard pages, aborts
    what = "process ended with %s" % ("signal %d" % -rc if isinstance(rc, int) and rc < 0 else "status %s" % rc)
    rep = err
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|==\d+== (?:Invalid|Conditional|Use of|Process terminating)[^\n]*|terminate called[^\n]*)", rep)
    if m:
        what += ": " + m.group(1)
    return ("viol", what, case)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--mul", type=int, default=1)
    ap.add_argument("--stage", type=int, default=-1)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = SPECS[prop]
    t0 = time.time()
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        tier, seed = rep["tier"], rep["seed"]
    stages = [dict(s, idx=i) for i, s in enumerate(spec["stages"]) if tier in s.get("tiers", ("quick", "thorough"))]
    if rep:
        stages = [s for s in stages if s["idx"] == rep["stage"]]
    if a.stage >= 0:
        stages = [s for s in stages if s["idx"] == a.stage]
    libs_needed = sorted({v for s in stages for v in s["libs"]})
    mons_needed = sorted({(s["src"], s.get("kind", "plain")) for s in stages})
    try:
        libs, mons, x32, notes = build.build_all(libs_needed, mons_needed, any(s.get("x32") for s in stages), any(s.get("msan") for s in stages))
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run.", dir=os.path.join(VERIF, "build"))
    errors, viols = [], []
    merged = {"evaluations": 0, "known": {}, "counters": {}, "distinct": set(), "cases": set(), "samples": []}
    try:
        jobs = []
        for st in stages:
            if st.get("only_x32") and "x32" not in x32:
                continue
            base = stage_cmd(st, tier, seed, libs, mons, x32)
            if a.mul != 1:
                base += ["--mul", str(a.mul)]
            n = st.get("shards", NCPU)
            if rep:
                n = 1
            for k in range(n):
                nm = "s%d.%d" % (st["idx"], k)
                j = {"cmd": base + ["--shard", str(k), "--shards", str(n), "--stats", os.path.join(work, nm + ".json"),
                                    "--crumb", os.path.join(work, nm + ".crumb")],
                     "out": os.path.join(work, nm + ".out"), "err": os.path.join(work, nm + ".err"),
                     "crumb": os.path.join(work, nm + ".crumb"), "stats": os.path.join(work, nm + ".json"),
                     "stage": st, "cwd": work, "stop": True, "base": base}
                if rep and rep.get("case", -1) is not None and rep.get("case", -1) >= 0:
                    j["cmd"] += ["--case", str(rep["case"])]
                jobs.append(j)
        run_procs(jobs, spec.get("wall_quick", 600) if tier == "quick" else spec.get("wall_thorough", 3000))
        for j in jobs:
            c = classify(j)
            if c is None:
                pass
            elif c[0] == "error":
                errors.append("stage %d: %s" % (j["stage"]["idx"], c[1]))
            else:
                if c[0] == "hang":
                    # once more, on its own, before it is believed
                    k = dict(j, cmd=j["cmd"] + ["--case", str(c[2])], out=j["out"] + "2", err=j["err"] + "2", crumb=j["crumb"] + "2")
                    run_procs([k], 900)
                    if k["rc"] != 97:
                        errors.append("a case ran over its time limit but not when repeated")
                        continue
                viols.append((j, c[1], c[2]))
            if os.path.exists(j["stats"]):
                try:
                    d = json.load(open(j["stats"]))
                except ValueError:
                    continue
                merged["evaluations"] += d["evaluations"]
                if d.get("known_wrap16"):
                    merged["known"]["wrap16"] = merged["known"].get("wrap16", 0) + d["known_wrap16"]
                for k, v in d["counters"].items():
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
                merged["distinct"].update(d["distinct"])
                # the same case number is another case in another stage
                merged["cases"].update((j["stage"]["idx"], c) for c in d["cases"])
                for s in d["samples"]:
                    if len(merged["samples"]) < 8 and s not in merged["samples"]:
                        merged["samples"].append(s)
        kf = known_findings(prop)
        for key, hits in merged["known"].items():
            lst = [t for k, t in kf if k == key]
            if lst:
                print("KNOWN-FINDING: property=%s %s (%d tiles in this run)" % (prop, lst[0], hits))
            else:
                viols.append((jobs[0], "behaviour '%s' seen %d times and not listed as a known finding" % (key, hits), -1))
        # the run must have observed something
        if not viols and not errors and not rep and a.stage < 0 and a.mul == 1:
            for k, least in spec.get("require", {}).items():
                if k.startswith("32-bit") and "x32" not in x32:
                    continue
                if merged["counters"].get(k, 0) < least:
                    errors.append("inconclusive: only %d of at least %d '%s' observed" % (merged["counters"].get(k, 0), least, k))
        wall = time.time() - t0
        if not rep:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            ev = {
                "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
                "coverage": {
                    "evaluations": merged["evaluations"],
                    "distinct_nontrivial": len(merged["cases"]),
                    "distinct_observations": len(merged["distinct"]),
                    "rule": spec["rule"],
                    "samples": merged["samples"] or ["(none)"],
                    "observed": dict(sorted(merged["counters"].items())),
                    "stages": [{"monitor": s["src"], "build": s.get("kind", "plain"), "libraries": [v for v in s["libs"] if v in libs],
                                "valgrind": bool(s.get("valgrind"))} for s in stages],
                    "exhaustive": False,
                },
                "assumptions": spec.get("assumptions", []) + notes,
                "wall_s": round(wall, 2),
                "violations": len(viols),
            }
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        rcode = 0
        if viols:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            seen = set()
            for j, text, case in viols:
                path = a.replay
                if not rep:
                    path = os.path.join(VERIF, "replays", "%s-s%d-%s-stage%d-case%s.json" % (prop, seed, tier, j["stage"]["idx"], case))
                    with open(path, "w") as f:
                        json.dump({"property": prop, "tier": tier, "seed": seed, "stage": j["stage"]["idx"], "case": case,
                                   "what": text, "report": head(j["err"], 12000),
                                   "how": "python3 bin/run.py %s --replay %s" % (prop, path)}, f, indent=1)
                print("  %s" % text)
                key = text[:60]
                if key in seen:
                    continue
                seen.add(key)
                print("VIOLATION property=%s replay=%s" % (prop, path))
            rcode = 1
        elif errors:
            for e in errors[:5]:
                print("ERROR: %s" % e)
            rcode = 2
        print("%s %s seed=%d: %d cases, %d distinct (%d observations), build %.1fs, total %.1fs -> %s" %
              (prop, tier, seed, merged["evaluations"], len(merged["cases"]), len(merged["distinct"]), tb, wall,
               {0: "held", 1: "VIOLATED", 2: "ERROR"}[rcode]))
        if a.v:
            for k, v in sorted(merged["counters"].items()):
                print("   %-50s %d" % (k, v))
            for st in stages:
                print("   stage %d cpu %s" % (st["idx"], [round(j.get("sec", 0), 1) for j in jobs if j["stage"]["idx"] == st["idx"]]))
        return rcode
    finally:
        shutil.rmtree(work, ignore_errors=True)
        build.prune()


if __name__ == "__main__":
    sys.exit(main())
