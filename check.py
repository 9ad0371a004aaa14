#!/usr/bin/env python3
"""Run one property check:  ./check.py C05 [--thorough] [--replay FILE]

Compiles the property's harness against the headers in /repo's working tree, runs the exhaustive
exploration (one process per variant, in parallel), rewrites evidence/<id>.json and exits
0 (held on everything explored) / 1 (VIOLATION line) / 2 (the check itself could not run)."""
import json, os, re, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MATHLIB_REPO", "/repo")
INC = os.path.join(REPO, "libs/mathlib/include")
sys.path.insert(0, HERE)
from checks_config import CHECKS  # id -> dict


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) site=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def build(prop, variant, work):
    name = variant["name"]
    exe = os.path.join(work, name)
    cxx = os.environ.get("MC_CXX") or variant.get("cxx", "g++")
    cmd = [cxx, "-std=gnu++14", "-w", "-I" + INC, "-I" + os.path.join(HERE, "harness")]
    cmd += ["-I" + os.path.join(REPO, x) for x in variant.get("inc", [])]
    cmd += variant.get("flags", ["-O2", "-DNDEBUG"])
    cmd += variant.get("defs", []) + os.environ.get("MC_EXTRA_FLAGS", "").split()
    cmd += [os.path.join(HERE, "harness", variant["src"]), "-o", exe] + variant.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return exe if p.returncode == 0 else None, p.stdout


def run(prop, variant, exe, work, thorough, known, replay):
    out = os.path.join(work, variant["name"] + ".json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--property", prop, "--out", out]
    if thorough:
        cmd.append("--thorough")
    for k in known:
        cmd += ["--known", k]
    if replay:
        cmd += ["--replay", replay["section"], str(replay["index"])]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:exitcode=97"
    env["MALLOC_PERTURB_"] = "90"  # heap memory is never zero by chance
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    if res is None:
        if p.returncode == -9:
            return None, "killed (out of memory?)\n" + p.stdout[-3000:]
        if "Sanitizer" in p.stdout or "runtime error" in p.stdout or p.returncode < 0:
            res = {"states": 0, "transitions": 0, "traces": 0, "bounds": "", "sections": {}, "samples": [],
                   "known_hits": {}, "failures": [{"section": "sanitizer", "index": 0, "site": "memory/UB",
                   "detail": p.stdout[-4000:]}]}
        else:
            return None, "harness ended with %d\n%s" % (p.returncode, p.stdout[-3000:])
    return res, p.stdout


def main():
    args = sys.argv[1:]
    prop = args[0]
    thorough = "--thorough" in args or ("--quick" not in args and os.environ.get("VERIF_TIER") == "thorough")
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
        thorough = replay.get("tier") == "thorough"
    cfg = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(os.environ.get("MC_BUILD", os.path.join(HERE, "build")), prop)
    os.makedirs(work, exist_ok=True)
    evid = os.environ.get("MC_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evid, exist_ok=True)
    known = known_findings(prop)
    variants = [v for v in cfg["variants"] if thorough or not v.get("thorough_only")]
    if replay:
        variants = [v for v in variants if v["name"] == replay["variant"]]

    def job(v):
        exe, log = build(prop, v, work)
        if not exe:
            return v, None, "compilation failed:\n" + log
        res, log = run(prop, v, exe, work, thorough, known, replay)
        return v, res, log

    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(job, variants))

    bad = [(v, log) for v, res, log in results if res is None]
    if bad:
        for v, log in bad:
            print("ERROR variant=%s %s" % (v["name"], log[-6000:]))
        sys.exit(2)

    states = sum(r["states"] for _, r, _ in results)
    transitions = sum(r["transitions"] for _, r, _ in results)
    traces = sum(r["traces"] for _, r, _ in results)
    samples, sections, failures, hits = [], {}, [], {}
    for v, r, _ in results:
        per = r["samples"][:40]
        samples += ["%s: %s" % (v["name"], s) for s in per]
        for s, n in r["sections"].items():
            if n["states"] or n["traces"]:
                sections[v["name"] + ":" + s] = n["states"]
        failures += [dict(f, variant=v["name"]) for f in r["failures"]]
        for k, n in r["known_hits"].items():
            hits[k] = hits.get(k, 0) + n
    evidence = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "samples": samples[:60], "exhaustive": not failures,
            "states_per_section": sections,
            "bounds": cfg["bounds"],
            "counting": "states: distinct inputs / abstract states enumerated; transitions: library calls whose "
                        "result was compared with the oracle; traces_validated_against_impl: complete operation "
                        "sequences (or input cases) executed on the real library code and compared step by step",
        },
        "assumptions": cfg.get("assumptions", []) + [
            "IEEE-754 float/double, g++ -std=gnu++14 without -ffast-math",
            "the enumerated finite domains stated in bounds; values outside them are not covered"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if not replay:
        with open(os.path.join(evid, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for k, text in known.items():
        if hits.get(k):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs" %
          (prop, evidence["tier"], states, transitions, traces, time.time() - t0))
    if failures:
        seen = 0
        sites = set()
        for f in failures:
            if f["site"] in sites:
                continue
            sites.add(f["site"])
            path = os.path.join(evid, "%s-replay-%d.json" % (prop, seen))
            if not replay:
                with open(path, "w") as o:
                    json.dump(dict(f, property=prop, tier=evidence["tier"],
                                   how="./check.py %s --replay <this file>" % prop), o, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s: %s" % (f["variant"], f["site"], f["detail"][:1500]))
            seen += 1
            if seen >= 40:
                break
        sys.exit(1)
    if transitions == 0 and not replay:
        print("ERROR nothing was explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
