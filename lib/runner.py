"""Runs the checks: build, explore, confirm, report, write evidence."""
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mcbuild
from props import PROPS

VERIF = mcbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """known: property=<id> at=<harness>/<signature> <what fails>"""
    out = {}
    try:
        lines = open(KNOWN).read().split("\n")
    except OSError:
        return out
    for l in lines:
        m = re.match(r"known: property=(\S+) at=(\S+) (.*)$", l)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def jobs_of(prop):
    """{variant: [build jobs]}"""
    by = {}
    for h in PROPS[prop]["harnesses"]:
        srcs = list(h["src"]) + ["drv.cc"] + (["simdrv.cc"] if h.get("sim") and not h.get("nosimdrv") else [])
        by.setdefault(h.get("variant", "O2"), []).append((h["name"], h.get("sim"), srcs, list(h.get("defs", []))))
    return by


def build_props(props):
    by = {}
    for p in props:
        for v, jobs in jobs_of(p).items():
            have = by.setdefault(v, {})
            for j in jobs:
                have[j[0]] = j
    exes = {}
    for v, jobs in by.items():
        exes.update(mcbuild.build(list(jobs.values()), v))
    return exes


def run_harness(exe, args, timeout):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1", LC_ALL="C.UTF-8", HOME="/nonexistent", TERM="dumb")
    scratch = os.path.join(mcbuild.BUILD, "scratch.%d" % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, env=env, cwd=scratch)
    finally:
        subprocess.run(["find", scratch, "-mindepth", "1", "-delete"])
        try:
            os.rmdir(scratch)
        except OSError:
            pass
    if p.returncode not in (0, 1):
        raise RuntimeError("%s exited with %d\n%s" % (exe, p.returncode, p.stderr[-3000:]))
    return json.loads(p.stdout, strict=False)


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    exes = build_props([prop])
    tb = time.time() - t0
    known = known_findings(prop)
    hit_known = {}
    total = dict(evaluations=0, distinct=0, states=0, transitions=0, traces=0, viol_total=0)
    counters, samples, viols = {}, [], []
    base = ["--seed", str(seed)] + (["--thorough"] if tier == "thorough" else [])
    limit = 800 if tier == "quick" else 6 * 3600
    for h in cfg["harnesses"]:
        if h.get("thorough_only") and tier != "thorough":
            continue
        args = base + list(h.get("args", []))
        r = run_harness(exes[h["name"]], args, limit)
        for k in total:
            total[k] += r[k]
        for k, v in r["counters"].items():
            key = "%s: %s" % (h["name"], k) if len(cfg["harnesses"]) > 1 else k
            counters[key] = counters.get(key, 0) + v
        samples += r["samples"][:2]
        for v in r["violations"]:
            v["harness"], v["args"] = h, args
            viols.append(v)
    seen, reported, unconfirmed = {}, [], []
    for v in viols:
        key = "%s/%s" % (v["harness"]["name"], v["sig"])
        if key in known:
            hit_known[key] = v
            continue
        seen.setdefault(key, v)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    for key, v in seen.items():
        if len(reported) >= 5:
            break
        h = v["harness"]
        exe = exes[h["name"]]
        how = None
        try:
            r = run_harness(exe, v["args"] + ["--replay", v["case"]], 300)
            if any("%s/%s" % (h["name"], x["sig"]) not in known for x in r["violations"]):
                how = "--replay %s" % v["case"]
        except (RuntimeError, subprocess.TimeoutExpired):
            pass
        if not how:
            r = run_harness(exe, v["args"] + ["--shards", str(v["nshards"]), "--only", str(v["shard"])], limit)
            if any("%s/%s" % (h["name"], x["sig"]) not in known for x in r["violations"]):
                how = "--shards %d --only %d" % (v["nshards"], v["shard"])
        if not how:
            unconfirmed.append(key)
            continue
        path = os.path.join("replay", "%s-%d.txt" % (prop, len(reported) + 1))
        with open(os.path.join(VERIF, path), "w") as f:
            f.write("property: %s\nharness: %s\nwhat: %s\n%s\n\nreplay: %s/check --replay %s %s %s\n" % (
                prop, h["name"], v["sig"], v["msg"], VERIF, prop, h["name"], how))
        reported.append((path, key, v["msg"]))
    for key in sorted(hit_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    for path, key, msg in reported:
        print("%s: %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    cov = {"samples": samples[:8], "build_s": round(tb, 1), "counters": counters}
    lvl = cfg["level"]
    if lvl == "model_checking":
        cov.update(states=total["states"], transitions=total["transitions"],
                   traces_validated_against_impl=total["traces"])
        if total["evaluations"]:
            cov["evaluations"] = total["evaluations"]
    else:
        cov.update(evaluations=total["evaluations"], distinct_nontrivial=total["distinct"])
    cov["rule"] = cfg["rule"]
    cov["exhaustive"] = bool(cfg.get("exhaustive", True))
    if unconfirmed:
        cov["not_reproduced"] = unconfirmed
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %s, %.1f s, %s" % (prop, "VIOLATED" if reported else "held", time.time() - t0,
                                  ", ".join("%s=%d" % (k, v) for k, v in total.items() if v and k != "viol_total")))
    return 1 if reported else 0


def main(argv):
    if not argv or argv[0] in ("-h", "--help"):
        print("check PROPERTY [--thorough] | check --setup | check --replay PROPERTY HARNESS ARGS...")
        return 2
    if argv[0] == "--setup":
        build_props(list(PROPS))
        print("built")
        return 0
    if argv[0] == "--replay":
        exes = build_props([argv[1]])
        a = [x for h in PROPS[argv[1]]["harnesses"] if h["name"] == argv[2] for x in h.get("args", [])]
        r = run_harness(exes[argv[2]], a + argv[3:], 3600)
        for v in r["violations"]:
            print("%s: %s" % (v["sig"], v["msg"]))
        return 1 if r["violations"] else 0
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    return check(argv[0], tier)
