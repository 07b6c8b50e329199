#!/usr/bin/env python3
"""Builds a property's harness against /repo's working tree, runs it, writes
evidence/<id>.json. Exit 0: held. Exit 1: a VIOLATION line. Exit 2: no answer.

  check.py C01                 tier and seed from VERIF_TIER, VERIF_SEED
  check.py C01 --replay FILE   runs one replay file
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")

BASE_FLAGS = ["-O1", "-g1", "-w"]
SANITIZE = {
    "address": ["-fsanitize=address,undefined",
                "-fno-sanitize=nonnull-attribute,pointer-overflow",
                "-fno-sanitize-recover=all"],
    "thread": ["-fsanitize=thread"],
    "gcc": ["-fsanitize=address,undefined",
            "-fno-sanitize=nonnull-attribute,pointer-overflow",
            "-fno-sanitize-recover=all"],
    "gcc-address": ["-fsanitize=address"],
    "none": []}


class NoAnswer(Exception):
    pass


def props():
    with open(os.path.join(HARNESS, "props.json")) as f:
        return json.load(f)


def run_env():
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:quarantine_size_mb=16:"
                           "hard_rss_limit_mb=2500:abort_on_error=0:"
                           "detect_stack_use_after_return=0:symbolize=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    return env


def compile_one(job):
    cmd, out = job
    for attempt in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode == 0:
            return None
        if "error:" in r.stdout:
            break
    return (cmd, r.stdout)


def variants(spec):
    """The builds of a property: the first is the specification itself, the
    others change some of its entries."""
    res = [dict(spec, name="main")]
    for v in spec.get("variants", []):
        res.append(dict(spec, **v))
    return res


def build(vs, bdir):
    """Returns the binaries by variant, or (None, log) when the tree does not
    compile as the documentation says it does."""
    jobs, links, bad = [], [], []

    for v in vs:
        comp = v.get("compiler", "clang++")
        flags = BASE_FLAGS + SANITIZE[v.get("sanitize", "address")]
        flags += ["-std=" + v.get("std", "c++17")] + v.get("flags", [])
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + REPO,
               "-I" + HARNESS]
        objs = []
        srcs = [(os.path.join(HARNESS, "props", v["src"]), "part%d" % k,
                 ["-DPART=%d" % k] + v.get("part_flags", {}).get(str(k), []))
                for k in v.get("part_list", range(v["parts"]))]
        srcs += [(os.path.join(HARNESS, "main.cpp"), "main",
                  ["-std=" + v.get("main_std", v.get("std", "c++17"))]),
                 (os.path.join(HARNESS, "support.cpp"), "support", [])]
        for src, out, extra in srcs:
            o = os.path.join(bdir, "%s-%s.o" % (v["name"], out))
            jobs.append(([comp] + flags + inc + extra + ["-c", src, "-o", o],
                         o))
            objs.append(o)
        exe = os.path.join(bdir, "run-" + v["name"])
        links.append((v["name"], exe, [comp] + flags + objs + ["-o", exe] +
                      v.get("libs", [])))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(compile_one, jobs):
            if r:
                bad.append(r)
    if bad:
        log = "\n".join(" ".join(c) + "\n" + o for c, o in bad)
        own = [c for c, _ in bad if "main.cpp" in c[-3] or
               "support.cpp" in c[-3]]
        if own or "error:" not in log:
            raise NoAnswer("the harness does not build:\n" + log[-4000:])
        # does the header compile at all?
        ctl = os.path.join(bdir, "control.o")
        r = subprocess.run(
            ["clang++", "-std=c++17", "-I" + os.path.join(REPO, "include"),
             "-c", os.path.join(HARNESS, "control.cpp"), "-o", ctl],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
            errors="replace")
        if r.returncode:
            raise NoAnswer("the tree does not compile:\n" + r.stdout[-4000:])
        return None, log
    exes = {}
    for name, exe, cmd in links:
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True,
                           errors="replace")
        if r.returncode:
            raise NoAnswer("the harness does not link:\n" + r.stdout[-4000:])
        exes[name] = exe
    return exes, ""


def add_coverage(total, cov, name):
    if total is None:
        cov["builds"] = [name]
        return cov
    for k in ("planned", "evaluations", "distinct_nontrivial", "wall_s"):
        total[k] += cov[k]
    total["slowest_case_cpu_ms"] = max(total["slowest_case_cpu_ms"],
                                       cov["slowest_case_cpu_ms"])
    for k, n in cov["suites"].items():
        total["suites"][name + ": " + k] = n
    for k, n in cov["events"].items():
        total["events"][k] = total["events"].get(k, 0) + n
    total["samples"] += cov["samples"][:1]
    total["failed"] = total["failed"] or cov["failed"]
    total["fail_suite"] = total["fail_suite"] or cov["fail_suite"]
    total["builds"].append(name)
    return total


def known_findings(prop):
    """Lines 'known: property=<id> replay=<file> <what fails>'."""
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if not line.startswith("known: "):
                    continue
                w = line[len("known: "):].split(None, 2)
                if w[0] == "property=" + prop and w[1].startswith("replay="):
                    res.append((w[1][len("replay="):], w[2].strip()))
    return res


def write_evidence(prop, tier, seed, spec, cov, wall, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": violations}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def keep_replay(prop, text):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix=prop + "-", suffix=".txt", dir=d)
    with os.fdopen(fd, "w") as f:
        f.write(text)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    spec = props()[a.prop]
    thorough = a.tier == "thorough"
    t0 = time.time()
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=a.prop + "-", dir=base)
    try:
        if "script" in spec:
            import importlib
            sys.path.insert(0, HARNESS)
            mod = importlib.import_module(spec["script"])
            return mod.run(a, spec, bdir, sys.modules[__name__])
        vs = variants(spec)
        if a.replay:
            name = "main"
            with open(a.replay) as f:
                for line in f:
                    if line.startswith("# build "):
                        name = line.split()[2]
            vs = [v for v in vs if v["name"] == name]
        exes, log = build(vs, bdir)
        if exes is None:
            path = keep_replay(a.prop, log)
            cov = {"evaluations": 1, "distinct_nontrivial": 0,
                   "rule": "The harness, a user of the documented interface, "
                           "has to compile.", "samples": [log[:3000]]}
            write_evidence(a.prop, a.tier, a.seed, spec, cov,
                           time.time() - t0, 1)
            print("uses of the documented interface no longer compile:")
            print("\n".join([l for l in log.splitlines()
                             if "error:" in l][:10]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if a.replay:
            return subprocess.run([exes[vs[0]["name"]], "--replay", a.replay,
                                   "--tmp", bdir], env=run_env()).returncode
        built = time.time() - t0
        rep = os.path.join(bdir, "replay.txt")
        res = os.path.join(bdir, "result.json")
        cov, failed_in = None, None
        for v in vs:
            scale = a.scale * v.get("thorough_scale" if thorough else "scale",
                                    1.0)
            cap = v.get("cap", 1.0) * (560 if thorough else 420)
            for attempt in range(3):
                cmd = [exes[v["name"]], "--seed", str(a.seed), "--tmp", bdir,
                       "--result", res, "--replay-out", rep, "--scale",
                       str(scale), "--cap", str(cap)]
                if thorough:
                    cmd.append("--thorough")
                if a.only:
                    cmd += ["--only", a.only]
                r = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True,
                                   errors="replace")
                if r.returncode != 4 or time.time() - t0 > 400:
                    break
            print(r.stdout[-6000:], end="")
            if r.returncode not in (0, 1):
                raise NoAnswer("the runner ended with %d" % r.returncode)
            with open(res) as f:
                cov = add_coverage(cov, json.load(f), v["name"])
            if r.returncode == 1:
                failed_in = v["name"]
                break
        wall = cov.pop("wall_s")
        cov["run_s"] = round(wall, 2)
        cov["build_s"] = round(built, 2)
        if cov["evaluations"] == 0 and r.returncode == 0:
            raise NoAnswer("nothing was explored")
        if not cov["samples"]:
            cov["samples"] = ["(no non-trivial case before the failure)"]
        for path, what in known_findings(a.prop):
            k = subprocess.run([exes["main"], "--replay", os.path.join(HERE, path),
                                "--tmp", bdir], env=run_env(),
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               errors="replace")
            if k.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
                cov.setdefault("known_findings", []).append(what)
        write_evidence(a.prop, a.tier, a.seed, spec, cov, time.time() - t0,
                       r.returncode)
        if r.returncode == 1:
            with open(rep) as f:
                path = keep_replay(a.prop, "# build %s\n" % failed_in +
                                   f.read())
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        print("%s held on %d cases (%d distinct non-trivial), %.1f s" %
              (a.prop, cov["evaluations"], cov["distinct_nontrivial"],
               time.time() - t0))
        return 0
    except NoAnswer as e:
        print("NO ANSWER: %s" % e)
        return 2
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
