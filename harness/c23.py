"""C23: scripts/bench.py, run on stand-ins for the benchmark programs that
print generated times, reports the best time of every benchmark."""
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

CONTAINERS = ["segmented_tree_seq", "btree_seq", "bpt_sequence", "avl_array",
              "deque", "vector"]
COUNTS = {("single", 8): [[256], [7936], [246016], [7626496]],
          ("single", 64): [[32], [992], [30752], [953312]],
          ("range", 8): [[1, 7626496], [31, 246016], [961, 7936], [29791, 256]],
          ("range", 64): [[1, 953312], [31, 30752], [961, 992], [29791, 32]]}
RULE = ("A case is a set of benchmark names (the real fourteen, or made up, in any "
        "order) and a seed, from which stand-ins for the 24 benchmark programs draw "
        "their times, of two to ten digits, plain or as a stream prints them, anew for every run; the script runs "
        "them all and its reports are compared with the least time that was printed. "
        "Non-trivial: for a benchmark, container and size, the least time was "
        "neither that of the first nor that of the last run.")
REAL = ["Insert values"] + ["Accumulate %s%s" % (d, b)
                            for d in ("forward", "backward")
                            for b in ("", " by 1", " by 10", " by 100", " by 1000",
                                      " by 10000")] + ["Erase values"]
M64 = (1 << 64) - 1


class Fail(Exception):
    pass


def mix(h, s):
    for b in s.encode():
        h = ((h ^ b) * 1099511628211) & M64
    return ((h ^ 31) * 1099511628211) & M64


def thousandths(case, words, bench, run):
    h = 1469598103934665603
    for w in words:
        h = mix(h, w)
    v = mix(h ^ case["seed"], bench)
    v ^= run * 0x9E3779B97F4A7C15 & M64
    v ^= v >> 29
    v = v * 0xBF58476D1CE4E5B9 & M64
    v ^= v >> 32
    return v % 10 ** (case["digits"] + 1)


def milliseconds(case, words, bench, run):
    t = thousandths(case, words, bench, run)
    return float("%g" % (t / 1000.0)) if case["six"] else t / 1000.0


def generate(rng):
    if rng.random() < 0.4:
        names = list(REAL)
    else:
        words = ["Insert", "values", "Erase", "sort", "Merge", "by", "10", "1", "x", "Jump"]
        names = []
        low = set()
        for _ in range(rng.randint(1, 8)):
            n = " ".join(rng.choice(words) for _ in range(rng.randint(1, 4)))
            if n.lower() not in low:
                low.add(n.lower())
                names.append(n)
    return {"names": names, "seed": rng.getrandbits(63), "digits": rng.randint(1, 9),
            "six": rng.random() < 0.3}


def run_case(case, tools, repo, tmp):
    """Returns the number of tables in which the best run was an inner one."""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        bins, out = os.path.join(d, "bin"), os.path.join(d, "out")
        os.mkdir(bins)
        os.mkdir(out)
        for c in CONTAINERS:
            for kind, width in COUNTS:
                os.symlink(tools, os.path.join(bins, "%s_%s_%d" % (kind, c, width)))
        with open(os.path.join(bins, "plan"), "w") as f:
            f.write("%d %d %d\n" % (case["seed"], case["digits"], case["six"]))
            f.write("".join(n + "\n" for n in case["names"]))
        stubs = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
        plots = os.path.join(d, "plots")
        env = dict(os.environ, PYTHONPATH=stubs, PLOT_LOG=plots,
                   PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
        try:
            r = subprocess.run(["python3-vt", os.path.join(repo, "scripts/bench.py"), bins, out],
                               env=env, cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            raise Fail("the script does not end")
        if r.returncode:
            raise Fail("the script ends with %d: %s" % (r.returncode, r.stdout[-600:]))
        return judge(case, bins, out, plots)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(case, bins, out, plots):
    calls = {}
    with open(os.path.join(bins, "log")) as f:
        for line in f:
            w = line.split()
            calls.setdefault(w[0], {}).setdefault(tuple(w[1:]), 0)
            calls[w[0]][tuple(w[1:])] += 1
    inner = 0
    table = {}
    for (kind, width), counts in COUNTS.items():
        workloads = None
        for c in CONTAINERS:
            prog = "%s_%s_%d" % (kind, c, width)
            got = calls.get(prog, {})
            if workloads is None:
                workloads = set(got)
            if set(got) != workloads:
                raise Fail("%s was not given the workloads of the other containers: %s, %s" %
                           (prog, sorted(got), sorted(workloads)))
            for sizes in counts:
                k = len(sizes)
                args = [a for a in got if list(a[:k]) == [str(s) for s in sizes]]
                if len(args) != 1 or len(args[0]) != k + 2:
                    raise Fail("%s was run with %s for %s" % (prog, args, sizes))
                runs = got[args[0]]
                if runs < 2:
                    raise Fail("%s was run %d times with %s" % (prog, runs, args[0]))
                if runs != list(got.values())[0]:
                    raise Fail("%s was run %s times" % (prog, sorted(got.values())))
                for b in case["names"]:
                    t = [milliseconds(case, (prog,) + args[0], b, r) for r in range(runs)]
                    best = min(t)
                    if best < t[0] and best < t[-1]:
                        inner += 1
                    table.setdefault((kind, width, b), {}).setdefault(c, []).append(best)
            if len(got) != len(counts):
                raise Fail("%s was run with %s" % (prog, sorted(got)))
    files = set(os.listdir(out))
    drawn, bars = {}, []
    if os.path.exists(plots):
        with open(plots) as f:
            for line in f:
                x = json.loads(line)
                if "bar" in x:
                    bars.append(x["bar"])
                else:
                    drawn[os.path.basename(x["save"])] = bars
                    bars = []
    for (kind, width, b), rows in table.items():
        base = "%s-%s-%d" % (b.lower().replace(" ", "_"), kind, width)
        name = base + ".txt"
        if name not in files:
            raise Fail("there is no report %s" % name)
        files.remove(name)
        with open(os.path.join(out, name)) as f:
            lines = f.read().split("\n")
        labels = ["x".join(str(s) for s in sizes) for sizes in COUNTS[kind, width]]
        if lines[0] != "#container," + ",".join(labels):
            raise Fail("the header of %s is %s" % (name, lines[0]))
        if lines[-1] != "" or len(lines) != len(CONTAINERS) + 2:
            raise Fail("%s has %d lines" % (name, len(lines)))
        seen = {}
        for line in lines[1:-1]:
            w = line.split(",")
            if w[0] in seen:
                raise Fail("%s has %s twice" % (name, w[0]))
            seen[w[0]] = [float(x) for x in w[1:]]
        for c in CONTAINERS:
            want = rows[c]
            if c not in seen or not same(seen[c], want):
                raise Fail("%s says %s of %s; the best times were %s" %
                           (name, seen.get(c), c, want))
        if drawn:
            got = drawn.get(base + ".svg")
            if got is None:
                raise Fail("%s.svg was not drawn" % base)
            if got:
                want = sorted(rows[c] for c in CONTAINERS)
                got = sorted(got)
                if len(got) != len(want) or not all(map(same, got, want)):
                    raise Fail("%s.svg shows %s; the best times were %s" % (base, got, want))
    left = [f for f in files if f.endswith(".txt")]
    if left:
        raise Fail("a report of nothing that was run: %s" % left)
    return inner


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))


def shrink(case, why, judge_case):
    deadline = time.time() + 60
    changed = True
    while changed and time.time() < deadline:
        changed = False
        tries = [dict(case, names=case["names"][:k] + case["names"][k + 1:])
                 for k in range(len(case["names"])) if len(case["names"]) > 1]
        if case["six"]:
            tries.append(dict(case, six=False))
        if case["digits"] > 1:
            tries.append(dict(case, digits=case["digits"] - 1))
        for t in tries:
            if time.time() > deadline:
                break
            w = judge_case(t)
            if w:
                case, why, changed = t, w, True
                break
    return case, why


def run(a, spec, bdir, check):
    t0 = time.time()
    tool = os.path.join(bdir, "program")
    r = subprocess.run(["gcc", "-O1", os.path.join(check.HARNESS, "stubs/program.c"), "-o", tool],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise check.NoAnswer("the stand-in does not build:\n" + r.stdout[-2000:])
    built = time.time() - t0

    def judge_case(case):
        try:
            run_case(case, tool, check.REPO, bdir)
            return None
        except Fail as e:
            return str(e)

    if a.replay:
        with open(a.replay) as f:
            case = json.loads([l for l in f if not l.startswith("#")][0])
        why = judge_case(case)
        print("FAILED: " + why if why else "held")
        return 1 if why else 0
    n = int((2400 if a.tier == "thorough" else 120) * a.scale)
    rng = random.Random(a.seed)
    cases = [generate(rng) for _ in range(n)]
    state = {"done": 0, "nontrivial": set(), "inner": 0, "tables": 0, "fail": None}
    stop = time.time() + (560 if a.tier == "thorough" else 420)

    def one(k):
        if state["fail"] or time.time() > stop:
            return
        try:
            inner = run_case(cases[k], tool, check.REPO, bdir)
            why = None
        except Fail as e:
            inner, why = 0, str(e)
        state["done"] += 1
        state["tables"] += 96 * len(cases[k]["names"])
        state["inner"] += inner
        if inner:
            state["nontrivial"].add(json.dumps(cases[k]))
        if why and not state["fail"]:
            state["fail"] = (cases[k], why)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(n)))
    if not state["done"]:
        raise check.NoAnswer("nothing was explored")
    cov = {"evaluations": state["done"], "distinct_nontrivial": len(state["nontrivial"]),
           "rule": RULE, "samples": [json.dumps(c) for c in cases[:3]],
           "best_times_compared": state["tables"],
           "best_times_of_an_inner_run": state["inner"], "build_s": round(built, 2)}
    rc = 1 if state["fail"] else 0
    if rc:
        case, why = shrink(*state["fail"], judge_case)
        print("FAILED: " + why)
        path = check.keep_replay(a.prop, "# %s\n%s\n" % (why.replace("\n", " "), json.dumps(case)))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    check.write_evidence(a.prop, a.tier, a.seed, spec, cov, time.time() - t0, rc)
    if not rc:
        print("%s held on %d cases (%d distinct non-trivial), %.1f s" %
              (a.prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return rc
