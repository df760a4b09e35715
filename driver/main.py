"""Command line of the checks."""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, time
from build import VERIF, WORLD, BuildError, build, log

PARSE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14"]
HOST = ["C10", "C11", "C16", "C17"]
ALL = sorted(PARSE + HOST)
GEN_N = 200
# chunks of the quick tier: sized to take 30 to 60 s on 8 cores
QUICK = {p: 1000 for p in PARSE}
QUICK.update(C08=1500, C10=2400, C11=2400, C16=2400, C17=2400)
QUICK_SECS = 75
THOROUGH_SECS = 560
LEVEL = "exploration"
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
WORKERS = min(8, os.cpu_count() or 1)


def world(mode, *args, timeout=None):
    cmd = [WORLD, mode] + [str(a) for a in args]
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, encoding="utf-8", errors="replace", timeout=timeout)


class Broken(Exception):
    pass


def tmp(name):
    d = os.path.join(VERIF, ".build", "tmp")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{os.getpid()}.{name}")


def batch(prop, seed, gen_seed, chunks, secs, workers, first=0):
    """Runs the chunks of one round spread over worker processes."""

    def one(w):
        out = tmp(f"w{w}.json")
        p = world(
            "batch", f"prop={prop}", f"seed={seed}", f"worker={w}", f"workers={workers}", f"chunks={chunks}",
            f"secs={secs}", f"gen_seed={gen_seed}", f"gen_n={GEN_N}", f"out={out}", timeout=secs + 240,
        )
        if p.returncode != 0:
            raise Broken(f"worker {w} ended with {p.returncode}: {p.stderr[-2000:]}")
        with open(out, encoding="utf-8") as f:
            j = json.load(f)
        os.unlink(out)
        return j

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, range(workers)))


class Total:
    def __init__(self):
        self.runs = self.multi = self.max_steps = 0
        self.count = {}
        self.ended = {}
        self.paths, self.nontrivial, self.traces = set(), set(), set()
        self.samples = []
        self.found = []
        self.broken = []
        self.rounds = []

    def add(self, gen_seed, seed, outs):
        digests = {}
        runs = 0
        for j in outs:
            runs += j["runs"]
            self.multi += j.get("multi", 0)
            self.max_steps = max(self.max_steps, j.get("max_allocs", 0))
            for k, v in j["count"].items():
                self.count[k] = self.count.get(k, 0) + v
            for k, v in j.get("ended", {}).items():
                self.ended[k] = self.ended.get(k, 0) + v
            # a path is a path of one generated program
            self.paths.update((gen_seed, x) for x in j["paths"])
            self.nontrivial.update((gen_seed, x) for x in j["nontrivial"])
            self.traces.update(j["traces"])
            if len(self.samples) < 3:
                self.samples.extend(j["samples"][: 3 - len(self.samples)])
            self.found.extend(j["found"])
            self.broken.extend(j["broken"])
            digests.update(j["digests"])
        self.runs += runs
        self.rounds.append({"program_seed": gen_seed, "run_seed": seed, "runs": runs, "complete_chunks": len(digests)})
        return digests


def known():
    out = []
    try:
        for l in open(KNOWN, encoding="utf-8"):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(\S+) (.*)", l)
            if m:
                out.append({"property": m[1], "match": m[2], "what": m[3].strip()})
    except FileNotFoundError:
        pass
    return out


def ident(j):
    """identifies a violation by the definitions, inputs and faults that fail"""
    k = {x: j.get(x) for x in ("property", "aspect", "history", "session", "source")}
    return hashlib.sha256(json.dumps(k, sort_keys=True).encode()).hexdigest()[:16]


def save(j):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{j['property']}-{ident(j)}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(j, f, indent=1, ensure_ascii=False)
        f.write("\n")
    return path


def report(prop, j, gen_seed, skip):
    """Minimises a failure, writes the replay file and replays it in a fresh process."""
    j["gen_seed"], j["gen_n"], j["skip"] = gen_seed, GEN_N, sorted(skip)
    raw = tmp("raw.json")
    out = tmp("min.json")
    with open(raw, "w", encoding="utf-8") as f:
        json.dump(j, f, ensure_ascii=False)
    args = [f"gen_seed={gen_seed}", f"gen_n={GEN_N}"]
    best = j
    try:
        p = world("shrink", raw, *args, "secs=40", f"out={out}", timeout=150)
        if p.returncode == 1:
            best = json.load(open(out, encoding="utf-8"))
    except subprocess.TimeoutExpired:
        pass
    for cand in (best, j):
        for k in ("gen_seed", "gen_n", "skip"):
            cand[k] = j[k]
        cand["seed"] = j.get("seed")
        path = save(cand)
        p = world("exec", path, *args, f"out={out}", timeout=300)
        if p.returncode == 1:
            return path, cand
        os.unlink(path)
    raise Broken(f"failure did not replay: {j.get('aspect')} {j.get('detail')}")


def refused(prop, seed, bad, found):
    """generated definitions that the compiler refused, smallest first"""
    p = world("specs", f"gen_seed={seed}", f"gen_n={GEN_N}")
    src = {}
    written = set()
    cur = None
    for l in p.stdout.splitlines():
        m = re.match(r"// SPEC (\d+)(.*)", l)
        if m:
            cur = int(m[1])
            src[cur] = ""
            if "written" in m[2]:
                written.add(cur)
        elif cur is not None:
            src[cur] += l + "\n"
    if prop == "C13":
        bad = {i: m for i, m in bad.items() if i in written}
    for i in sorted(bad, key=lambda i: len(src.get(i, "")))[:3]:
        found.append(
            {
                "property": prop,
                "aspect": "does not compile",
                "at": f"generated definition s{i}",
                "detail": bad[i][:1500],
                "source": src.get(i, ""),
                "spec": i,
                "gen_seed": seed,
                "gen_n": GEN_N,
            }
        )


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    host = prop in HOST
    tot = Total()
    paths = []
    selftest = {"chunks_compared": 0, "differences": 0}
    build_s = 0.0
    refused_n = 0
    hits = []
    r = 0
    while True:
        gen_seed = seed * 1000 + r
        run_seed = seed * 7919 + r
        tb = time.time()
        # C10 and C17 look at expansions alone: no need to build the generated programs
        only = [] if prop in ("C10", "C17") else None
        try:
            bad = build(gen_seed, GEN_N, host=host, only=only)
        except BuildError as e:
            raise Broken(f"build failed:\n{e}")
        build_s += time.time() - tb
        refused_n += len(bad)
        if bad and prop in ("C11", "C13", "C16"):
            refused(prop, gen_seed, bad, hits)
        if tier == "quick":
            chunks, secs = QUICK[prop], QUICK_SECS
        else:
            left = THOROUGH_SECS - (time.time() - t0)
            chunks, secs = 10**9, int(max(10, min(left, 110)))
        if not hits:
            outs = batch(prop, run_seed, gen_seed, chunks, secs, WORKERS)
            digests = tot.add(gen_seed, run_seed, outs)
            if tot.found:
                # the smallest one that replays
                order = sorted(tot.found, key=lambda j: len(json.dumps(j)))[:4]
                for i, found in enumerate(order):
                    found["seed"] = run_seed
                    try:
                        path, j = report(prop, found, gen_seed, bad)
                        break
                    except Broken:
                        if i + 1 == len(order):
                            raise
                hits.append(j)
                paths.append(path)
            elif not tot.broken:
                # determinism: some of the same chunks again, in other processes,
                # spread over another number of workers
                n = 8 if tier == "quick" else 16
                again = batch(prop, run_seed, gen_seed, n, 120, 3)
                for o in again:
                    for k, v in o["digests"].items():
                        if k in digests:
                            selftest["chunks_compared"] += 1
                            selftest["differences"] += digests[k] != v
        else:
            paths.extend(save(j) for j in hits[:1])
        r += 1
        if hits or tot.broken or tier == "quick" or time.time() - t0 > THOROUGH_SECS - 60:
            break
    kf = known()
    new = 0
    for path, j in zip(paths, hits):
        k = next((k for k in kf if k["property"] == prop and k["match"] == ident(j)), None)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            continue
        new += 1
        print(f"{prop}: {j['aspect']} at {j['at']}: {j['detail'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    evidence(prop, tier, seed, tot, selftest, build_s, refused_n, time.time() - t0, new)
    if new:
        return 1
    if tot.broken:
        raise Broken("; ".join(tot.broken[:3]))
    if selftest["differences"]:
        raise Broken(f"the simulator is not deterministic: {selftest}")
    if tot.runs == 0:
        raise Broken("nothing was run")
    print(
        f"{prop}: held on {tot.runs} simulated runs, {len(tot.nontrivial)} distinct non-trivial cases, "
        f"{time.time() - t0:.0f} s"
    )
    return 0


RULE = {
    "parse": "A run is one history generated from one seed: operations (parse whole / with a tail / inside a group / "
    "in an attribute, then render and re-parse) on generated derived types, their token streams damaged by channel "
    "faults, their field parsers, peeks and renderers driven by a fault plan, on one task or on several interleaved "
    "ones. Distinct: the hash of (generated type, entry point, sequence of field-parser kinds called, faults fired, "
    "kind of outcome, rendering calls). Non-trivial: a fault fired in it, its stream was damaged, it did not end in a "
    "plain value, or an operation ran nested in it.",
    "host": "A run is one compiler session generated from one seed: definitions (valid, breaking one documented rule, "
    "dump-aborting, same-named, one-detail twins) expanded by the three real derive functions in a seeded order, on "
    "one or several interleaved threads, with a seeded hash key, each compared with its own expansion alone in a "
    "fresh process. Distinct: the hash of a session's definitions and order. Non-trivial: the session holds more "
    "than one definition and at least one that fails, aborts, is repeated or runs on another thread.",
}
REAL = [
    "structmeta-derive: all three derives; for C01-C09 and C12-C14 as compiled by rustc into the generated programs, for "
    "C10, C11, C16 and C17 the same source compiled as a library",
    "structmeta: helpers.rs (argument name resolution, look-ahead), arg_types.rs",
    "syn, quote, proc-macro2 (non-compiler token streams), std",
]
STUB = [
    "field types' Parse, Peek and ToTokens: simulated (probe types) or wrapped real syn types",
    "thread scheduling: seeded decisions at every callback and at chosen heap allocations",
    "heap allocator: counting wrapper over the system allocator (step budget, preemption points)",
    "hash-map keys: getrandom replaced by a seeded stream",
    "environment variables, clocks, thread names, current directory: seeded stand-ins while an operation runs",
    "rustc's macro server: replaced by proc-macro2's own implementation in the compiler world",
]


def evidence(prop, tier, seed, tot, selftest, build_s, refused_n, wall, violations):
    os.makedirs(EVID, exist_ok=True)
    host = prop in HOST
    c = tot.count
    pick = lambda pre: {k[len(pre):]: v for k, v in sorted(c.items()) if k.startswith(pre)}
    search = max(wall - build_s, 0.001)
    steps = pick("n ")
    cov = {
        "evaluations": c.get("n operations", c.get("n expansions", tot.runs)),
        "simulated_runs": tot.runs,
        "distinct_nontrivial": len(tot.nontrivial),
        "rule": RULE["host" if host else "parse"],
        "samples": tot.samples[:3],
        "distinct_cases": len(tot.paths),
        "distinct_interleavings": len(tot.traces),
        "multi_task_runs": tot.multi,
        "runs_per_hour": int(tot.runs / search * 3600),
        "seeds_per_hour": int(tot.runs / search * 3600),
        "simulated_time": "the code under test has no clock; simulated time is counted in steps (callbacks and heap allocations)",
        "steps": steps,
        "max_steps_of_one_operation": tot.max_steps,
        "faults_fired": pick("fault "),
        "conditions_reached": pick("reached "),
        "abnormal_ends": tot.ended,
        "rounds": tot.rounds,
        "generated_definitions_refused_by_compiler": refused_n,
        "determinism_selftest": selftest,
        "real_components": REAL,
        "stubbed_components": STUB,
        "build_s": round(build_s, 1),
    }
    j = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": cov,
        "assumptions": [
            "field parsers and renderers are deterministic given their own input, as the simulator's are",
            "the executable model in harness/simcore/src/model.rs states the documented rules correctly",
            "the interpreter proc-macro2 falls back to outside rustc lexes and prints like rustc's",
        ],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(EVID, f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as f:
        json.dump(j, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(path):
    j = json.load(open(path, encoding="utf-8"))
    prop = j["property"]
    if j["aspect"] == "does not compile":
        # the definition and what it is made of, nothing else
        ids = closure(j)
        bad = build(j["gen_seed"], j["gen_n"], host=False, only=ids)
        if j["spec"] in bad:
            print(bad[j["spec"]])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("not reproduced")
        return 0
    build(j["gen_seed"], j["gen_n"], host="session" in j, only=[] if "session" in j else None)
    out = tmp("replay.json")
    p = world("exec", path, f"gen_seed={j['gen_seed']}", f"gen_n={j['gen_n']}", f"out={out}")
    if p.returncode == 1:
        r = json.load(open(out, encoding="utf-8"))
        print(f"{prop}: {r['aspect']} at {r['at']}: {r['detail']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if p.returncode != 0:
        raise Broken(p.stderr[-2000:])
    print(p.stdout.strip())
    return 0


def closure(j):
    ids = {j["spec"]}
    p = world("specs", f"gen_seed={j['gen_seed']}", f"gen_n={j['gen_n']}")
    src = {}
    cur = None
    for l in p.stdout.splitlines():
        m = re.match(r"// SPEC (\d+)", l)
        if m:
            cur = int(m[1])
            src[cur] = ""
        elif cur is not None:
            src[cur] += l + "\n"
    todo = [j["spec"]]
    while todo:
        for m in re.finditer(r"super\s*::\s*s(\d+)\s*::", src.get(todo.pop(), "")):
            i = int(m[1])
            if i not in ids:
                ids.add(i)
                todo.append(i)
    return sorted(ids)


def main(a):
    try:
        if a and a[0] == "setup":
            build(int(os.environ.get("VERIF_SEED", "1")) * 1000, GEN_N)
            print("built")
            return 0
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            i = a.index("--tier")
            tier = a[i + 1]
            a = a[:i] + a[i + 2:]
        if len(a) == 1 and a[0] in ALL and tier in ("quick", "thorough"):
            return check(a[0], tier)
    except (Broken, BuildError, subprocess.TimeoutExpired) as e:
        log(f"ERROR: {e}")
        return 2
    log(__doc__)
    return 2
