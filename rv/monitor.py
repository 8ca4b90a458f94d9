"""
Run one check: deterministic workload chunks in forked workers, monitors that judge every case, evidence.

A check module has
    ID, RULE, ASSUME (list)
    plan(tier) -> list of (kind, number of chunks, cases per chunk)
    gen(kind, rng) -> a JSON-able case
    judge(case, obs) -> calls obs.violate(mechanism, detail) for every violation it observes
    NEED (dict counter -> minimum) : below this the run observed too little to say anything
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 8.0  # SECONDS OF CPU FOR ONE PIECE OF REAL WORK; TYPICAL IS UNDER 0.01


class Hang(BaseException):
    """the real code used more CPU than any plausible run of this case"""


def _on_alarm(*a):
    raise Hang()


class guard(object):
    """CPU-time limit around the real code.  CPU time of this process, so machine load does not matter"""

    def __init__(self, limit=CPU_LIMIT):
        self.limit = limit

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, self.limit, 0.2)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode("utf8", "surrogatepass")).hexdigest()[:16]


class Obs(object):
    """what the monitors observed"""

    MAX_V = 4

    def __init__(self):
        self.n = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.violations = []
        self.samples = []
        self.seen = set()
        self.nontrivial = False
        self.case = None

    def hit(self, name, k=1):
        self.n[name] += k

    def mark(self):
        """this case is a non-trivial one"""
        self.nontrivial = True

    def distinct(self, name, value):
        self.sets[name].add(hashlib.sha1(repr(value).encode("utf8", "surrogatepass")).digest()[:6])

    def violate(self, mech, detail):
        self.violations.append({"mech": mech, "detail": str(detail)[:3000], "case": self.case})

    def out(self):
        return (self.n, {k: v for k, v in self.sets.items()}, self.violations, self.samples, self.seen)


_HARNESS = (OSError, MemoryError)


def judge_one(mod, case, obs):
    obs.case = case
    obs.nontrivial = False
    obs.n["evaluations"] += 1
    try:
        mod.judge(case, obs)
    except Hang:
        obs.violate("hang", "the real code did not finish in %s s of CPU time" % CPU_LIMIT)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if obs.nontrivial:
        h = case_hash(case)
        if h not in obs.seen:
            obs.seen.add(h)
            if len(obs.samples) < 2:
                obs.samples.append(case)


def _chunk(args):
    name, kind, index, count, seed, deadline = args
    mod = importlib.import_module("rv.checks." + name)
    signal.signal(signal.SIGPROF, _on_alarm)
    sys.setrecursionlimit(6000)
    obs = Obs()
    rng = random.Random("%s/%s/%s/%s" % (name, kind, index, seed))
    stopped = False
    err = None
    try:
        for i in range(count):
            if time.time() > deadline:
                stopped = True
                break
            case = mod.gen(kind, rng)
            if case is None:
                obs.n["not_generated"] += 1
                continue
            case["kind"] = kind
            judge_one(mod, case, obs)
            if len(obs.violations) >= obs.MAX_V:
                break
    except Exception:
        err = "chunk %s/%s: %s\ncase=%s" % (kind, index, traceback.format_exc(), json.dumps(obs.case, default=str)[:2000])
    return obs.out() + (stopped, err)


def load_findings(pid):
    """known findings and repaired defects for this property"""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % pid):
                head, case = line.split(" | case=", 1)
                known.append((head[len("known: property=%s " % pid) :], json.loads(case)))
    regress = []
    path = os.path.join(VERIF, "corpus", "regress.jsonl")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            if line.strip():
                d = json.loads(line)
                if d["property"] == pid:
                    regress.append(d["case"])
    return known, regress


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    return d


def run(name, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("rv.checks." + name)
    pid = mod.ID
    signal.signal(signal.SIGPROF, _on_alarm)
    sys.setrecursionlimit(6000)

    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        obs = Obs()
        judge_one(mod, d["case"], obs)
        for v in obs.violations:
            print(v["mech"], v["detail"])
        print("VIOLATION property=%s replay=%s" % (pid, argv[argv.index("--replay") + 1]) if obs.violations else "held")
        return 1 if obs.violations else 0

    total = Obs()
    errors = []
    known_lines = []
    known, regress = load_findings(pid)
    for what, case in known:
        o = Obs()
        judge_one(mod, case, o)
        if o.violations:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))
        total.hit("known_finding_probes")
    for case in regress:
        judge_one(mod, case, total)
        total.hit("regression_cases")
    if hasattr(mod, "fixed_cases"):
        for case in mod.fixed_cases(tier):
            judge_one(mod, case, total)
            total.hit("directed_cases")

    limit = 240 if tier == "quick" else 780
    deadline = t0 + limit
    tasks = []
    plan = mod.plan(tier)
    most = max(c for _, c, _ in plan) if plan else 0
    for i in range(most):  # interleave kinds so that a deadline cuts all of them alike
        for kind, chunks, count in plan:
            if i < chunks:
                tasks.append((name, kind, i, count, seed, deadline))
    stopped = 0
    known_hashes = {case_hash(c) for _, c in known}
    if tasks:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(WORKERS, maxtasksperchild=getattr(mod, "TASKS_PER_CHILD", 20)) as pool:
            it = pool.imap_unordered(_chunk, tasks)
            for _ in range(len(tasks)):
                try:
                    n, sets, viol, samples, seen, stop, err = it.next(timeout=max(30, deadline - time.time() + 60))
                except multiprocessing.TimeoutError:
                    # a worker that neither ends nor answers: the CPU guard cannot interrupt it
                    total.case = None
                    total.violate("stuck", "a worker gave no answer; the real code never returned (deadlock?)")
                    pool.terminate()
                    break
                total.n.update(n)
                for k, v in sets.items():
                    total.sets[k] |= v
                total.violations.extend(viol)
                if len(total.samples) < 8:
                    total.samples.extend(samples[:1])
                total.seen |= seen
                stopped += bool(stop)
                if err:
                    errors.append(err)
                if len(total.violations) >= 24:
                    pool.terminate()
                    break

    violations = [v for v in total.violations if v["case"] is None or case_hash({k: x for k, x in v["case"].items()}) not in known_hashes]
    # EVIDENCE
    counters = {k: v for k, v in sorted(total.n.items()) if k != "evaluations"}
    distinct = {k: len(v) for k, v in sorted(total.sets.items())}
    coverage = {
        "evaluations": total.n["evaluations"],
        "distinct_nontrivial": len(total.seen),
        "rule": mod.RULE,
        "samples": total.samples[:5] or [v["case"] for v in violations[:2]],
        "observed_events": counters,
        "distinct_observed": distinct,
        "chunks_cut_by_deadline": stopped,
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True, default=str)
        f.write("\n")

    for line in known_lines:
        print(line)
    print("%s %s seed=%d evaluations=%d nontrivial=%d %s distinct=%s wall=%.1fs" % (pid, tier, seed, total.n["evaluations"], len(total.seen), counters, distinct, time.time() - t0))
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"], default=str)))
        shown = set()
        for v in violations:
            if v["mech"] in shown and len(shown) < 5 and len(violations) > 5:
                continue
            shown.add(v["mech"])
            path = os.path.join(replay_dir(), "%s-%s.json" % (pid, case_hash([v["mech"], v["case"]])))
            with open(path, "w") as f:
                json.dump({"property": pid, **v}, f, indent=1, default=str)
            print("  %s: %s" % (v["mech"], v["detail"][:1500]))
            print("  case: %s" % json.dumps(v["case"], default=str)[:1200])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(shown) >= 6:
                break
        return 1
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        return 2
    need = dict(getattr(mod, "NEED", {}))
    short = {k: (total.n[k] if k in total.n else distinct.get(k, 0), v) for k, v in need.items() if (total.n[k] if k in total.n else distinct.get(k, 0)) < v}
    if short:
        sys.stderr.write("%s: too little observed: %s\n" % (pid, short))
        return 3
    return 0
