"""Runs the check of one property.

  check <property>                 explore (VERIF_SEED, VERIF_TIER=quick|thorough)
  check <property> --replay FILE   run one recorded failing history again

What a check does, for every campaign of its property (campaigns.py):
 - bounded models: TLC explores a specification with small constants and decides the property
   on every state and transition (an error there is an error of the specification);
 - conformance: histories (random, or behaviours exported from a bounded model) are executed on
   the code under test, recorded, and every step is validated by TLC against the specification.
"""
import json
import multiprocessing
import os
import resource
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
_cache = tempfile.mkdtemp(prefix="estrade-pyc-")
sys.pycache_prefix = _cache
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ESTRADE_REPO", "/repo")
sys.path[:0] = [REPO, HERE]

import core  # noqa: E402
import campaigns  # noqa: E402
import findings  # noqa: E402

PROCS = int(os.environ.get("VERIF_PROCS", "8"))
BATCH = 1500          # histories validated by one run of TLC
BATCH_BYTES = 30e6


def prepare():
    core.quiet_logging()
    limit = 4 << 30
    resource.setrlimit(resource.RLIMIT_DATA, (limit, limit))


def one(task):
    """Execute one history on the code under test: (task, trace as text, events, hang?)."""
    camp, seed, k, item = task
    try:
        trace = campaigns.BY_NAME[camp].trace(seed, k, item)
        hang = any(e.get("ok") == "hang" for e in trace["ev"])
        if hang:    # a machine may stand still for a moment
            trace = campaigns.BY_NAME[camp].trace(seed, k, item)
            hang = any(e.get("ok") == "hang" for e in trace["ev"])
        return task, json.dumps(trace, separators=(",", ":")), len(trace["ev"]), hang
    except BaseException as e:  # the scenario cannot even be executed
        return task, None, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()), False


def some(tasks):
    out = []
    for t in tasks:
        out.append(one(t))
        if out[-1][1] is None or out[-1][3]:
            break
    return out


def execute(tasks, deadline):
    """Run the histories in worker processes; stops early when the code under test hangs."""
    done, hangs = [], 0
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(PROCS, initializer=prepare)
    try:
        size = max(1, min(16, len(tasks) // (4 * PROCS)))
        chunks = [tasks[k:k + size] for k in range(0, len(tasks), size)]
        it = pool.imap_unordered(some, chunks)
        for _ in range(len(chunks)):
            try:
                r = it.next(timeout=max(1, deadline - time.time()))
            except multiprocessing.TimeoutError:
                if not done:
                    done.append((tasks[0], None, "no history came to an end", True))
                break
            done.extend(r)
            hangs += bool(r[-1][3]) or r[-1][1] is None
            if hangs >= 3:
                break
    finally:
        pool.terminate()
        pool.join()
    done.sort(key=lambda r: (r[0][0], str(r[0][1]), r[0][2]))
    return done


def batches(done):
    out, size = [], 0
    for r in done:
        out.append(r)
        size += len(r[1])
        if len(out) >= BATCH or size > BATCH_BYTES:
            yield out
            out, size = [], 0
    if out:
        yield out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.start = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.violations = [], [], []
        self.notes = []
        self.camps = {}

    def model(self, m):
        ok, gen, distinct, out = core.model_check(m.module, m.cfg, timeout=m.timeout,
                                                  extra=m.extra)
        if not ok:
            raise core.TlcError("the specification does not satisfy its own property\n" + out[-6000:])
        self.states += distinct
        self.transitions += gen
        self.models.append({"module": m.module, "config": m.note or m.cfg,
                            "mode": "random behaviours" if "-simulate" in m.extra else "exhaustive", "distinct_states": distinct,
                            "states_generated": gen})
        return out

    def campaign(self, c, tasks, limit):
        t0 = time.time()
        done = execute(tasks, t0 + limit)
        t1 = time.time()
        good = []
        for r in done:
            if r[1] is None:
                self.violation(r[0], None, None, ["%s.cannot_run" % self.pid], r[2])
            else:
                good.append(r)
        kinds = {}
        for b in batches(good):
            fails, st, tr = core.validate_text(c.module, [r[1] for r in b], [r[2] for r in b],
                                               self.pid)
            self.states += st
            self.transitions += tr
            self.traces += len(b)
            self.events += sum(r[2] for r in b)
            for (tid, ev, clauses) in fails:
                mine = sorted(x for x in clauses if x.startswith(self.pid + "."))
                if mine:
                    r = b[tid - 1]
                    self.violation(r[0], json.loads(r[1]), ev, mine, None)
            if len(self.violations) > 20:
                break
        for r in good[:400]:
            for e in json.loads(r[1])["ev"]:
                k = e.get("k", "") + ("" if e.get("ok", "ok") == "ok" else "!" + e["ok"])
                kinds[k] = kinds.get(k, 0) + 1
        if good:
            self.samples.append(sample(good[len(good) // 2]))
        n = self.camps.setdefault(c.name, {"traces": 0, "generate_s": 0, "validate_s": 0})
        n["traces"] += len(good)
        n["generate_s"] = round(n["generate_s"] + t1 - t0, 1)
        n["validate_s"] = round(n["validate_s"] + time.time() - t1, 1)
        n["events_of_first_traces"] = kinds

    def violation(self, task, trace, ev, clauses, why):
        self.violations.append({"property": self.pid, "campaign": task[0], "seed": task[1],
                                "k": task[2], "item": task[3], "event": ev, "clauses": clauses,
                                "why": why, "trace": trace})

    def run(self):
        thorough = self.tier == "thorough"
        budget = 780 if thorough else 300
        camps = campaigns.of(self.pid)
        for m in campaigns.models(self.pid, thorough):
            self.model(m)
        for c in camps:
            self.campaign(c, c.tasks(self.seed, 0, thorough, self), 240)
            if isinstance(c, campaigns.Behaviours) and not self.violations:
                self.campaign(c, c.tasks(self.seed, 1, thorough, self), 240)
        # deeper: further rounds of fresh histories until the time is used up
        rounds = 2
        if thorough:
            open_ended = [c for c in camps if c.endless]
            while open_ended and not self.violations and time.time() - self.start < budget * 0.8:
                for c in open_ended:
                    if time.time() - self.start < budget * 0.85:
                        self.campaign(c, c.tasks(self.seed, rounds, thorough, self), 200)
                rounds += 1
        self.rounds = rounds

    def evidence(self):
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "models": self.models, "campaigns": self.camps,
            "samples": self.samples[:3],
        }
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed,
             "level": "model_checking", "coverage": cov,
             "assumptions": campaigns.ASSUMPTIONS.get(self.pid, []) + campaigns.COMMON_ASSUMPTIONS,
             "wall_s": round(time.time() - self.start, 1), "violations": len(self.violations)}
        folder = os.path.join(core.VERIF, "evidence")
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, self.pid + ".json"), "w") as f:
            json.dump(d, f, indent=1)

    def report(self):
        """The lines the interface asks for; the exit status."""
        if not self.violations:
            return 0
        folder = os.path.join(core.BUILD, "violations")
        os.makedirs(folder, exist_ok=True)
        for n, v in enumerate(self.violations[:5]):
            path = os.path.join(folder, "%s-%s-%d.json" % (self.pid, self.tier, n))
            with open(path, "w") as f:
                json.dump(v, f)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  campaign %s seed %s history %s step %s: %s%s" % (
                v["campaign"], v["seed"], v["k"], v["event"], ", ".join(v["clauses"]),
                "" if not v["why"] else "\n  " + v["why"].strip().replace("\n", "\n  ")))
        return 1


def sample(r):
    task, text, n, _ = r
    t = json.loads(text)
    short = {k: v for k, v in t.items() if k not in ("ev", "tz", "ep")}
    return {"campaign": task[0], "seed": task[1], "history": task[2], "events": n,
            "setting": json.loads(json.dumps(short))
            if len(json.dumps(short)) < 1500 else "(large)",
            "steps": [{k: v for k, v in e.items() if k not in ("d", "fs", "fr")}
                      for e in t["ev"][:12]]}


def replay(pid, path):
    v = json.load(open(path))
    task = (v["campaign"], v["seed"], v["k"], v["item"])
    prepare()
    if v["campaign"].startswith("finding "):
        c = Check(pid, "quick", 1)
        for line in findings.report(pid, c):
            print(line)
        return c.report()
    _, text, n, _ = one(task)
    if text is None:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print(n)
        return 1
    c = campaigns.BY_NAME[v["campaign"]]
    fails, _, _ = core.validate_text(c.module, [text], [n], pid)
    fails = [(e, sorted(x for x in cl if x.startswith(pid + "."))) for (_, e, cl) in fails]
    fails = [x for x in fails if x[1]]
    if not fails:
        print("the history conforms")
        return 0
    print("VIOLATION property=%s replay=%s" % (pid, path))
    ev = json.loads(text)["ev"]
    for e, cl in fails[:1]:
        print("step %d: %s" % (e, ", ".join(cl)))
        for k in range(max(0, e - 3), e):
            print("  %d %s" % (k + 1, json.dumps(ev[k])[:3000]))
    return 1


def main(argv):
    pid = argv[0]
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(pid, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = Check(pid, tier if tier == "thorough" else "quick", seed)
    c.run()
    for line in findings.report(pid, c):
        print(line, flush=True)
    c.evidence()
    code = c.report()
    print("%s %s: %d states, %d transitions, %d histories (%d steps) validated in %.1f s: %s" % (
        pid, c.tier, c.states, c.transitions, c.traces, c.events, time.time() - c.start,
        "VIOLATED" if code else "held"))
    return code


if __name__ == "__main__":
    import shutil

    try:
        status = main(sys.argv[1:])
    finally:
        shutil.rmtree(_cache, True)
    sys.stdout.flush()
    sys.exit(status)
