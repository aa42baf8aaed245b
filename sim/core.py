"""Campaign driver: seeds -> plans -> simulated runs in forked children -> verdict, minimised replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import env

LANES = min(8, os.cpu_count() or 1)


class Ctx:
    """What one simulated run reports to"""

    def __init__(self, seed, replay=False):
        self.seed = seed
        self.h = hashlib.sha256()
        self.n_events = 0
        self.tail = []
        self.violations = []
        self.faults = {}
        self.steps = 0
        self.sim_time = 0.0
        self.states = set()
        self.counts = {}
        self.nontrivial = False
        self.replay = replay
        self.notes = {}

    def event(self, *items):
        s = json.dumps(items, default=str, sort_keys=True)
        self.h.update(s.encode())
        self.n_events += 1
        self.tail.append(s[:300])
        if len(self.tail) > 60:
            del self.tail[:20]

    def violation(self, oracle, message):
        self.event("violation", oracle)
        self.violations.append({"oracle": oracle, "message": str(message)[:2000]})

    def expect(self, cond, oracle, message):
        if not cond:
            self.violation(oracle, message() if callable(message) else message)
        return cond

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def state(self, *items):
        self.states.add(hashlib.sha256(json.dumps(items, default=str, sort_keys=True).encode()).hexdigest()[:16])

    def result(self):
        return {"violations": self.violations, "hash": self.h.hexdigest(), "events": self.n_events,
                "faults": self.faults, "steps": self.steps, "sim_time": self.sim_time,
                "states": sorted(self.states)[:400], "counts": self.counts, "nontrivial": self.nontrivial,
                "tail": self.tail[-25:]}


def rng_for(*parts):
    return random.Random(hashlib.sha256(repr(parts).encode()).hexdigest())


# ---------------------------------------------------------------------------------------------- one run, in a child

def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _child_main(check, plan, seed, wfd, replay):
    os.setpgid(0, 0)
    null = os.open(os.devnull, os.O_RDWR)
    keep_err = os.environ.get("SIM_DEBUG")
    os.dup2(null, 0)
    os.dup2(null, 1)
    if not keep_err:
        os.dup2(null, 2)
    ctx = Ctx(seed, replay)
    try:
        check.run(plan, ctx)
        res = ctx.result()
    except BaseException as e:  # the harness guards every call that may raise: what gets here was not raised before
        tb = traceback.format_exc()
        if keep_err:
            sys.stderr.write(tb)
        sys.settrace(None)
        ctx.violation("unexpected-exception", f"{type(e).__name__}: {e}\n{tb[-1500:]}")
        res = ctx.result()
        # the traceback is no part of the identity of the run
    try:
        _write_all(wfd, json.dumps(res, default=str).encode())
    except BaseException:
        pass
    os._exit(0)


class Running:
    def __init__(self, check, plan, seed, timeout, replay=False):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                _child_main(check, plan, seed, w, replay)
            finally:
                os._exit(70)
        os.close(w)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        self.r = r
        self.deadline = time.monotonic() + timeout
        self.timeout = timeout

    def finish(self):
        chunks = []
        timed_out = False
        while True:
            left = self.deadline - time.monotonic()
            if left <= 0:
                timed_out = True
                break
            ready, _, _ = select.select([self.r], [], [], left)
            if not ready:
                timed_out = True
                break
            b = os.read(self.r, 1 << 16)
            if not b:
                break
            chunks.append(b)
        os.close(self.r)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        _, status = os.waitpid(self.pid, 0)
        if timed_out:
            return {"timeout": True, "violations": [{"oracle": "no-progress", "message":
                    f"the run did not finish within {self.timeout} s"}], "hash": "timeout"}
        data = b"".join(chunks)
        try:
            return json.loads(data)
        except ValueError:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            return {"violations": [{"oracle": "process-died", "message": f"the run's process died, signal {sig} "
                    f"status {status}"}], "hash": "died"}


def execute(check, plan, seed, timeout, replay=False):
    return Running(check, plan, seed, timeout, replay).finish()


# ------------------------------------------------------------------------------------------------------------ lanes

def _lane(check, tier, base, indices, wfd, stop_at):
    def send(obj):
        b = pickle.dumps(obj)
        _write_all(wfd, struct.pack("<I", len(b)) + b)

    timeout = getattr(check, "RUN_TIMEOUT", 60)
    for i in indices:
        if time.monotonic() > stop_at:
            send(("capped", i))
            break
        seed = f"{base}:{i}"
        plan = check.gen(rng_for(check.PROP, base, i), i, tier)
        res = execute(check, plan, seed, timeout)
        again = None
        if i < 16 and not res.get("violations"):
            again = execute(check, plan, seed, timeout).get("hash")
        send(("run", i, plan, res, again))
        if res.get("violations") and not res.get("timeout"):
            break
    send(("done", None))


def campaign(check, tier, base):
    t0 = time.monotonic()
    total = check.RUNS[tier]
    cap = getattr(check, "CAP", {"quick": 240, "thorough": 780})[tier]
    stop_at = t0 + cap
    lanes = []
    for k in range(LANES):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                for (_, rr, _) in lanes:
                    os.close(rr)
                os.close(r)
                _lane(check, tier, base, range(k, total, LANES), w, stop_at)
            except BaseException:
                traceback.print_exc()
                os._exit(71)
            os._exit(0)
        os.close(w)
        lanes.append((pid, r, bytearray()))

    agg = Agg()
    open_ = {r: (pid, buf) for pid, r, buf in lanes}
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 5)
        for r in ready:
            pid, buf = open_[r]
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                _, st = os.waitpid(pid, 0)
                if st:
                    agg.lane_errors += 1
                del open_[r]
                continue
            buf += b
            while len(buf) >= 4:
                n = struct.unpack("<I", buf[:4])[0]
                if len(buf) < 4 + n:
                    break
                msg = pickle.loads(bytes(buf[4:4 + n]))
                del buf[:4 + n]
                agg.add(msg)
    agg.wall = time.monotonic() - t0
    return agg


class Agg:
    def __init__(self):
        self.runs = 0
        self.capped = 0
        self.lane_errors = 0
        self.failed = []
        self.timeouts = []
        self.faults = {}
        self.counts = {}
        self.steps = 0
        self.sim_time = 0.0
        self.events = 0
        self.hashes = set()
        self.states = set()
        self.nontrivial = set()
        self.samples = []
        self.repeat_ok = 0
        self.repeat_bad = []
        self.wall = 0.0

    def add(self, msg):
        if msg[0] == "capped":
            self.capped += 1
        elif msg[0] == "run":
            _, i, plan, res, again = msg
            self.runs += 1
            if again is not None:
                if again == res["hash"]:
                    self.repeat_ok += 1
                else:
                    self.repeat_bad.append(i)
            if res.get("timeout"):
                self.timeouts.append((i, plan, res))
                return
            if res["violations"]:
                self.failed.append((i, plan, res))
            for k, v in res.get("faults", {}).items():
                self.faults[k] = self.faults.get(k, 0) + v
            for k, v in res.get("counts", {}).items():
                self.counts[k] = self.counts.get(k, 0) + v
            self.steps += res.get("steps", 0)
            self.sim_time += res.get("sim_time", 0)
            self.events += res.get("events", 0)
            self.hashes.add(res["hash"])
            self.states.update(res.get("states", []))
            if res.get("nontrivial"):
                self.nontrivial.add(res["hash"])
            if i < 2:
                s = json.dumps(plan)
                self.samples.append({"index": i, "plan": plan if len(s) < 3000 else s[:3000] + "...",
                                     "trace_hash": res["hash"], "last_events": res.get("tail", [])[-6:]})


# -------------------------------------------------------------------------------------------------- minimise, replay

def _oracles(res):
    return {v["oracle"] for v in res.get("violations", [])}


def shrink_lists(plan, keys):
    """Candidates: the plan with chunks of its lists removed, large chunks first"""
    for key in keys:
        xs = plan.get(key)
        if not isinstance(xs, list) or not xs:
            continue
        size = len(xs)
        while size >= 1:
            for a in range(0, len(xs), size):
                cand = dict(plan)
                cand[key] = xs[:a] + xs[a + size:]
                yield cand
            size //= 2


def minimise(check, plan, seed, oracle, timeout, budget):
    t_end = time.monotonic() + budget
    shrink = getattr(check, "shrink", None) or (lambda p: shrink_lists(p, getattr(check, "LISTS", ["ops", "faults"])))
    tried = 0
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for cand in shrink(plan):
            if time.monotonic() > t_end:
                break
            if cand == plan:
                continue
            tried += 1
            res = execute(check, cand, seed, min(timeout, max(2.0, t_end - time.monotonic() + 5)))
            if oracle in _oracles(res) and not res.get("timeout"):
                plan = cand
                progress = True
                break
    return plan, tried


def report(check, i, base, plan, res, tier):
    seed = f"{base}:{i}"
    oracle = res["violations"][0]["oracle"]
    timeout = getattr(check, "RUN_TIMEOUT", 60)
    tried = 0
    if not res.get("timeout"):
        plan2, tried = minimise(check, plan, seed, oracle, timeout, 40 if tier == "quick" else 90)
        final = execute(check, plan2, seed, timeout)
        if oracle in _oracles(final):
            plan, res = plan2, final
        again = execute(check, plan, seed, timeout)
        exact = again.get("hash") == res.get("hash")
    else:
        exact = None
    d = env.VERIF / "replays"
    d.mkdir(exist_ok=True)
    body = {"property": check.PROP, "tier": tier, "seed": seed, "oracle": oracle, "violations": res["violations"],
            "plan": plan, "trace_hash": res.get("hash"), "last_events": res.get("tail", []),
            "minimised_over": tried, "replays_exactly": exact}
    name = f"{check.PROP}-{base}-{i}-{hashlib.sha256(json.dumps(plan).encode()).hexdigest()[:8]}.json"
    (d / name).write_text(json.dumps(body, indent=1, default=str))
    print(f"seed {seed}: {oracle}: {res['violations'][0]['message']}")
    print(f"VIOLATION property={check.PROP} replay={d / name}")
    sys.stdout.flush()


# -------------------------------------------------------------------------------------------------------------- main

def known_findings(prop):
    f = env.VERIF / "KNOWN_FINDINGS.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text()).get("findings", []) if k["property"] == prop]


def is_known(known, res):
    """every violation of the run is one that the file lists, by oracle and by an excerpt of the message"""
    return bool(known) and all(any(k["oracle"] == v["oracle"] and k["excerpt"] in v["message"] for k in known)
                               for v in res["violations"])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--one", type=int, help="run one index in a child with its output shown")
    a = ap.parse_args(argv)
    os.nice(0)
    t0 = time.monotonic()
    check = importlib.import_module(f"sim.checks.{a.prop.lower()}")
    env.preimport()
    if hasattr(check, "before_import"):
        check.before_import()
    env.install(getattr(check, "VARIANT", "plain"))
    if hasattr(check, "setup"):
        check.setup()
    import copulae  # noqa
    assert env.is_repo_file(copulae.__file__), copulae.__file__
    if hasattr(check, "after_import"):
        check.after_import()
    if a.runs:
        check.RUNS = {**check.RUNS, a.tier: a.runs}

    if a.replay:
        body = json.load(open(a.replay))
        res = execute(check, body["plan"], body["seed"], 4 * getattr(check, "RUN_TIMEOUT", 60), replay=True)
        for t in res.get("tail", []):
            print("  ", t)
        print("trace hash", res.get("hash"), "same as recorded" if res.get("hash") == body["trace_hash"] else
              "differs from the record")
        for v in res["violations"]:
            print(v["oracle"], ":", v["message"])
        if res["violations"]:
            print(f"VIOLATION property={check.PROP} replay={a.replay}")
            return 1
        return 0

    if a.one is not None:
        os.environ["SIM_DEBUG"] = "1"
        plan = check.gen(rng_for(check.PROP, a.seed, a.one), a.one, a.tier)
        print(json.dumps(plan)[:4000])
        res = execute(check, plan, f"{a.seed}:{a.one}", 600)
        print(json.dumps(res, indent=1)[:6000])
        return 1 if res["violations"] else 0

    agg = campaign(check, a.tier, a.seed)
    known = known_findings(check.PROP)
    for k in known:
        print(f"KNOWN-FINDING: property={check.PROP} {k['what']}")
    violations = [f for f in agg.failed if not is_known(known, f[2])]
    if not violations:  # a run that was cut off may just have been slow: give it the machine and much more time
        for (i, plan, res) in agg.timeouts[:2]:
            res = execute(check, plan, f"{a.seed}:{i}", 4 * getattr(check, "RUN_TIMEOUT", 60))
            if res.get("violations") and not is_known(known, res):
                violations.append((i, plan, res))
                break
    wall = time.monotonic() - t0
    write_evidence(check, a.tier, a.seed, agg, len(violations), wall)
    if violations:
        violations.sort(key=lambda v: v[0])
        i, plan, res = violations[0]
        report(check, i, a.seed, plan, res, a.tier)
        return 1
    if agg.lane_errors or not agg.runs:
        print(f"{agg.lane_errors} lanes failed, {agg.runs} runs", file=sys.stderr)
        return 2
    print(f"{check.PROP} held: {agg.runs} runs, {len(agg.hashes)} distinct, {len(agg.nontrivial)} nontrivial, "
          f"{len(agg.states)} states, {agg.steps} steps, faults {agg.faults}, {wall:.1f} s")
    return 0


def write_evidence(check, tier, seed, agg, nviol, wall):
    d = env.VERIF / "evidence"
    d.mkdir(exist_ok=True)
    cov = {
        "evaluations": agg.runs,
        "distinct_nontrivial": len(agg.nontrivial),
        "rule": check.RULE,
        "samples": agg.samples or [{"note": "no run finished"}],
        "runs_per_hour": round(agg.runs / max(agg.wall, 1e-9) * 3600),
        "seeds": f"{seed}:0 .. {seed}:{max(agg.runs - 1, 0)}",
        "distinct_traces": len(agg.hashes),
        "distinct_states": len(agg.states),
        "states_measure": getattr(check, "STATES", "hash of the visible state after each operation"),
        "simulated_steps": agg.steps,
        "steps_measure": getattr(check, "STEPS", "scheduler decisions and traced lines of the code under test"),
        "simulated_seconds": round(agg.sim_time, 3),
        "events": agg.events,
        "faults_injected": agg.faults,
        "counts": agg.counts,
        "seeds_run_twice_same_trace": agg.repeat_ok,
        "seeds_run_twice_other_trace": agg.repeat_bad,
        "runs_cut_off": len(agg.timeouts),
        "lanes_stopped_by_time_cap": agg.capped,
        "real_components": check.REAL,
        "simulated_components": check.SIMULATED,
    }
    body = {"property": check.PROP, "tier": tier, "seed": seed, "level": getattr(check, "LEVEL", "exploration"),
            "coverage": cov, "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
            "violations": nviol}
    tmp = d / f".{check.PROP}.json.{os.getpid()}"
    tmp.write_text(json.dumps(body, indent=1, default=str))
    os.replace(tmp, d / f"{check.PROP}.json")
