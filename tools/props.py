"""Writes properties.jsonl and MANIFEST.json from one table"""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []  # claimed
N = []  # not applicable


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique=None, level="exploration",
         note=None, na=None):
    line = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": ["copulae/" + f for f in files],
                        "mechanism": [{"name": a, "where": "copulae/" + b} for a, b in mechanism],
                        "observe_at": observe, "hook_needed": None}}
    (N if na else P).append((line, technique, level, note, na))


GOF = "gof/goodness_of_fit/goodness_of_fit.py"

prop("C01", "A goodness-of-fit p-value accounts for every replicate exactly once",
     "The goodness-of-fit test reports the statistic and the parameters of the copula fitted to the given data, and the "
     "p-value (number of replicates with |T_k| >= |T|, plus 0.5) / (replicates + 1) over exactly the requested number of "
     "replicates, each counted once, whatever the worker processes, the assignment of replicates to them and the order "
     "in which they finish. Every replicate is a sample of the data's size from the fitted copula, given the ties of "
     "the data by moving whole rows, ranked, refitted with the caller's fit options and evaluated in the way the data "
     "were.",
     ["schedules", "inputs", "configurations"],
     "all worker counts, start methods, assignments and completion orders; data with and without ties; all ranking and "
     "fit options",
     "The tests run two configurations and only look at the p-value's range; a lost, repeated or mispaired replicate "
     "leaves the p-value plausible.",
     [GOF, "gof/goodness_of_fit/utils.py", "empirical/distribution.py"],
     [("parametric bootstrap", GOF), ("ties of the data", "gof/goodness_of_fit/utils.py")],
     ["gof_copula's result", "calls of the copula class's random, fit and cdf in every process"],
     "deterministic simulation of the worker pool (parked forked workers, seeded scheduler, virtual clock), replicate "
     "history checked against a reference bootstrap",
     note="seeded search over schedules, data and options; replicates are observed through recording copula classes")

prop("C02", "Bootstrap replicates never share their random sample",
     "No two replicates of a goodness-of-fit test, and no replicates of two tests run one after the other in a process, "
     "draw the same random numbers, whether the replicates run in the calling process or in worker processes. From the "
     "same process-wide random state, a test run with worker processes gives the same result whatever the number of "
     "workers, the way they are started and the order in which they finish.",
     ["schedules", "histories", "configurations"],
     "all worker counts, start methods, assignments, completion orders and sequences of tests",
     "The tests look at one p-value; replicates that share their samples give a p-value that is still between 0 and 1.",
     [GOF, "stats/uniform.py"],
     [("one seed per replicate", GOF)],
     ["samples drawn in every process", "gof_copula's result"],
     "deterministic simulation of the worker pool with real forked random states; cross-replicate and cross-schedule "
     "history check",
     note="up to 3000 replicates per test; coincidences of two or more 53 bit numbers count as sharing")

prop("C03", "A goodness-of-fit test that loses a replicate raises, and never hangs",
     "If a replicate raises, a worker process dies, a worker cannot be started or the caller is interrupted while "
     "waiting, the goodness-of-fit test raises an exception: it never returns a p-value computed from fewer replicates "
     "than requested and never waits forever. No worker process outlives the test, and the same test run again gives "
     "the result it gives without the fault.",
     ["fault_sequences", "crash_points", "schedules"],
     "all points at which a replicate fails, a worker dies, a fork fails or an interrupt arrives",
     "No test injects a failure.",
     [GOF],
     [("result collection and pool shutdown", GOF)],
     ["gof_copula's result or exception", "live worker processes"],
     "deterministic simulation of the worker pool with fault injection (worker death, fork failure, interrupts, "
     "replicate exceptions)",
     note="a fault that strikes after the last delivery may leave a complete result")

exec((Path(__file__).with_name("props_more.py")).read_text())

BUILT = {p.stem.upper() for p in (V / "sim/checks").glob("c[0-9]*.py")}


def main():
    claimed = [x for x in P if x[0]["id"] in BUILT]
    with open(V / "properties.jsonl", "w") as f:
        for x in claimed + N:
            f.write(json.dumps(x[0]) + "\n")
    man = {
        "version": 1, "setup_cmd": "./setup.sh",
        "hooks": {"guard": "none", "enable": "no hooks: the seams are the standard library's pool classes, the "
                  "optimizer, file opening, the OpenMP runtime's entry points and the interpreter's trace function, all "
                  "replaced from outside /repo", "source_commits": []},
        "checks": [{"property": l["id"], "quick_cmd": f"./check {l['id']} --tier quick",
                    "thorough_cmd": f"./check {l['id']} --tier thorough",
                    "evidence_file": f"evidence/{l['id']}.json", "technique": tech, "level": level,
                    "level_note": note} for l, tech, level, note, _ in claimed],
        "not_applicable": [{"property": l["id"], "reason": na} for l, _, _, _, na in N],
    }
    (V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


main()
