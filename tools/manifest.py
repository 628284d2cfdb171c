"""Writes MANIFEST.json from the table below (development helper; not used by the checks)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "stateless model checking of the real workers (all schedules up to a pre-emption bound)"
CRASH = "exhaustive crash-point enumeration on the real code under a controlled file system"
HIST = "explicit enumeration of all bounded histories of the real code against a reference model"
INP = "bounded-exhaustive enumeration of inputs of the real code against an independent oracle"
TRUST = (" Assumes POSIX rename/flock semantics of a local file system and a kill (not a power loss); within the "
         "stated bounds nothing is sampled.")

TABLE = {
    "C01": (SCHED, "exploration", "All interleavings of 2-3 real worker processes up to 1-2 pre-emptions." + TRUST),
    "C02": (SCHED, "exploration", "All interleavings of 2-3 real workers reporting results, costs and failures." + TRUST),
    "C03": (SCHED, "exploration", "All interleavings incl. simultaneous start-up; deadlock and livelock detected." + TRUST),
    "C04": (HIST + " + " + SCHED, "model_checking", "All combinations of criteria, trial states, outcomes and restarts "
            "within the bounds agree with the reference; concurrent overshoot bound on all schedules." + TRUST),
    "C05": (HIST + " + " + SCHED, "model_checking", "All policies x outcome sequences x restarts; every searcher x every "
            "failure pattern up to length 5; concurrent policies on all schedules up to 1 pre-emption." + TRUST),
    "C07": (CRASH, "fault_enumeration", "Every state-changing operation of four histories as a crash point, incl. torn "
            "writes, each followed by status and restart." + TRUST),
    "C08": (CRASH + " x " + SCHED, "fault_enumeration", "Every crash point of one worker x schedules of the others." + TRUST),
    "C06": (HIST + " + " + SCHED, "model_checking", "All operation sequences up to the depth bound on every resource kind "
            "against a versioned-register model; all schedules of concurrent writers." + TRUST),
    "C09": (HIST, "model_checking", "All ways of splitting, interleaving and disturbing a bounded run, per searcher, give "
            "the sequence of the undisturbed run." + TRUST),
    "C10": (INP, "exploration", "All combinations of result shapes, types, defaults and error settings in the bounds." + TRUST),
    "C11": (INP + " + " + HIST, "exploration", "All field-value combinations and state transitions in the bounds are "
            "read back equal by an independent reader." + TRUST),
    "C12": (HIST, "model_checking", "Every reachable state of the real searchers up to the depth bound is compared with an "
            "independent model of successive halving / Hyperband." + TRUST),
    "C13": (HIST, "model_checking", "Every reachable state of the real asynchronous searchers up to the depth bound is "
            "compared with an independent ASHA model." + TRUST),
    "C14": (HIST, "model_checking", "Every searcher x every history of outcomes and pending trials up to the bound; "
            "re-created searchers and permuted listings are compared." + TRUST),
    "C15": (INP + " + " + HIST, "exploration", "All grids of the enumerated spaces x all restarts of the run." + TRUST),
    "C16": ("systematic exploration of every outcome of the random draws (choice-point enumeration) of the real sampling "
            "code", "model_checking", "Every combination of the enumerated outcomes of the random draws (extremes, "
            "boundaries, quantiles) for every enumerated space, sampler and operation." + TRUST),
    "C17": (INP, "exploration", "All values of all integer and categorical domains in the bounds, dense sets of floats, all "
            "pairs of domains, all column layouts and all configurations of the enumerated spaces." + TRUST),
    "C18": (INP + " + " + HIST, "exploration", "All spellings of all enumerated definitions in every format, all enumerated "
            "malformed ones, all configurations there and back, all setter sequences up to the depth bound." + TRUST),
    "C19": (HIST + " + " + SCHED, "model_checking", "All state strings and losses up to length 4 (plus longer ones), all outcome "
            "sequences of real runs, and the final CSV on all schedules of two workers up to the bound." + TRUST),
    "C20": (HIST, "model_checking", "All lineages (chains and forks) up to the depth bound, all call orders and several "
            "consecutive runs per process, in real runs and with checkpoints." + TRUST),
    "C21": (INP, "exploration", "All settings x sources x values, all pairs of settings, all searchers x spellings x kinds of "
            "search space; the effective values are observed in the launched runtime." + TRUST),
    "C22": (HIST + " + " + SCHED + " + " + CRASH, "model_checking", "All sequences of runs up to length 3 (4) over all searcher "
            "definitions, all option values, all schedules of conflicting starts, all crash points of overwriting runs." + TRUST),
    "C23": (HIST + " + " + SCHED, "model_checking", "All trial-state strings up to length 4 and sampling-time orders "
            "against a FIFO reference; concurrent claims on all schedules up to 3 pre-emptions." + TRUST),
    "C24": (INP + " + " + HIST, "exploration", "All state strings up to length 3 (4) x ways of naming trials, shown by every "
            "command; all outcome sequences of real runs up to length 4 (5); all ways to name the directory." + TRUST),
    "C25": (HIST, "model_checking", "All lineages up to depth 4 x behaviour of each evaluation x splits, all switches, several "
            "runs per process; the event files are read back by an independent reader." + TRUST),
}
if os.path.exists(os.path.join(HERE, "tools", "table.py")):
    import importlib.util

    spec = importlib.util.spec_from_file_location("table", os.path.join(HERE, "tools", "table.py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    TABLE.update(mod.table(SCHED, CRASH, HIST, INP, TRUST))

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
out = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
         "evidence_file": f"evidence/{p}.json", "technique": TABLE[p][0], "level": TABLE[p][1], "level_note": TABLE[p][2]}
        for p in props if p in TABLE],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in TABLE],
    "notes": "No hooks in /repo: the checks run the unmodified sources; system calls are intercepted by an LD_PRELOAD "
             "library built from fsmc/shim.c at the start of every check.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks")
