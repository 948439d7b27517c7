"""Entry point of every check: run.py <property> <tier> | run.py --replay <file>."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

HIST = (
    "A case is a seeded random history of public model operations (declare, append, add, update, remove, delete, fix, offset, constraints, convert, compile, "
    "fail a compile) run on the real library next to an independent reference; it counts as distinct by the sequence of operations and observed results"
)
PIPE = (
    "A case is one real Beam pipeline (algorithm, window sizes, event times, runner or test stream with watermarks, planned failures of user functions) whose user-function calls and "
    "output records are logged and checked offline; distinct by configuration, event times, runner and failure pattern"
)

# prop: (workload, quick cases, thorough cases, rule, least number of distinct cases, monitors that must have fired)
CHECKS = {
    "C01": ("wl_model:c01", 4900, 60000, HIST, 100, ["energy_functions_compared", "op_add", "op_update", "op_upsert", "op_remove", "compiles"]),
    "C02": ("wl_model:c02", 2250, 42000, HIST + "; compilations are repeated and made to fail", 80, ["failed_compiles", "compiles", "op_constraint"]),
    "C03": ("wl_model:c03", 3600, 48000, HIST + "; followed by deletions", 100, ["op_delete", "energy_functions_compared", "op_constraint"]),
    "C04": ("wl_model:c04", 4200, 48000, HIST + "; followed by fixings", 100, ["op_fix", "energy_functions_compared", "constraints_on_fixed"]),
    "C05": ("wl_model:c05", 3600, 48000, HIST + "; constraint edits dominate", 100, ["op_constraint", "op_constraint_edit", "penalty_assignments"]),
    "C06": ("wl_model:c06", 3000, 42000, HIST + "; conversions are interleaved", 80, ["op_convert", "energy_functions_compared"]),
    "C07": ("wl_model:c07", 1680, 36000, HIST + " for two or three models which are then merged (or the merge is made to be rejected)", 80, ["merges_mixed", "merges_same_type", "rejected_merges", "flags_kept"]),
    "C08": ("wl_solver:c08", 3500, 30000, "A case compiles a random history and runs the exact, simulated-annealing or built-in annealing solver with random options; every returned row is re-evaluated; distinct by model and options", 80, ["sawatabi_runs", "neal_runs", "exact_runs", "rows_checked", "empty_rejected"]),
    "C09": ("wl_solver:c09", 3750, 30000, "A case compiles a random history of at most a dozen variables and compares the exact solver's rows with a full enumeration; distinct by model", 80, ["assignments_enumerated", "ground_states"]),
    "C10": ("wl_solver:c10", 290, 4000, "A case runs a seeded solve repeatedly: again, on other solver objects, after other solves, from threads, in other processes with other hash seeds; distinct by model, options and seed", 40, ["base_runs", "repeat_runs", "seed_pairs", "concurrent_runs", "other_process_runs"]),
    "C11": ("wl_solver:c11", 1560, 12000, "A case is an annealing configuration decided by trace replay (zero or infinite temperature), by the reported schedule, or by comparing the final-state frequencies of thousands of reads with the exact Markov chain; distinct by model and options", 40, ["greedy_sweeps_replayed", "hot_sweeps_replayed", "schedules_checked", "chains_compared", "independence_tests"]),
    "C12": ("wl_solver:c12", 780, 12000, "A case submits a compiled random model to a recording service on the loopback interface (or a recording sampler) with random options, answers and error replies; distinct by model, options and reply", 60, ["problems_submitted", "answers_checked", "error_replies", "rejected_models"]),
    "C13": ("wl_stream:c13", 640, 9000, PIPE, 60, ["processed_windows", "outdated_windows", "failures_reported", "pipelines_TestStream", "pipelines_BundleBasedDirectRunner"]),
    "C14": ("wl_stream:c14", 640, 9000, PIPE + "; includes late data", 60, ["windows_with_both", "differences_checked", "failures_reported"]),
    "C15": ("wl_stream:c15", 630, 9000, PIPE + "; failures dominate", 60, ["recoveries", "mappings", "solves", "failures_reported"]),
    "C16": ("wl_stream:c16", 580, 9000, PIPE + "; the model carries random reference values", 60, ["weighted_interactions", "weightings_checked", "uncompiled_removals"]),
    "C17": ("wl_stream:c17", 500, 7200, PIPE + "; inputs are generated text files, JSON files, in-memory and message inputs", 60, ["records_decorated", "files_checked", "inputs_number", "inputs_json", "inputs_text", "inputs_memory", "inputs_pubsub"]),
    "C18": ("wl_solver:c18", 9000, 120000, "A case is a random list of non-negative integers compared with brute force; distinct by list", 300, ["lists", "enumerations"]),
    "C19": ("wl_model:c19", 4500, 48000, HIST + "; variable declarations and appends dominate", 100, ["variable_tables_checked"]),
    "C20": ("wl_model:c20", 1950, 40000, HIST + "; the table is compared after every step", 100, ["rows_checked", "attribute_queries"]),
    "C21": ("wl_model:c21", 9000, 48000, "A case is a random symbolic quadratic expression over declared arrays loaded into a model and evaluated on every (or many) assignments; distinct by expression", 100, ["energies_compared"]),
    "C22": ("wl_model:c22", 2400, 36000, HIST + "; the model is copied or pickled and both copies continue with the same or different operations", 80, ["copies_checked", "solved_alike"]),
    "C23": ("wl_model:c23", 5000, 42000, HIST + "; every compiled model is exported in all forms", 80, ["numberings_checked", "exports_checked"]),
    "C24": ("wl_stream:c24", 580, 9000, PIPE + "; the user functions maintain a model by the incremental recipe", 60, ["windows_compared", "windows_with_history", "optima_checked"]),
    "C26": ("wl_misc:c26", 3120, 40000, HIST + "; two models get the same history and are compared with each other, with copies and with models that differ by one visible change; constraints likewise", 80, ["equal_pairs", "unequal_pairs", "printed", "constraint_pairs", "compiled_pairs", "process_pairs"]),
    "C27": ("wl_misc:c27", 5200, 60000, "A case compiles a random history (or configures a pipeline) and makes calls which cannot be honoured; distinct by model size and kinds of calls", 40, ["rejected", "recovered_solves", "rejected_pipelines"]),
    "C28": ("wl_misc:c28", 4000, 40000, "A case profiles a function, reads the clock helpers or runs a solver and brackets the reported time by the monitor's own clock; distinct by function behaviour, options and model size", 40, ["profiles_checked", "exceptions_propagated", "clock_reads", "timings_checked", "searches_timed"]),
    "C29": ("wl_apps:c29", 240, 4800, "A case runs one of the bundled number-partitioning applications on a generated file and checks every record it writes; distinct by application and file", 40, ["applications_run", "partitions_checked", "failed_windows"]),
    "C25": ("wl_model:c25", 2100, 42000, HIST + "; rejected calls are injected at random points", 80, ["rejected_calls"]),
}

ASSUME = [
    "the reference semantics in harness/shadow.py (independent of the library's code) is right",
    "only the executions generated from the seed were observed; nothing is claimed about others",
]
PIPE_ASSUME = ["the Beam runners (DirectRunner, BundleBasedDirectRunner, TestStream) assign windows and deliver elements as documented"]


def run(prop, tier, seed):
    fn, q, t, rule, least, need = CHECKS[prop]
    quick = tier == "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int((q if quick else t) * scale))
    return common.run_check(
        prop, fn, tier, seed, n, rule,
        min_nontrivial=least if scale >= 1 else 1,
        limit=150, max_wall=300 if quick else 1500,
        extra_assumptions=ASSUME + (PIPE_ASSUME if fn.startswith("wl_stream") else []),
        need=need if scale >= 1 else (),
    )


def replay(path):
    with open(path) as f:
        r = json.load(f)
    fn = common.resolve(CHECKS[r["property"]][0])
    res = common.run_case(fn, r["property"], r["seed"], r["index"], r["tier"], 600)
    print("\n".join(res.get("log") or []))
    print(res["status"], res.get("message", ""))
    print(res.get("trace", ""))
    if res["status"] == "violation":
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        code = replay(sys.argv[2])
    else:
        code = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
