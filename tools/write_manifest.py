"""Generates MANIFEST.json and known_findings.txt (python3-vt tools/write_manifest.py)."""
import json, subprocess, jsonschema
TECH = {
 "hist": "runtime monitoring: random operation histories on the real library, online reference-model monitor on energy polynomials and table snapshots",
 "solver": "runtime monitoring: real solver runs with a row-by-row energy oracle",
 "pipe": "runtime monitoring: real Beam pipelines with fault injection, offline checker over the recorded event log",
}
special = {
 "C10": "runtime monitoring: differential replay of seeded solves across interleavings, threads, processes and hash seeds",
 "C11": "runtime monitoring: trace replay against the annealing specification plus statistical monitor against the exact Markov chain",
 "C12": "runtime monitoring: recording loopback service/sampler with fault replies and an energy oracle",
 "C26": "runtime monitoring: equality and printing of pairs of models with equal, copied, serialised or differing histories, online reference verdict",
 "C27": "runtime monitoring: injected invalid calls, with recorded requests, user-function calls and model snapshots as the oracle",
 "C28": "runtime monitoring: reported times bracketed by the monitor's own clock under injected delays; recorded calls and exceptions of profiled functions",
 "C29": "runtime monitoring: the bundled applications run on generated files, offline checker over every record they write",
 "C18": "runtime monitoring: return values checked against brute force on generated lists",
 "C21": "runtime monitoring: loaded expressions evaluated against the compiled model on all sampled assignments",
}
note = {
 "misc": "Every observed comparison, rejected call or reported time was judged against what the generator knows about it. Only the generated models, calls and delays are covered.",
 "hist": "Every observed execution of the generated histories satisfied the monitors, which compare complete energy functions (polynomial identity decides all assignments at once). Trusts harness/shadow.py as the specification; histories outside the generator's reach are not covered.",
 "solver": "Every row of every observed solver run was re-evaluated independently. Trusts the reference energies; only generated models and options are covered.",
 "pipe": "Every record and user-function call of the observed pipeline runs was checked. Trusts the in-process Beam runners; only generated streams, configurations and failure patterns are covered.",
}
import importlib.util, sys
sys.path.insert(0, "/verif/harness")
src = open("/verif/harness/run.py").read()
import re
kinds = dict(re.findall(r'"(C\d\d)": \("(wl_\w+):', src))
checks = []
for i in range(1, 30):
    c = f"C{i:02d}"
    k = {"wl_model": "hist", "wl_solver": "solver", "wl_stream": "pipe", "wl_misc": "misc", "wl_apps": "pipe"}[kinds[c]]
    checks.append({"property": c, "quick_cmd": f"./run.sh {c} quick", "thorough_cmd": f"./run.sh {c} thorough", "evidence_file": f"evidence/{c}.json", "technique": special.get(c) or TECH[k], "level": "exploration", "level_note": note[k]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import apache_beam, dimod, neal, pyqubo'", "checks": checks, "not_applicable": [],
     "notes": "Pure-Python library: imported from /repo's working tree, nothing to build and no hooks in /repo (all instrumentation is attached from outside: public API wrappers, user functions of pipelines, loopback services). ./run.sh --replay FILE re-runs one failing case."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
props = {  # commit -> property
 "14faae4": "C10", "b080d26": "C10", "def73a1": "C11", "0f1798b": "C20", "299b483": "C20", "b5a4b9b": "C20", "2fcf002": "C04", "7fb32ed": "C03",
 "6a78da5": "C04", "7a185fd": "C06", "1869c83": "C06", "2f8fa35": "C02", "7351fd5": "C02", "a173cab": "C23", "69069c4": "C07", "7e5f3d8": "C19",
 "6876c9d": "C19", "ec087ba": "C14", "7b1ecca": "C16", "1d55b42": "C13", "b287b62": "C13", "e898cac": "C18", "1236428": "C21", "9a350ce": "C07",
 "b0769ca": "C11", "f99e6b7": "C11", "2d841ac": "C14", "e675f74": "C15",
 "4bc7b6e": "C05", "fb12712": "C26", "cc5799c": "C17", "f3c0b05": "C05", "1eb23fd": "C05",
 "feee070": "C10", "ef5c19d": "C26", "ffccfde": "C25"}
KF = "to_ising/to_qubo (hence also constraints in Ising models and mixed-type merges) subtract the conversion constant from the offset instead of adding it, so energies are shifted by a constant; pinned by the existing tests"
with open("/verif/known_findings.txt", "w") as f:
    for c in ("C04", "C06", "C07"):
        f.write(f"known: property={c} key=conversion-offset-sign {KF}\n")
    for line in log:
        h, msg = line.split(" ", 1)
        if msg.startswith("fix:"):
            f.write(f"fixed: property={props[h]} {h} {msg[5:]}\n")
