#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "model_checking"
T = "stateless model checking of the real solver: every script of at most d deviating answers of the model, each execution judged step by step by a reference machine"
NOTE_T = "Exhaustive within the alphabet of answers, the number of deviations and the configurations listed in the evidence; trusts the reference machine of /verif/mc (monitor.rs) and rustc."
def g(x): return T + "; plus exhaustive enumeration of " + x
checks = {
 "C01": (T, MC, NOTE_T), "C02": (T, MC, NOTE_T), "C03": (T, MC, NOTE_T), "C04": (T, MC, NOTE_T), "C05": (T, MC, NOTE_T),
 "C06": ("exhaustive enumeration of the histories of one or two resolutions (bounded deviations) followed by a resolution compared call by call with a fresh solver", MC, "Exhaustive within the bounded histories; the oracle is the real code itself with a fresh object."),
 "C07": (g("a grid of limits, current values and proposed steps on the real functions"), MC, NOTE_T),
 "C08": (g("affine systems and initial guesses"), MC, NOTE_T),
 "C09": (g("perturbation settings and jacobians of polynomial systems"), MC, NOTE_T),
 "C10": (g("matrix states and moves for the update formulas"), MC, NOTE_T),
 "C11": (T, MC, NOTE_T), "C12": (T, MC, NOTE_T),
 "C13": (g("pairs of members and derivatives over a grid of floating-point classes"), MC, NOTE_T),
 "C15": ("exhaustive enumeration of the constructor arguments over a grid of floating-point classes and dimensions, against an independent acceptance predicate", "exploration", "Exhaustive over the grid of the evidence; trusts the predicate written in s_funcs.rs."),
 "C14": ("exhaustive enumeration of configuration documents (every presence pattern of the attributes) and of their one- and two-site mutations, each parsed by the real parser and compared with an independent reference parser", MC, "Exhaustive over the documents and mutations listed in the evidence; trusts the reference reading in s_xml.rs."),
 "C16": (T + ", each run with and without its log and the log parsed and compared record by record with the events of the run", MC, NOTE_T),
 "C17": ("exhaustive enumeration of crash points: every call to the model of every explored execution is made to panic, and on a subset to kill the process, the log being compared with the one of the run that goes on", "fault_enumeration", "Every call of every listed execution; the process kill leaves the kernel alive (no power loss: nothing is claimed about fsync)."),
 "C18": ("real threads under a controlled scheduler: all interleavings of the calls to the models (or all those within a preemption bound when there are too many), nested resolutions at every call", MC, "Switches happen at the calls to the models, at the openings of the log and, for a set of pairs, at every allocation inside the library; not between two instructions that do not allocate."),
 "C19": ("exhaustive enumeration of problems x configurations solved in every formulation, and of all sequences of operations up to a depth on the adapters against a reference adapter; plus bounded-deviation executions of static and dynamic dimensions compared call by call", MC, NOTE_T),
 "C20": ("stateless model checking of the real solver: every execution with at most d deviating answers is replayed under the permutations of unknowns and equations and compared call by call", MC, "Exhaustive within the listed configurations; executions where rounding or a singular matrix decides are not compared (counted in the evidence)."),
 "C23": (T + "; the model itself watches the protocol of its calls, with and without log", MC, NOTE_T),
 "C22": ("stateless model checking of the real solver: every execution of an explicitly configured solver, with at most d deviating answers, is repeated with a solver built by the default constructors and compared call by call; plus exhaustive enumeration of sizes and of lists of residual configurations", MC, "Exhaustive within the configurations and answers listed in the evidence; the oracle is the real code configured explicitly with the documented values."),
 "C24": (T + "; the description of every result is compared with that of every other result of its kind, and every setting of a grid with its displayed text", MC, NOTE_T),
 "C25": ("explicit-state exploration of the real object: every sequence of its public operations up to a depth, each state compared with a reference machine", MC, "Exhaustive within the operations, dimensions and depth listed in the evidence; matrices conditioned worse than 1e8 are not judged."),
 "C26": ("exhaustive enumeration of points around the base points of every published problem, the jacobian being compared with a derivative formula exact for polynomials", "exploration", "Exhaustive over the grid of the evidence."),
 "C27": ("stateless model checking of the real solver: every execution with at most d deviating answers is repeated with the solver seeing the problem through each frame of a list (units, signs, sides), and compared call by call", MC, "Exhaustive within the configurations, answers and frames listed in the evidence; factors are powers of two, so that nearly all comparisons are bit by bit; the oracle is the real code itself."),
 "C28": ("stateless model checking of the real solver: every execution with at most d deviating answers is repeated with every smaller budget, with tolerances around every error met and with settings that must not matter, and compared call by call", MC, "Exhaustive within the configurations, answers and settings listed in the evidence; the oracle is the real code itself; comparisons are bit by bit."),
 "C21": ("exhaustive enumeration of equations x guesses x tolerances x budgets x perturbations, the calls to the function compared with the reference iteration and with the n-dimensional solver", MC, "Exhaustive over the grid of the evidence."),
}
EXTRA = os.path.join(root, "tools", "checks_extra.json")
if os.path.exists(EXTRA):
    for k, v in json.load(open(EXTRA)).items():
        checks[k] = tuple(v)
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/build.sh", "checks": [], "not_applicable": [],
     "notes": "No hook in /repo: the explorer uses the public API only. Repairs of genuine defects are the fix: commits listed in KNOWN_FINDINGS."}
for p in props:
    if p in checks:
        t, l, n = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash tools/check.sh {p} quick", "thorough_cmd": f"bash tools/check.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "its exploration is not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
