"""Writes /verif/MANIFEST.json from the check modules present."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "every grid position of every configuration within the deviation bound",
    "C02": "every interface and end of every configuration within the deviation bound and of all support/skier patterns",
    "C03": "force and moment balance of every configuration within the deviation bound",
    "C04": "every operation history up to the depth bound, each step compared with a fresh model",
    "C05": "every ordered query sequence up to the depth bound, inputs and repeated answers compared",
    "C06": "every kernel call index of every operation as failure point",
    "C07": "scan of crack and column lengths across all regime changes against an independent spring-cantilever model",
    "C08": "every mirrored pair within the deviation bound",
    "C09": "every load family within the deviation bound",
    "C10": "every split of segments and layers within the bound",
    "C11": "every layout, grid size and length-ratio combination of the alphabet",
    "C12": "every layering, mesh size, slope and position of the alphabet",
    "C13": "every crack arrangement and configuration within the deviation bound",
    "C14": "every accessor, unit and option over fields of every system",
    "C15": "every layer sequence over the alphabet up to the length bound",
    "C16": "every plot function and option over the configuration alphabet, artists captured",
    "C17": "every configuration and operation within the bound on both model kinds",
    "C18": "every combination of list lengths, patterns, names and forms up to the bound",
    "C19": "every parameter set of the alphabet and every order of two calls",
    "C20": "every configuration within the deviation bound times every scale factor",
    "C23": "every schedule with one preemption (evaluations against themselves: two) between lines of the package, for all listed pairs",
    "C24": "every line of the plot module as point of interruption, and as preemption point of two plotting processes",
    "C25": "every history before and operation after copying of the alphabets, two of five kinds of copy each; pairs of deleted and new models",
    "C26": "every operation of the alphabets in two states of the process, every line as point of interruption",
    "C22": "every segment list, stress state, envelope and configuration within the bounds",
    "C21": "every configuration of both PSTs within the deviation bound, every contact regime",
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "mc", "check_%s.py" % pid.lower())
    if not os.path.exists(f):
        na.append({"property": pid, "reason": "check under construction"})
        continue
    src = ast.parse(open(f).read())
    tech = ast.get_docstring(src).split("\n")[0]
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python mc/run.py %s --tier quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python mc/run.py %s --tier thorough" % pid,
        "technique": "bounded exhaustive explicit-state exploration of the real code against a reference model (%s)" % (
            {"C04": "operation histories vs fresh objects", "C06": "exhaustive fault injection",
             "C05": "query sequences", "C23": "stateless exploration of thread schedules", "C25": "operation histories on copies vs fresh models", "C26": "operations and interruption points in prepared processes",
             "C24": "every interruption point and process schedule"}.get(pid, "deviation-bounded configuration space")),
        "level": "model_checking",
        "level_note": "Exhaustive within bounds: " + NOTES[pid] + ". Trusts the finite alphabets, the reference model in "
                      "mc/ref.py and numpy/scipy arithmetic; values outside the alphabets are not covered.",
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, matplotlib'", "checks": checks,
     "not_applicable": na,
     "notes": "All checks import weac from /repo's working tree; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "pending")
