#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MODEL = "bounded exhaustive enumeration of inputs, conformance with an executable reference model"
INV = "bounded exhaustive enumeration of inputs, invariant checked on every execution"
REL = "bounded exhaustive enumeration of inputs, relations between executions"
T = {
 "C01": (INV, "every input within the bounds, and nesting and repetition at boundary sizes, runs under a watchdog and in a supervised process"),
 "C02": (INV, None), "C03": (INV, None), "C04": (INV, None),
 "C05": (MODEL + " and source syntax per event", "ranges are compared with the model where its events agree, and with the syntax of each event always"),
 "C06": (INV, "what may stay uncovered (markers of block quotes, separators etc.) is taken from the reference model"),
 "C07": (REL, None), "C08": (REL, None),
 "C20": (MODEL, "the model is an automaton of the documented grammar; also checked where sets are attached in documents"),
 "C21": ("exhaustive enumeration of built and parsed attribute sets against a list model", None),
 "C24": ("exhaustive enumeration of arrangements of notes against a reference renderer", None),
 "C25": ("exhaustive enumeration of parsed and built event sequences against a reference renderer", None),
 "C26": (INV + " (strict reader of the output)", None),
 "C27": ("exhaustive enumeration of event sequences and formats against a layout model", None),
 "C28": ("exhaustive enumeration of sink faults and partial writes on the real renderer", "every failing position and every size of partial writes for every enumerated document"),
 "C29": ("exhaustive enumeration of clone points, interleavings and histories", None),
 "C30": ("exhaustive enumeration of options and input/output faults on the real tool", "the tool runs as a process; faults are real: closed pipes, size limits at every byte, missing files, invalid bytes at every position"),
 "C31": (REL, None),
 "C32": (INV, "containers are compared with a table and with where they occur; bullets for every character there is"),
 "C33": (REL, "every part within the bounds comes after each of 20 parts that leave something, and before each of 16 that may pick it up"),
}
FAULT = {"C28", "C30"}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)["id"]
    tech, note = T.get(p, (MODEL, "all events of the implementation are compared with those of an independent reference model, on every input within the bounds"))
    note = note or "decided by executing the real code on every case within the bounds"
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": tech,
        "level": "fault_enumeration" if p in FAULT else "model_checking",
        "level_note": note[0].upper() + note[1:] + ". Nothing is sampled; inputs beyond the listed alphabets, contexts and depths (see evidence) are not covered.",
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is decided through the public interface of the crate and its command line tool. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
