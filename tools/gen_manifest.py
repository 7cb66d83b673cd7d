#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C27": "A statement about real device clocks; no device, driver or runtime exists here. What the runtime does with any device answer is decided by C10.",
}
TODO = "No check yet."
NOTE = {
 "default": "The real code, built from the working tree with address sanitizer and library assertions, is run on every element of the stated finite space and compared step by step with an independent reference; nothing is claimed outside the alphabets and bounds in DESIGN.md. Trusts the explorer, the reference models in /verif/harness and gcc.",
 "C10": " The device is a stand-in whose events complete in every order; real device behaviour is C27.",
 "C13": " Asynchronous completions come from a stand-in device.",
 "C14": " The interleavings inside the MPI library are not enumerated (the exchange is a blocking collective); every assignment of measurements to ranks in the bounds is.",
 "C20": " Built without sanitizers, as compiled trees are loaded at run time.",
 "C26": " Frame pointers, unwinding tables and symbol lookup are those of gcc and glibc here; the program is compiled without sanitizers.",
 "C28": " OpenCV itself is trusted; its random generator is set to the same state before trainings that are compared.",
 "C25": " The script is run as it is over a stand-in for the part of pandas it uses, with the group naming of pandas 1 and 2; real pandas is not installed.",
 "C30": " The script is run as it is over stand-ins for the parts of pandas and numpy it uses; the plots are not judged.",
 "C29": " The driver is run as it is, on a recording program and on a program using the library.",
 "C24": " The scripts are run as they are, on model files written by the real code; cv2 is a stand-in that reads the stored files.",
}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    h = os.path.join(R, "harness", i.lower())
    if not (os.path.exists(h + ".cpp") or os.path.exists(h + ".py")):
        na.append({"property": i, "reason": TODO})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --thorough" % i,
        "technique": "explicit-state model checking of the implementation: stateless exhaustive enumeration of bounded " + ", ".join(p["quantifier"]["over"]) + " against a reference model",
        "level": "model_checking",
        "level_note": NOTE["default"] + NOTE.get(i, ""),
    })
m = {"version": 1, "setup_cmd": "python3 check.py C01 --build-only", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check uses the public interface, the environment settings and the files written. /repo carries only fix: commits, listed in known-findings.txt."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
