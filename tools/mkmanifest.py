#!/usr/bin/env python3
"""writes MANIFEST.json: a property is claimed when sa/checks/<id>.py exists"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the type-checked MIR (affine facts, trace partitions, inferred loop invariants)"
T = {
    "C01": AI + ": emitted byte grammar, each length field compared with the symbolic length of what follows it",
    "C02": AI + ": log of positioned writes compared with the specified layout",
    "C03": AI + ": log of positioned writes compared with the specified layout",
    "C04": AI + ": log of positioned writes compared with the specified layout",
    "C05": AI + ": typestate of the file (unmodified / modified) at every error return",
    "C06": AI + ": typestate of buffers and of the shared file position",
    "C07": AI + ": typestate of failed operations at every return",
    "C08": AI + ": every panic site reachable from parsing is an obligation",
    "C09": AI + ": per-iteration progress of every stream loop, bounds of every run-time sized allocation",
    "C10": AI + ": stream position at every parse and skip compared with the declared size",
    "C11": AI + ": comparison of what the two parsers accept and select",
    "C12": AI + ": emission and decoding per kind compared with the table of the format",
    "C13": AI + ": outcome of every view per kind",
    "C14": AI + ": outcome of every conversion per code compared with the table of the format",
    "C15": AI + ": identifiers in the conditions and stores of every accessor",
    "C16": AI + ": composition of setters and getters",
    "C17": AI + ": composition of setters and getters on the stored bytes",
    "C18": AI + ": class invariant of Tag over every function that builds or changes one",
    "C19": AI + ": equality conditions compared with the definition per pair of kinds",
    "C20": "effect analysis over the resolved call graph, data flow of open flags and path",
    "C21": AI + ": origin (stream position and bits) of every reported field",
    "C22": AI + ": every narrowing conversion that reaches the output is an obligation",
    "C23": AI + ": emitted byte grammar compared with the layout of the format",
    "C24": AI + ": every panic site reachable from an accessor is an obligation",
    "C25": AI + ": effect of every retain, remove and take on each entry and value",
    "C26": AI + ": outcome of the genre functions compared with the list and the order",
}
NOTE = ("Decides the rule stated in the evidence file for all inputs, by a sound-by-construction abstract interpreter of the MIR that "
        "rustc builds from the current tree. Trusted: rustc's MIR, the models of the std functions used, the prover for affine facts. "
        "What the analysis cannot settle is listed as undecided in the evidence and is not reported.")
EXTRA = {
    "C08": " Assumes readers and seeks behave as std::io documents.",
    "C24": " Assumes closures and iterators handed in by the caller do not panic and that values in memory together are below 2^50 bytes.",
}
NA = {
    "C27": "Whether reading back a written file yields the same tag quantifies over the content of whole files (what an arbitrary "
           "parseable file looks like after the write at every other place a reader looks); the static rules decide the parts it is made of "
           "(layout C23, position C02, sizes C01/C03, same item list C11, codes C12) but no sound static argument in reach composes them for every file.",
    "C28": "A property of crash points of the operating system and storage: which of the issued writes survive an interruption is not in "
           "the source, and the library rewrites in place by design, so at some points data is in memory only; no static rule on this code can establish it.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(ROOT, "sa/checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 -m sa " + i, "thorough_cmd": "python3 -m sa %s --thorough" % i,
                       "technique": T[i], "level": "other", "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
json.dump({"version": 1, "setup_cmd": "python3 -m sa --setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
