#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.json, properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: lines built from intended occurrences, read back compared (round trip)",
 "C02": "property-based testing: metamorphic relation between respelled lines",
 "C03": "property-based testing: words dealt to positionals by intent, interleaved with options",
 "C04": "property-based testing and libFuzzer: differential against a reference parser on arbitrary words",
 "C05": "property-based testing: single faults injected in valid lines",
 "C06": "property-based testing: metamorphic relation around the first --",
 "C07": "property-based testing: default values by intent, given and absent",
 "C08": "property-based testing: subsets of required arguments by intent",
 "C09": "property-based testing: help and version requests, output captured, exit in child processes",
 "C10": "property-based testing: independent decision of each validator, scratch file-system layouts",
 "C11": "property-based testing: recording validators that accept, reject, throw and change",
 "C12": "property-based testing: own number grammar and exact integer reference",
 "C13": "property-based testing: destinations of all types against the values by intent",
 "C14": "property-based testing: counting occurrences by intent over clusters and spellings",
 "C15": "stateful property-based testing: history of parses against a fresh object",
 "C16": "model-based stateful testing of declaration histories",
 "C17": "stateful property-based testing: cleared object against a new one",
 "C18": "property-based testing: usage text against an independent list of tokens",
 "C19": "property-based testing: layout rules checked on usage texts at random widths",
 "C20": "property-based testing: metamorphic relation over orders of declarations and setters",
 "C21": "random API sequences and libFuzzer under AddressSanitizer and UBSan, allocation balance",
 "C22": "property-based testing: exactly sized argv blocks, overwritten after the parse",
 "C23": "model-based stateful testing with counting validators",
 "C24": "property-based testing: all accesses of a parsed argument compared with each other",
 "C25": "differential testing of one scenario over many builds of the library",
 "C26": "property-based testing: words after infinite arguments, stop found by an independent recogniser",
 "C27": "stateful and multi-threaded testing of several objects against each alone, ThreadSanitizer",
 "C28": "property-based testing: acceptance of declarations against a reference predicate",
 "C29": "property-based testing: metamorphic relation between alternative mode on and off",
 "C30": "property-based testing: strict mode against non-strict mode",
 "C31": "property-based testing: all forms of writing a list against each other",
 "C32": "property-based testing: exceptions caught, copied, rethrown and outliving their objects",
 "C33": "fault injection by the caller's functions: exceptions of many types at a random callback, then further parses by intent",
 "C34": "stateful property-based testing: copies of arguments against what they were when made",
 "C35": "metamorphic stateful testing: the same script with and without inserted reads and usage texts",
 "C36": "property-based testing: metamorphic relation with and without unused declarations",
 "C37": "stateful property-based testing: arguments declared again from their accessors, and the reference parser on what they say",
 "C38": "property-based testing: metamorphic relation between orders of the occurrences on a line",
 "C39": "property-based testing: lines written by a reader of the usage text, round trip",
 "C40": "fault injection: a failing allocation at a random point of model-based random histories",
 "C41": "property-based testing: round trip from what is read to a line and back",
 "C42": "property-based testing: model of the settings over a history, metamorphic relation with a bare object",
}
NOTE = ("Searches generated cases (random choice sequences, and libFuzzer in the thorough tier) against an explicit oracle, on the "
        "compiled library and the single header, under AddressSanitizer and UndefinedBehaviorSanitizer. No proof: absence of a "
        "violation holds for the generated cases. Trusts the harness, its reference model and the sanitizers.")
EXTRA = {
 "C25": " The builds themselves run without sanitizers.",
 "C27": " Schedules are those the machine happens to produce; ThreadSanitizer extends each to its happens-before relation.",
 "C09": " A process exit is observed in a forked child.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", "props", i + ".cpp")):
        checks.append({"property": i, "quick_cmd": "python3 check.py run " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py run " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py build C01", "checks": checks, "not_applicable": na,
     "notes": "Every check builds what it needs from /repo's working tree in /verif/build. Recorded findings: known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
