#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "P01": "set of reported ids against the specification's evaluation of every registered expression",
 "P02": "answers of indexes built differently compared with each other, one of them never partitioned",
 "P03": "one index per condition, answers against the specification's operators",
 "P04": "answers on events with undefined attributes, up to 200 attributes, nested negations",
 "P05": "joint index against one index per expression; number of interned and shared conditions",
 "P06": "existence answers against searches and the specification; index unchanged by queries",
 "P07": "answers of equivalent presentations of an event compared with each other",
 "P08": "outcome of every registration; index with refused attempts against one without",
 "P09": "refusal of events against the specification",
 "P10": "all report counts against the specification, over the recorded index structure",
 "P11": "outcome of every building; two-phase index against directly filled one",
 "P12": "answers and outcomes at and around declared capacities",
 "P13": "recorded index structure against the specification's invariants after insertions",
 "P14": "answers of frequency caps at their boundaries", "P15": "answers of segment conditions at their boundaries",
 "P16": "answers of text and radius conditions", "P17": "outcome and meaning of texts in and near the language",
 "P18": "allocation balance, AddressSanitizer, interleaved indexes against each alone",
 "P19": "evaluated count against the candidates the specification derives from the recorded structure",
 "P20": "declared domains, structure and answers of indexes declared by text against declarations by calls; histories with emptying against the specification",
 "P21": "printed forms parsed again by the specification, copies, order and equality of all pairs of conditions",
 "P22": "ranges of all attributes against the specification after every kind of call; ranges learned in different orders and ways against each other; answers with and without learning"}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
        "technique": "TLA+ specification checked with TLC; conformance of the code by replaying specification-generated and random histories and validating the recorded traces with TLC",
        "level": "model_checking",
        "level_note": NOTE[p] + ". The design model is checked exhaustively within its bounds; the code is bound to it by validated traces, so for the code the assurance is that of the explored histories. Trusts the driver, AddressSanitizer, gcc and TLC."})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": [],
    "hooks": {"guard": "NO_HOOKS_NEEDED", "enable": "no hooks: the driver in /verif/harness is compiled together with /repo/src/*.c", "source_commits": []}},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
