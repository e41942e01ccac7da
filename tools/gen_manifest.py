#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table in check.py and the texts below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check
T = {
 "U01": "explicit enumeration of all codepoints and all short sequences on the real conversion against a reference encoder",
 "U02": "exhaustive exploration of (text, cursor) x operation sequences on the real iterators against an integer-cursor model",
 "U03": "exhaustive exploration of (text, surrounding memory) with inaccessible pages; every observable compared with the text alone",
 "U04": "enumeration of all octet buffers over octet classes and all short octet strings, real check/enforce/walk against the definition",
 "U06": "enumeration of all octet buffers over octet classes x all starting octets on the real operations, step-counted, in guarded memory",
 "X01": "enumeration of all short texts over non-character values and ordinary codepoints, and of all aliases of ordinary codepoints, against the extended reference model",
 "C01": "enumeration of all canonically ordered short texts over composing codepoints against the UAX #15 composition algorithm",
 "E01": "enumeration of all argument lists to a bound, each documented program run on each, against the reference model",
 "E02": "enumeration of all small texts in encodings defined by the client, on the real templates, against the reference model",
 "W01": "enumeration of all codepoints, short texts, places in long texts and doubled patterns on the real code, every operation's basic blocks and allocations counted and held against a limit",
 "V01": "enumeration of all ints and all pairs of boundary values on the real type against integers",
 "U08": "enumeration of all short texts and pairs of texts x every admissible standard algorithm x iterator kinds against the same algorithm over the codepoint list",
 "P01": "enumeration of build configurations and environments; in each, exhaustive enumeration of the same cases on the real code, traces compared with those of the first build",
 "U07": "exhaustive exploration of (text, start) x operation sequences with in-place writes on the real mutable iterators against a list model",
 "G04": "exhaustive exploration of operation sequences on two grapheme iterators and a kept grapheme over all short texts, every comparison, against a cursor model",
 "I02": "enumeration of all programs that include one or an ordered pair of public headers, or all, compiled; linked and run in several translation units",
 "U05": "enumeration of all write sequences x previous buffer contents on the real mutable iterators",
 "S01": "exhaustive operation sequences on two strings, and all native ranges of all short texts, against a vector model",
 "S02": "enumeration of all (operation, destination, source) client programs, each compiled, accepted ones run",
 "G01": "enumeration of every integer of the stated range through the real lookup against Unicode 9.0.0 data",
 "G02": "enumeration of all class sequences to a bound, runs, and every codepoint in context, against UAX #29 (9.0)",
 "G03": "enumeration of all class sequences x all native starting positions against UAX #29 (9.0)",
 "D01": "enumeration of every integer of the stated range, and all pairs over classes, against Unicode 9.0.0 data",
 "D02": "enumeration of every codepoint and all short call sequences on one output against Unicode 9.0.0 data",
 "D03": "enumeration of all pairs with a table element on either side (all Hangul pairs, aliased pairs) against Unicode 9.0.0 data",
 "N01": "enumeration of all codepoints, all relevant pairs and all sequences over behaviour representatives against UAX #15",
 "N02": "enumeration of all codepoints, all relevant pairs and all sequences over behaviour representatives against UAX #15",
 "N03": "enumeration of all codepoints, all relevant pairs and all sequences over behaviour representatives against UAX #15",
 "N04": "enumeration of all codepoints, all relevant pairs and all sequences over behaviour representatives against UAX #15",
 "N05": "enumeration of all run lengths to a bound with all placements of deviating marks, against stable ordering",
 "N06": "exhaustive chains of forms and canonical rewrites of all short texts on the real code against itself",
 "N07": "enumeration of all texts x storages x forms x output encodings, agreement of all configurations",
 "F01": "enumeration of all ranges x result patterns x throw positions x iterator kinds against a call log",
 "H01": "exhaustive operation histories (all ordered pairs of boundary lookups, all sequences to a depth) against a fresh process",
 "T01": "stateless exploration of all schedules to a preemption bound, scheduling point at every shared memory access of the real code",
 "I01": "enumeration of all link orders of client and library objects, start-up and shutdown observed",
 "A01": "enumeration of every allocation failure point (and pairs) of every operation on short texts",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
skip = set(sys.argv[1:])
checks, na = [], []
for i in ids:
    if i in check.PROPS and i not in skip:
        sp = check.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="model checking: " + T[i], level="model_checking",
            level_note="Exhaustive within the bounds listed in the evidence (coverage.bounds), on the real code rebuilt from /repo; nothing is said outside those bounds. Assumes: " + "; ".join(sp["assume"]) + "."))
    else:
        na.append(dict(property=i, reason="the check for it is still being built; model checking does apply"))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="No hooks are compiled into /repo: every check drives the public interface of the current tree. Run `python3 check.py replay <file>` on the replay path a violation names.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
