#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
BE = "bounded exhaustive enumeration of inputs on the real code against an independent reference model"
T = {
 "C01": BE + " (CESR code tables and codec rewritten from the specification)",
 "C02": BE + ": all short inputs, all single and pairwise deviations of valid encodings",
 "C03": "exhaustive exploration of all element sequences (stream states) up to depth 3/4 on the real parsers, against a reference splitter",
 "C04": "exhaustive fault enumeration: every cut point of every encoding, on the real parsers",
 "C05": "exhaustive enumeration of short inputs and code neighbourhoods on every constructor and accessor, panics trapped",
 "C06": BE + " (code x index x ondex)",
 "C07": BE + " (code x count x version)",
 "C08": BE + " (all lengths, all single-bit faults)",
 "C09": BE + " (all bit faults, key pairs, index/ondex choices)",
 "C10": BE + " (suite x route x seed lattice)",
 "C11": BE + " (sizes x tiers x salts x paths)",
 "C12": BE + " (type x code x route, complete)",
 "C13": BE + ": all small thresholds x all index lists against exact integer arithmetic",
 "C14": "exhaustive exploration of documents and of all single edits of each, on the real code against a reference digest of the edited document",
 "C15": "exhaustive exploration of event/credential shapes and all single edits and byte faults, load/store/load histories, against a reference serializer",
 "C16": BE + " (all single-character deviations, all offsets)",
 "C17": "exhaustive exploration of inception shapes and their alterations against a reference derivation",
 "C18": BE + " (every representation against every other)",
 "C19": BE + ": all short strings, all pairs of paths over a component alphabet, resolution against a tree walk",
 "C20": BE + " (calendar lattice, all single-character deviations)",
 "C21": BE + ": all JSON documents up to depth 3 over a boundary atom alphabet",
 "C22": "stateless exploration of all operation histories up to a bound and of all thread schedules up to a preemption bound on the real code, compared with a fresh state",
 "C23": "exhaustive enumeration of environment answers (full, short, interrupted, failing reads; unusable material) through an interposed entropy source",
 "C24": "explicit-state breadth-first exploration of event-log histories with an adversary, the real library in lock step with a reference log",
 "C25": "exhaustive enumeration of missing, null, wrongly typed and boundary fields (singles and pairs) over every accessor, panics trapped",
 "C26": "bounded exhaustive comparison of the wrapper with the core for every exported method",
 "C27": "exhaustive exploration of all operation histories up to a bound and of all constructor failures, every heap block searched for the secret by a monitor when it is given back",
}
NOTE = "Holds for every case within the bounds DESIGN.md gives for this property; assumes the cryptographic crates and serde_json used by the reference are right. Nothing is claimed beyond the bounds."
NA = {
}
have = {f[1:3] for f in os.listdir(here + "/../mc/src/props") if f.startswith("c") and f[1:3].isdigit()}
ids = [json.loads(l)["id"] for l in open(here + "/../properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in T and i[1:] in have:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=T[i], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built yet.")))
json.dump(dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na,
  notes="check.sh rebuilds the harness (mc/) against /repo's working tree with every run. No hooks in /repo are needed: everything is driven through the public API, libc interposition in the harness, and the crate's own wasm sources."),
  open(here + "/../MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
