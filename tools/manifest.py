#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
ORACLE = {
 "C01": "the source with its comments removed by an independent stripper",
 "C02": "the source with its comments removed by an independent stripper",
 "C03": "the source with its comments removed by an independent stripper",
 "C04": "an independent recursive-descent reader, and the generated tree the source was printed from",
 "C05": "an independent recursive-descent reader, and the generated tree the source was printed from",
 "C06": "an independent reader of maths over the reference tree, and the generated tree the source was printed from",
 "C07": "an independent paragraph cutter, and the generated tree the source was printed from",
 "C08": "an independent splitter into sections, and the generated tree the source was printed from",
 "C09": "the source of the option list: pieces join to the entry, key and value trimmed, cut at the first equals sign",
 "C10": "equality with the direct parse (round trip) and with the lowered reference tree",
 "C11": "equality with the direct parse (round trip) and with the lowered reference tree",
 "C12": "lines computed from the printed reference tree",
 "C13": "newlines counted in the printed form",
 "C14": "for one injected fault: kind and line known by construction; for any string: accept/reject and kind by the reference reader",
 "C15": "no panic, abort, overflow or runaway: every public operation is called under a supervised worker process",
 "C16": "metamorphic: outcome with comments equals outcome without",
 "C17": "an independent rule checker giving the set of broken rules",
 "C18": "a reference document model compared after every push",
 "C19": "metamorphic: rebuild through checked constructors equals the original",
 "C20": "metamorphic: fragment alone against fragment in context",
 "C21": "bytes requested, counted by the harness' allocator, against a fixed bound; thread processor time at two lengths against a growth factor",
 "C22": "round trip: print then parse gives an equal value",
 "C23": "differential between the stages",
 "C24": "the printed text of the reference tree, before and after each conversion; lines computed from the text",
 "C25": "differential: part alone against part inside a document; an independent paragraph cutter",
 "C26": "the tree of parts the value was assembled from, and the same tree with one part changed",
 "C27": "metamorphic: the whole against its two halves",
 "C28": "differential: the first result against later ones and ones in other threads",
 "C29": "metamorphic: the tree of the rewritten text is the rewritten tree",
 "C30": "metamorphic: the tree with the added whitespace taken out equals the tree of the original",
 "C31": "metamorphic: tree and error of the longer text against those of the original; lines counted from the text of the nodes before",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing and coverage-guided fuzzing (generated inputs, bounded-exhaustive inputs, shrinking): " + ORACLE[i],
        "level": "exploration",
        "level_note": "Searches for a counterexample among generated inputs; finding none is evidence, not proof. Oracle: "
                      + ORACLE[i] + ". Trusts the generators, the oracle code in harness/src and proptest; the crate is compiled with overflow checks and debug assertions.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. VERIF_SEED selects the random choices (default 1). `bash check.sh replay FILE` re-runs a saved failing case. known-findings.txt lists the defects fixed in /repo.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
