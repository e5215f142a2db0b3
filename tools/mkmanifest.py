#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "random and exhaustive small documents; lookups against a reference parser's spans",
 "C02": "random documents with generated unresolved paths; error-code oracle over all functions",
 "C03": "random and exhaustive edits; byte-splice oracle and reference tree model",
 "C04": "random and exhaustive edits; byte-splice oracle and reference tree model",
 "C05": "random and exhaustive edits; reference tree model and locality oracle",
 "C06": "random and exhaustive edits; reference tree model and locality oracle",
 "C07": "random and exhaustive edits; reference tree model and locality oracle",
 "C08": "random and exhaustive edits; reference tree model and locality oracle",
 "C09": "model-based histories of edits against a reference tree",
 "C10": "generated failing calls and histories; before/after snapshots of every read",
 "C11": "generated calls on guarded buffers with spare capacity; retained results compared over histories",
 "C12": "generated concurrent and reentrant schedules compared with isolated runs, under the race detector",
 "C13": "generated typed edits in three forms; splice and read-back oracle",
 "C14": "generated scalar texts in random documents; strconv-based oracle",
 "C15": "generated arrays in random documents; reference parser oracle",
 "C16": "random and exhaustive documents with stops at every position; reference tree oracle",
 "C17": "random and exhaustive documents; reference tree oracle",
 "C18": "random documents and look-alike texts; reference parser oracle",
 "C19": "random and exhaustive documents with stops at every leaf; reference tree oracle",
 "C20": "random and exhaustive documents; differential against interpreter and reference tree",
 "C21": "model-based histories of Parser edits against a reference tree and the interpreter",
 "C22": "random documents and edit histories; reference rendering oracle",
 "C23": "differential histories of JO calls against the free functions, on well-formed and damaged texts",
 "C24": "random and respaced documents; token-level oracle, idempotence and read-equality relations",
 "C25": "random and respaced documents; layout oracle, idempotence and metamorphic relations",
 "C26": "generated argument lists; reference parser oracle",
 "C27": "model-based histories of Scheme calls, random and exhaustive",
 "C28": "random documents and derived schemes; reference tree oracle",
 "C29": "structure-aware fuzzing of every function and of call histories with CPU, heap and panic oracles",
 "C30": "structure-aware fuzzing of edits; one-splice oracle",
}
checks = []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run.sh {i} quick",
        "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing: " + TECH[i],
        "level": "exploration",
        "level_note": "generated inputs against an explicit oracle; every case replayable and shrunk, bounds and counts in the evidence file and DESIGN.md",
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks))
