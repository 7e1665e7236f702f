#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, subprocess
CLAIMED = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"]
TECH = "contract-based deductive verification (symbolic execution of the SSA of /repo's sources, obligations discharged by SMT)"
NOTE = {"C08": "Bounded, not proved for every size: all sets of one or two members (any of the level 0 dates, with a range or a comma, open or not), symbolically over all their members, relative to the contract of common.dateSpanFromYMD, which is proved."}
LEVEL = {"C08": "other"}
props = [json.loads(l) for l in open("properties.jsonl")]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in commits if l.split(" ", 1)[1].startswith("verif:")]
DEFAULT = ("Every obligation of the property's contracts is discharged for all inputs admitted by its preconditions, with no bound on their number or size except where a contract is labelled bounded. "
           "Trusted: the engine (Go SSA semantics), golang.org/x/tools/go/ssa, the SMT solvers, and the models of the standard library functions listed in the evidence.")
m = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "hooks": {"guard": "verif", "enable": "the contracts are comments in files with the build tag verif; the checks read them from there and compile the generated conditions in through go's -overlay, with no tag needed for the code itself", "source_commits": hooks},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i, "technique": TECH, "level": LEVEL.get(i, "proof"), "level_note": NOTE.get(i, DEFAULT)})
    else:
        m["not_applicable"].append({"property": i, "reason": "its contracts are not written yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
