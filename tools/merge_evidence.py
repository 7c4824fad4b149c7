"""Adds the parts of a check that ran the cases of others to its evidence."""
import glob
import json
import os
import sys

root, pid = sys.argv[1:3]
path = os.path.join(root, "evidence", pid + ".json")
e = json.load(open(path))
c = e["coverage"]
c["cases_of_other_checks"] = {}
for p in sorted(glob.glob(os.path.join(root, "out", pid + "-C*.json"))):
    name = os.path.basename(p)[len(pid) + 1 : -5]
    o = json.load(open(p))
    oc = o["coverage"]
    c["evaluations"] += oc["evaluations"]
    c["distinct_nontrivial"] += oc["distinct_nontrivial"]
    c["samples"] += [name + ": " + s for s in oc["samples"][:1]]
    c["truncated_by_time_cap"] = c["truncated_by_time_cap"] or oc["truncated_by_time_cap"]
    c["unconfirmed"] += oc["unconfirmed"]
    c["cases_of_other_checks"][name] = {
        "evaluations": oc["evaluations"],
        "distinct_nontrivial": oc["distinct_nontrivial"],
        "families": oc["families"],
    }
    e["violations"] = e.get("violations", 0) + o.get("violations", 0)
    e["wall_s"] += o["wall_s"]
json.dump(e, open(path, "w"), indent=1)
