#!/usr/bin/env python3
"""plan.py -> properties.jsonl, MANIFEST.json"""
import json, os, subprocess
from plan import PROPS, NA
here = os.path.dirname(os.path.abspath(__file__))


def line(id, p):
    assert len(p["title"]) <= 80, (id, len(p["title"]))
    a = dict(files=p["files"], mechanism=p["mechanism"])
    if p.get("hook"):
        a["hook_needed"] = p["hook"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (id, f)
    for m in p["mechanism"]:
        assert os.path.exists("/repo/" + m["where"]), (id, m)
    return dict(id=id, title=p["title"], statement=p["statement"], quantifier=p["quantifier"], why_tests_cant=p["why"], anchors=a)


with open(here + "/properties.jsonl", "w") as f:
    for id, p in PROPS.items():
        f.write(json.dumps(line(id, p)) + "\n")
    for p in NA:
        f.write(json.dumps(line(p["id"], p)) + "\n")
m = dict(version=1, setup_cmd="./build.sh -q", hooks=dict(guard="none", enable="no hooks: the seams are libc, the allocator and public traits", source_commits=[]),
         checks=[dict(property=id, quick_cmd=f"./check.py {id}", thorough_cmd=f"VERIF_TIER=thorough ./check.py {id}", technique=p["technique"], level=p["level"], level_note=p["note"])
                 for id, p in PROPS.items()],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
