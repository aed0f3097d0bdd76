#!/usr/bin/env python3
"""Adds the 'fixed:' lines for the fix commits of /repo to known_findings.json.
Development aid; the checks never write that file."""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(V, "known_findings.json")
d = json.load(open(PATH)) if os.path.exists(PATH) else {"findings": []}
PROP = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
have = {k["line"].split(": ")[1].split()[1]: k for k in d["findings"] if k.get("status") == "fixed"}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x00%s"],
                     capture_output=True, text=True).stdout.splitlines()
d["findings"] = [k for k in d["findings"] if k.get("status") != "fixed"]
for l in log:
    h, s = l.split("\0")
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    pid = PROP.get(s)
    if pid is None:
        print("no property for: %s" % s)
        continue
    d["findings"].append({"property": pid, "status": "fixed", "what": s,
                          "line": "fixed: property=%s %s %s" % (pid, h, s)})
json.dump(d, open(PATH, "w"), indent=1)
open(PATH, "a").write("\n")
