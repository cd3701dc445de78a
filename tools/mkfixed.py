"""Writes the 'fixed' list of known_findings.json from the fix: commits in /repo."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = json.load(open(os.path.join(V, "tools", "fixprops.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split("\t", 1)
    if s.startswith("fix: "):
        out.append(f"fixed: property={PROPS[s[5:]]} {h} {s[5:]}")
p = os.path.join(V, "known_findings.json")
k = json.load(open(p)); k["fixed"] = out
json.dump(k, open(p, "w"), indent=1)
print(len(out), "fixes")
