"""Adds the 'fixed' entries (one per fix commit) to known_findings.json; keeps the 'known' ones as they are."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "known_findings.json")
d = json.load(open(p))
have = {e.get("commit") for e in d["findings"]}
amap = json.load(open(os.path.join(ROOT, "tools", "fixmap.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    prop = next((v for k, v in amap.items() if k in s), None)
    if prop is None:
        print("no property for", l); continue
    if h in have:
        continue
    d["findings"].append(dict(property=prop, status="fixed", commit=h, what=s[5:], key=f"fixed: property={prop} {h} {s[5:]}"))
d["findings"].sort(key=lambda e: (e["status"], e["property"], e["key"]))
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
print(len(d["findings"]))
