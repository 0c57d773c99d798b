"""Rewrites the 'fixed' entries of known_findings.json from the fix commits of /repo (run by hand, never by a check)."""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + "/tools/fixed_map.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
old = [e for e in json.load(open(V + "/known_findings.json")) if e.get("status") != "fixed"]
out, miss = [], []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or s.startswith("fix: average pooling count"):   # that pair undoes itself
        continue
    p = [p for k, p in M if k in s]
    if not p:
        miss.append(s); continue
    out.append(dict(status="fixed", property=p[0], commit=h, what=s[5:], entry="fixed: property=%s %s %s" % (p[0], h, s[5:])))
json.dump(old + out, open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed;", len(old), "known; unmapped:", miss)
