"""Adds 'fixed' entries for /repo fix: commits not yet in known_findings.json.  usage: record_fixes.py HASH=CXX ..."""
import json
import subprocess
import sys

p = "/verif/known_findings.json"
d = json.load(open(p))
have = {f.get("commit") for f in d["findings"]}
m = dict(a.split("=") for a in sys.argv[1:])
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n"):
    if " fix:" not in l:
        continue
    h, msg = l.split(" ", 1)
    if h in have:
        continue
    if h not in m:
        print("missing", l)
        continue
    d["findings"].append({"property": m[h], "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (m[h], h, msg[5:])})
json.dump(d, open(p, "w"), indent=1)
