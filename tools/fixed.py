"""tools/fixed.py C04 HASH [HASH...]: record fix commits in known_findings.json."""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
for h in sys.argv[2:]:
    m = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    hh, msg = m.split(" ", 1)
    assert msg.startswith("fix: "), msg
    line = "fixed: property=%s %s %s" % (sys.argv[1], hh, msg[5:])
    if line not in k["fixed"]:
        k["fixed"].append(line)
json.dump(k, open(p, "w"), indent=1)
