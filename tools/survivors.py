"""survivors.py OUT.jsonl [file]: the survivors of a mutation campaign."""
import json, sys
from collections import Counter
c = Counter()
for l in open(sys.argv[1]):
    r = json.loads(l)
    c[r["file"], r["status"][:8]] += 1
    if r["status"] == "SURVIVED" and (len(sys.argv) < 3 or r["file"] == sys.argv[2]):
        print(r["file"], r["what"][:150], "ODD" if r.get("odd") else "")
print(dict(c))
