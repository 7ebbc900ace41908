"""Summarise replay files of a property: python3 tools/fails.py C16"""
import collections, glob, json, sys
c = collections.Counter(); ex = {}
for f in glob.glob(f"/verif/evidence/replay/{sys.argv[1]}-*.json"):
    d = json.load(open(f)); k = (d["group"], d["message"][:150]); c[k] += 1; ex.setdefault(k, d["case"])
for k, n in c.most_common(): print(n, k, ex[k])
