# lines (and one-sided branches) of /repo that no symbolic execution of the last run of each check reached: python3 lib/cov.py [-b] [Cxx...]
import json, sys, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = [x for x in sys.argv[1:] if x != "-b"]
T = {}
for f in sorted(glob.glob(V + "/build/cov/*.json")):
    if a and os.path.basename(f)[:3] not in a: continue
    for fl, d in json.load(open(f)).items():
        for l, v in d.items(): T.setdefault(fl, {}).setdefault(int(l), 0); T[fl][int(l)] |= v
for fl in sorted(T):
    d = T[fl]; src = open(os.environ.get("SPASM_REPO", "/repo") + "/" + fl).read().split("\n")
    print("%s: %d of %d lines" % (fl, sum(1 for v in d.values() if v & 1), len(d)))
    for l in sorted(d):
        if not d[l] & 1: print("   %5d  %s" % (l, src[l - 1].strip()[:140]))
        elif "-b" in sys.argv and d[l] & 12 in (4, 8): print("   %5d  [always %s] %s" % (l, "true" if d[l] & 4 else "false", src[l - 1].strip()[:130]))
