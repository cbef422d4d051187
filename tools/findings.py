"""Regenerates known_findings.json: open findings, and one entry per repair (hash looked up in /repo by subject)."""
import json, os, subprocess
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
KNOWN = [
    ("C14", r"G2 as a quotient group: identity test on a representative other than O",
     "is0 and is1 of a G2 element of a type D, F or G pairing that represents the identity coset by a point other than O "
     "(for example r times a random element) answer no, although cmp with the identity says equal"),
]
# subject prefix of the fix commit -> property
FIXED = json.load(open(os.path.join(H, "tools", "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x09%s"], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
out = [{"property": p, "key": k, "what": w, "status": "known"} for p, k, w in KNOWN]
miss = []
for l in log:
    h, s = l.split("\t", 1)
    if not s.startswith("fix: "): continue
    p = next((v for k, v in FIXED.items() if s.startswith(k)), None)
    if not p: miss.append(l); continue
    out.append({"property": p, "status": "fixed", "key": "", "what": "fixed: property=%s %s %s" % (p, h, s[5:])})
json.dump(out, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(out), "entries; unassigned:", *miss, sep="\n")
