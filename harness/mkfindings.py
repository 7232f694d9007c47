"""Rewrites the "fixed" entries of known_findings.json from the fix commits in /repo (development aid)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAGS = ("C16 C08 C03 C06 C06 C06 C08 C12 C12 C06 C11 C11 C11 C17 C16 C17 C16 C04 C23 C13 C01 C23 C26 C02 C20 C20 C21 C25 C05 C05 "
        "C13 C13 C10 C01 C02 C12 C24 C20 C20 C12 C11 C25 C25 C18 C18 C23 C27 C28 C29 C11 C20 C27 C09 C02").split()
lines = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "942f358..HEAD"], text=True).splitlines()
assert len(lines) == len(TAGS), (len(lines), len(TAGS))
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["fixed"] = [f"fixed: property={t} {l.split(' ', 1)[0]} {l.split(' ', 1)[1].replace('fix: ', '', 1)}" for t, l in zip(TAGS, lines)]
json.dump(d, open(p, "w"), indent=1)
print(len(lines), "fixed entries")
