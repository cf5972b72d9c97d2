"""Writes known_findings.txt: the defects repaired by fix: commits in /repo."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.rstrip("\n").split("\t") for l in open(os.path.join(V, "tools", "fix_props.tsv")) if l.strip())
KNOWN = os.path.join(V, "tools", "known.txt")
out = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
missing = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        s = s[5:]
        if s not in PROP:
            missing.append(s)
            continue
        out.append("fixed: property=%s %s %s" % (PROP[s], h, s))
if missing:
    print("NO PROPERTY FOR:\n" + "\n".join(missing))
if os.path.exists(KNOWN):
    out += [l.rstrip("\n") for l in open(KNOWN) if l.strip()]
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
