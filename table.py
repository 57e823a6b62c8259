"""Rewrites the table of measured coverage at the end of DESIGN.md from evidence/ (after a run of every check)."""
import glob, json, os, re
V = os.path.dirname(os.path.abspath(__file__)); p = V + "/DESIGN.md"; s = open(p).read(); L = []
for f in sorted(glob.glob(V + "/evidence/[A-Z][0-9][0-9].json")):
    d = json.load(open(f)); c = d["coverage"]
    L.append("| %s | %s | %s | %s | %.0f |" % (d["property"], format(c.get("traces_validated_against_impl", c.get("evaluations", 0)), ","), format(c.get("states", 0), ","), format(c["transitions"], ",") if "transitions" in c else format(c.get("distinct_nontrivial", 0), ",") + " non-trivial", d["wall_s"]))
head = "| property | executions | states | steps checked | seconds |\n|---|---|---|---|---|\n"
i = s.index(head) + len(head); open(p, "w").write(s[:i] + "\n".join(L) + "\n")
