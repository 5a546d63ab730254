"""Writes the per-property table of DESIGN.md between its markers (python3 lib/design.py)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in props.P:
    m = ", ".join(f"{a} {q}/{t}" for a, q, t in [*p["modes"], *p["umodes"]]) or "-"
    n = sum(x[1] for x in [*p["profiles"], *p["uprofiles"]]), sum(x[2] for x in [*p["profiles"], *p["uprofiles"]])
    judged = "everything except " + ", ".join(p["off"]) if p["off"] else "everything"
    e = ("; " + ", ".join(p["extra"])) if p["extra"] else ""
    rows.append(f"* **{p['id']} {p['title']}.** Models (depth quick/thorough): {m}. Random histories: {n[0]}/{n[1]}{e}. "
                f"Judged: {judged}. Observed: {'; '.join(p['observe'])}. Beyond tests: {p['why']}")
f = os.path.join(V, "DESIGN.md")
t = open(f).read()
t = re.sub(r"(<!-- properties -->\n).*?(<!-- end -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(f, "w").write(t)
