"""Writes DESIGN.md from design_text.py, the statements of registry.py and the scenario tables of checks/*.c.
Not run by any check."""
import os, re, sys, json, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "tools"), os.path.join(ROOT, "checks")]
import registry, specs
from design_text import HEAD, TAIL, TEXT, COST


def scenarios(src):
    out = []
    body = open(os.path.join(ROOT, "checks", src)).read()
    m = re.search(r"static const (mc|sx)_scenario\b", body)
    if not m:
        return out
    for line in body[m.start():].splitlines():
        n = re.match(r'\s*\{"([^"]+)",(.*)\},?\s*$', line)
        if not n:
            continue
        what = re.findall(r'"((?:[^"\\]|\\.)*)"', n.group(2))
        b = re.search(r",\s*(\d+),\s*(\d+),\s*[\w| ]+,\s*\"", n.group(2)) if m.group(1) == "mc" else None
        out.append((n.group(1), "".join(what).replace("\\\"", "\""), b and (b.group(1), b.group(2)), "SPURIOUS" in n.group(2)))
    return out


o = [HEAD.strip(), ""]
for p in registry.P:
    i = p["id"]
    o += ["### %s — %s" % (i, p["title"]), "", p["statement"], "", TEXT[i].strip(), ""]
    for h in specs.SPECS[i]["harness"]:
        eng = "mcrt" if h["flavor"] == "mc" else "seqx"
        o.append("Enumerated by %s (`checks/%s`):" % (eng, h["src"][0]))
        o.append("")
        for n, what, b, sp in scenarios(h["src"][0]):
            o.append("* `%s`: %s%s" % (n, what, " — all schedules with up to %s (thorough %s) deviations%s" % (b + (", spurious wake-ups included" if sp else "",)) if b else ""))
        o.append("")
    o.append("Assumed: " + "; ".join(specs.SPECS[i]["assumptions"]) + ".")
    if i in COST:
        o.append("Cost of the quick tier: " + COST[i] + ".")
    o += ["Beyond tests: " + p["why_tests_cant"], ""]
o += [TAIL.strip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o))
