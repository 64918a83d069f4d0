#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md (between the planted markers) from seeded/*/meta.json and tools/missed.txt."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(here, "tools", "missed.txt")).read().split())
by, n = {}, 0
for d in sorted(os.listdir(os.path.join(here, "seeded")), key=lambda x: int(re.match(r"b(\d+)", x).group(1))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    n += 1
    by.setdefault(m["property"], []).append("*%s*" % d if d.split("-")[0] in missed else d)
text = "%d bugs, %d of them missed at first.\n\n" % (n, sum(x[0] == "*" for v in by.values() for x in v))
text += "".join("* %s: %s\n" % (p, ", ".join(by[p])) for p in sorted(by))
f = os.path.join(here, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- end -->)", lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(f, "w").write(s)
