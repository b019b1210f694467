#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, specs.py and na.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import specs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/na.json"))
checks, out = [], []
for p in props:
    i = p["id"]
    if i in specs.PROPS:
        us = sorted({j.unit for j in specs.PROPS[i]["jobs"]})
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
            technique="symbolic execution of the compiled LLVM IR with an SMT solver (Z3)", level="model_checking",
            level_note="Every input within the bounds (%s) is decided by the solver on IR regenerated from the current tree; counterexamples are replayed natively before they are reported. Trusts: the executor (sample paths are compared with native runs each time), Z3, the lowering from source to IR." % specs.PROPS[i]["bounds"]))
    else:
        out.append(dict(property=i, reason=na[i]))
ids = {p["id"] for p in props}
assert set(specs.PROPS) <= ids, set(specs.PROPS) - ids
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=out,
    notes="No hooks are needed in /repo. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(out), "not claimed")

# DESIGN.md: what tools/design.in.md says, with the titles and bounds
import re
titles = {p["id"]: p["title"] for p in props}
def head(m):
    i = m.group(1)
    if i not in specs.PROPS:
        return "**%s %s.** %s" % (i, titles[i], na[i])
    return "**%s %s.** " % (i, titles[i])
out, cur = [], None
def close():
    if cur in specs.PROPS:
        s = specs.PROPS[cur]
        while out and not out[-1]: out.pop()
        out.append("*Bounds:* %s.%s" % (s["bounds"], (" *Assumes:* %s." % "; ".join(s["assumptions"])) if s["assumptions"] else ""))
        out.append("")
for line in open(V + "/tools/design.in.md").read().split("\n"):
    m = re.match(r"@@(\w+) ?", line)
    if m or line.startswith("#"):
        close()
        cur = m.group(1) if m else None
    out.append(re.sub(r"^@@(\w+) ?", head, line))
text = "\n".join(out)
missing = [i for i in ids if "**%s " % i not in text]
assert not missing, missing
open(V + "/DESIGN.md", "w").write(text)
