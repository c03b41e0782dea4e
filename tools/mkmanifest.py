#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
C = {}
def c(id, technique, note, level="exploration"):
    C[id] = (technique, note, level)
exec((V / "tools" / "manifest_table.py").read_text())
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    if p in C and (V / "checks" / (p.lower() + ".py")).exists():
        t, n, l = C[p]
        checks.append(dict(property=p, quick_cmd="bash check.sh %s quick" % p,
                           thorough_cmd="bash check.sh %s thorough" % p,
                           technique=t, level=l, level_note=n))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor sits at the process boundary (arguments, stdout, exit status, "
               "system calls, git stand-ins on PATH) or uses exported packages through a go build overlay.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
