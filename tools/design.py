#!/usr/bin/env python3
"""Makes DESIGN.md. Run after editing proplist.py, a check's subs, known_findings.json or seeded/."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from proplist import PROPS
from design_notes import ORACLE, FALSE_ALARMS, CANDIDATES, CAUGHT
subs, cur = {}, None
for f in sorted(glob.glob(here + "/harness/src/bin/*/*.rs")):
    cur = None
    for m in re.finditer(r'pub fn (c\d\d)\w*\(|p\.sub\(\s*"([^"]+)",\s*"([^"]+)",\s*([\d_]+),\s*([\d_]+)', open(f).read()):
        if m.group(1):
            cur = m.group(1).upper()
        elif cur:
            subs.setdefault(cur, []).append(m.groups()[1:])
num = lambda s: f"{int(s.replace('_', '')):,}"
kf = json.load(open(here + "/known_findings.json"))
o = open(here + "/tools/design_head.md").read()
o += "## 3. The properties and how each is decided\n\n"
for p in sorted(PROPS, key=lambda p: p["id"]):
    o += f'### {p["id"]} {p["title"]}\n\n'
    if p.get("na"):
        o += f'Not applicable: {p["na"]}\n\n'
        continue
    o += f'- **Quantified over** {p["quant"]} ({", ".join(p["over"])}).\n'
    o += f'- **Why tests cannot settle it**: {p["why"]}\n'
    o += f'- **Method** (`{p["bin"]}`): {p["tech"]}. {p["note"]}\n'
    if p["id"] in ORACLE:
        o += f'- **Generated / oracle**: {ORACLE[p["id"]]}\n'
    if p["id"] in subs:
        o += "- **Sub-checks** (cases quick / thorough; non-trivial when):\n"
        for n, rule, q, t in subs[p["id"]]:
            o += f"  - `{n}` {num(q)} / {num(t)}; {rule}\n"
    fs = [f for f in kf["findings"] if f["property"] == p["id"]]
    for f in fs:
        o += f'- **Known finding** `{f["signature"]}`: {f["what"]}\n'
    o += "\n"
o += "## 4. Defects repaired in /repo\n\n"
for f in kf["fixed"]:
    o += f"- {f if isinstance(f, str) else json.dumps(f)}\n"
o += "\n## 5. Seen, neither repaired nor decided by a check\n\nDefects or oddities met while reading or building, outside what a listed property states or too large for a small repair:\n\n"
for c in CANDIDATES:
    o += f"- {c}\n"
o += "\n## 6. False alarms and what was done about them\n\n"
for c in FALSE_ALARMS:
    o += f"- {c}\n"
o += "\n## 7. Planted bugs and which checks catch them\n\n| bug | property | needs | caught by (quick) |\n|---|---|---|---|\n"
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    o += f'| {n} | {m["property"]} | {m["needs"]} | {CAUGHT.get(n, m["property"])} |\n'
o += open(here + "/tools/design_tail.md").read()
open(here + "/DESIGN.md", "w").write(o)
print(len(o), "characters")
