#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [],
                               observe_at=observe or [], hook_needed=None)))

def na(id, reason):
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, "tools", "props.py")).read())

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
have = set()
for f in glob.glob(V + "/harness/**/*.go", recursive=True):
    have |= set(re.findall(r"^func Verif([A-Z]\d+)_", open(f).read(), re.M))
nas = {n["property"] for n in NA}
missing = [i for i in ids if i not in have and i not in nas]
if missing:
    print("no harness and not listed as not applicable:", missing)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p in P:
    i = p["id"]
    if i not in have or i in nas:
        continue
    checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique="symbolic execution of the real Go code (SSA) with an SMT solver (z3, cross-checked with cvc5)",
        level="model_checking",
        level_note="bounded: every input, choice and schedule within the bounds each harness states is covered by symbolic paths whose branch conditions and assertions the solver decides; library models and bounds as listed in DESIGN.md and the evidence file; counterexamples are replayed on the natively compiled code"))
json.dump(dict(version=1, setup_cmd="bin/build", hooks=dict(guard="verif", enable="no hooks are needed: the harnesses are overlaid on /repo's packages when they are loaded, /repo's files stay as they are", source_commits=[]),
    checks=checks, not_applicable=NA), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(NA), "not applicable")

# ---- DESIGN.md ----
head = open(V + "/tools/design_head.md").read()
out = [head, "## 4. Harnesses and bounds\n"]
hs = {}
for f in sorted(glob.glob(V + "/harness/**/*.go", recursive=True)):
    for m in re.finditer(r'((?:^//.*\n)+)func Verif([A-Z]\d+)_(\w+)\(', open(f).read(), re.M):
        doc = [l[2:].strip() for l in m.group(1).splitlines()]
        d = " ".join(l for l in doc if l and not l.startswith("verif:"))
        get = lambda k: " ".join(l[6 + len(k):].strip() for l in doc if l.startswith("verif:" + k + " "))
        hs.setdefault(m.group(2), []).append((m.group(3), os.path.relpath(f, V), d, get("bounds"), get("reach")))
for p in P:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append("Why tests cannot: " + p["why_tests_cant"] + " Real code: " + "; ".join(f"{m['name']} ({m['where']})" for m in p["anchors"]["mechanism"]) + ".\n")
    for n, f, d, b, r in hs.get(i, []):
        out.append(f"* `Verif{i}_{n}` ({f}). {d} **Bounds:** {b}." + (f" Witnesses that must be reached: {r}." if r else ""))
    out.append("")
out.append("## 5. Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration; all compile and pass the stable tests. \"caught\" is the quick tier of the property's own check.\n\n| bug | property | needs | breaks | caught |\n| --- | --- | --- | --- | --- |")
caught = {}
if os.path.exists(V + "/tools/caught.json"):
    caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
out.append("\n" + open(V + "/tools/design_tail.md").read() if os.path.exists(V + "/tools/design_tail.md") else "")
open(V + "/DESIGN.md", "w").write("\n".join(out))
