"""Generates DESIGN.md (head + per property + tail + planted bugs)."""
import ast, glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(os.path.join(HERE, f)).read()  # noqa
out = [R("tools/design_head.md"), "\n# Properties\n"]
man = json.loads(R("MANIFEST.json"))
tech = {c["property"]: c for c in man["checks"]}
for line in R("properties.jsonl").splitlines():
    p = json.loads(line)
    out.append(f"\n## {p['id']} {p['title']}\n\n{p['statement']}\n")
    if p["id"] not in tech:
        continue
    c = tech[p["id"]]
    v = {}
    for n in ast.parse(R(f"checks/{p['id']}.py")).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("RULE", "BOUNDS", "ASSUMPTIONS") if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            try:
                v[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append(f"* How: {c['technique']}.\n* Enumerated / oracle: {v.get('RULE', '')}\n* Bounds: quick: {v.get('BOUNDS', {}).get('quick')}; thorough: {v.get('BOUNDS', {}).get('thorough')}.\n* Why tests cannot: {p['why_tests_cant']}\n* Assumptions: {'; '.join(v.get('ASSUMPTIONS', [])) or '-'}. {c['level_note']}\n")
out.append(R("tools/design_tail.md"))
out.append("\n## Planted bugs\n\nEach is kept in `seeded/<id>` (or `more_bugs/<id>`, same format: those not run by vcheck, to stay within its two hours); tests pass with each of them; status of the check of its property:\n\n| bug | property | needs | caught |\n|---|---|---|---|\n")
caught = json.loads(R("tools/caught.json"))
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json")) + glob.glob(os.path.join(HERE, "more_bugs/*/meta.json")), key=lambda f: f.split("/")[-2]):
    b = f.split("/")[-2]
    m = json.load(open(f))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, '?')} |\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
