"""writes DESIGN.md out of design_intro.md, design_notes.json, properties.jsonl, docstrings of the checks, seeded/*/meta.json"""
import ast, json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
notes = json.loads((V / "tools/design_notes.json").read_text())
out = [(V / "tools/design_intro.md").read_text()]
seeded = {}
for m in sorted(V.glob("seeded/*/meta.json")):
    j = json.loads(m.read_text())
    seeded.setdefault(j["property"], []).append((m.parent.name, j))
out.append("## Properties\n\nPer property: how cases are generated and judged, its facets (cases quick / thorough), what the tests cannot settle,\nbounds and cost, the planted bugs its check catches, and mutants used to strengthen it.\n")
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    t = ast.parse((V / "checks" / f"{p['id']}.py").read_text())
    out.append(f"### {p['id']} {p['title']}\n\n{ast.get_docstring(t)}\n\nWhy tests cannot settle it: {p['why_tests_cant']}\n")
    rows = []
    for n in t.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "facet":
                kw = {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
                for name, a in zip(("quick", "thorough"), d.args):
                    kw[name] = a.value
                q, th = kw.get("quick", 1) * kw.get("shards", 1), kw.get("thorough", 1) * kw.get("tshards", kw.get("shards", 1))
                doc = " ".join((ast.get_docstring(n) or "").split())
                rows.append(f"* `{n.name}` ({q} / {th})" + (f": {doc}" if doc else ""))
    out.append("\n".join(rows) + "\n")
    n = notes["properties"].get(p["id"], {})
    for k, v in n.items():
        out.append(f"{k}: {v}\n")
    for name, j in seeded.get(p["id"], []):
        out.append(f"* planted `{name}`: {j['what_it_breaks']} (needs: {j['needs']}). {notes['seeded'].get(name, 'Caught.')}")
    ms = notes["mutants"].get(p["id"], [])
    if ms:
        out.append("* mutants caught: " + ", ".join(ms))
    out.append("")
out.append("## Mutants judged equivalent\n\nChanges that the checks do not report because the property still holds (the changed branch is unreachable from valid input,\nor the change is an allowed alternative):\n")
out.append("\n".join(f"* `{k}`: {v}" for k, v in notes["equivalent"].items()))
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
