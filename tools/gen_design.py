"""Writes DESIGN.md from design_head.md, props.py, the rules in checks/, seeded/ and known_findings.jsonl."""
import ast, glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
from design_notes import MISSED, DROPPED
out = [open(HERE + "/design_head.md").read()]
for p in PROPS:
    fn = glob.glob(f"{V}/checks/{p['id']}_*.py")[0]
    tree = ast.parse(open(fn).read())
    out.append(f"### {p['id']} {p['title']}\n\nDecided by {p['technique']}. Ranges over {p['forall']}. Beyond the tests: {p['why']}. {p['note']}\n")
    for n in tree.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            continue
        if not isinstance(n, ast.FunctionDef):
            if isinstance(n, ast.If):
                for c in ast.walk(n):
                    if isinstance(c, ast.Call) and getattr(c.func, "id", "") == "main" and len(c.args) > 1:
                        a = ast.literal_eval(c.args[1])
                        if a:
                            out.append("Bounds and assumptions: " + "; ".join(x.rstrip(".") for x in a) + ".\n")
            continue
        for dec in n.decorator_list:
            if isinstance(dec, ast.Call) and getattr(dec.func, "id", "") == "sub":
                kw = {k.arg: ast.unparse(k.value) for k in dec.keywords}
                doc = (ast.get_docstring(n) or "").split("\n")[0]
                name = ast.literal_eval(dec.args[0]) if dec.args and isinstance(dec.args[0], ast.Constant) else n.name
                th = kw.get("thorough") or str(20 * int(kw.get("quick", "0"))) if kw.get("quick", "0").isdigit() else "20x"
                out.append(f"- `{name}` ({kw.get('quick')} / {th} cases): {doc}")
    out.append("")
for q, r in NOT_APPLICABLE:
    out.append(f"### {q['id']} {q['title']} - not applicable: {r}\n")
out.append("## 3. Defects found, repairs and known findings\n\nEach was shown with a failing input against the real code; the machine-readable list is `known_findings.jsonl`.\n")
out.append("| property | status | commit | what failed |\n|---|---|---|---|")
for l in open(V + "/known_findings.jsonl"):
    k = json.loads(l); w = k["what"].replace("|", "/")
    out.append(f"| {k['property']} | {k['status']} | {k.get('commit', k.get('id', ''))} | {w} |")
out.append("\n## 4. Planted bugs (`seeded/`) and what catches them\n\nEvery change below builds, passes the 299 stable tests and has a demonstration. All are caught by the quick tier of the check of their property (seed 1) unless the last column says otherwise.\n")
out.append("| id | check | breaks | needs | remark |\n|---|---|---|---|---|")
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(i, '')} |".replace("\n", " "))
out.append("\nTried and dropped (not kept as planted bugs): " + "; ".join(DROPPED) + ".\n")
out.append(open(HERE + "/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(out))
