"""Writes the per-property part of DESIGN.md (between the markers) from the contracts' own docstrings, bounds and assumptions."""
import ast, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def part():
    out = []
    for line in open(os.path.join(H, "properties.jsonl")):
        p = json.loads(line)
        f = os.path.join(H, "contracts", "c_{0}.py".format(p["id"].lower()))
        out.append("### {0} {1}\n".format(p["id"], p["title"]))
        if not os.path.exists(f):
            out.append("Not claimed; see MANIFEST.json.\n")
            continue
        t = ast.parse(open(f).read())
        d = ast.get_docstring(t).split("\n")
        d[0] = d[0].split(":", 1)[1].strip() if ":" in d[0] else d[0]
        out.append("```\n" + "\n".join(d).strip() + "\n```")
        env = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
                v = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                inherits = any(isinstance(x, ast.Attribute) for x in ast.walk(n.value))
                env[n.targets[0].id] = (["those of C05"] if inherits else []) + v
        if "BOUNDS" in env:
            out.append("Scope: " + "; ".join(env["BOUNDS"]) + ".\n")
        else:
            out.append("Scope: everything in the requires clause is unbounded.\n")
        out.append("Unchecked: " + "; ".join(env.get("ASSUMPTIONS", ["-"])) + ".\n")
    return "\n".join(out)
path = os.path.join(H, "DESIGN.md")
s = open(path).read()
a, b = "<!-- contracts -->\n", "<!-- end contracts -->"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + part() + s[j:])
