"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import importlib.util, json, os, re, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]


def const(path, name):
    import ast
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and any(getattr(t, "id", None) == name for t in node.targets):
            try:
                return ast.literal_eval(node.value)
            except ValueError:
                v = node.value  # dict(quick=..., thorough=...)
                return {k.arg: ast.literal_eval(k.value) for k in v.keywords}
    return None


checks, na = [], []
for p in props:
    f = os.path.join(root, "mc", "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="no check has been built yet"))
        continue
    bounds = const(f, "BOUNDS")
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"python3 run.py {p['id']} --tier quick",
            thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=const(f, "TECHNIQUE"),
            level="model_checking",
            level_note="Exhaustive within the bounds, on the real code of /repo. Quick: %s. Thorough: %s. Assumes: %s."
            % (bounds["quick"], bounds["thorough"], "; ".join(const(f, "ASSUMPTIONS"))),
        )
    )
m = dict(version=1, setup_cmd="python3 run.py C08 --list", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check drives the public interface. /repo carries fix: commits, listed in known_findings.jsonl.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
