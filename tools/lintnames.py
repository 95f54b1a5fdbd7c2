#!/usr/bin/env python3
"""spec functions and constants are shared by all the contract files: a name must not be defined twice"""
import ast, glob, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seen, bad, seen_used = {}, 0, set()
for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "c*.py"))):
    src = open(f).read()
    local = {}
    for n in ast.parse(src).body:
        names = [n.name] if isinstance(n, ast.FunctionDef) else [t.id for t in n.targets if isinstance(t, ast.Name)] if isinstance(n, ast.Assign) else []
        for x in names:
            local.setdefault(x, ast.dump(n.value) if isinstance(n, ast.Assign) else ast.dump(n))
    used = set()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "real" or isinstance(n, ast.FunctionDef):
            used |= {q.id for q in ast.walk(n) if isinstance(q, ast.Name)}
    for x, d in local.items():
        if x in seen and seen[x][1] != d and (not (x.startswith("_") or len(x) <= 3 and x.isupper()) or x in used and x in seen_used):
            print(f"{x}: {seen[x][0]} and {f}"); bad = 1
        seen.setdefault(x, (f, d))
    seen_used |= used
sys.exit(bad)
