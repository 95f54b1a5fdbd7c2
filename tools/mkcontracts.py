#!/usr/bin/env python3-vt
"""writes CONTRACTS.md: per property, the functions under contract (with the names of their clauses) and what is assumed"""
import glob, importlib, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from pyvc import api
for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "c*.py"))):
    importlib.import_module("contracts." + os.path.basename(f)[:-3])
L = ["# Functions under contract (generated by tools/mkcontracts.py)", "",
     "`proved`: every obligation generated from the current source of /repo is decided on each run. `bounded`: the contract is only evaluated on",
     "generated arguments. `trusted`: the contract is assumed at call sites, with the reason given.", ""]
cs = list(api.CONTRACTS.values()) if isinstance(api.CONTRACTS, dict) else list(api.CONTRACTS)
props = sorted({p for c in cs for p in c.props} | {p for l in (api.LEMMAS.values() if isinstance(api.LEMMAS, dict) else api.LEMMAS) for p in l.props})
for p in props:
    L += [f"## {p}", ""]
    for c in cs:
        if p not in c.props:
            continue
        kind = "trusted" if c.trusted else "bounded" if c.bounded_only else "proved"
        clauses = ", ".join(list(c.ensures) + list(c.always) + [f"raises {k}" for k in c.raises])
        why = f" — {c.reason}" if c.trusted and getattr(c, "reason", "") else ""
        L.append(f"- {kind}: `{c.target}` [{clauses}]{why}")
    for l in (api.LEMMAS.values() if isinstance(api.LEMMAS, dict) else api.LEMMAS):
        if p in l.props:
            L.append(f"- {'axiom' if l.axiom else 'lemma'}: `{l.name}`" + (f" — {l.axiom}" if l.axiom else ""))
    L.append("")
open(os.path.join(ROOT, "CONTRACTS.md"), "w").write("\n".join(L))
