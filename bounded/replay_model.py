from __future__ import annotations
import json, sys
from . import core
from pyvc import api, runtime


def main() -> None:
    d = json.load(open(sys.argv[1]))
    core.load_contracts()
    c = api.CONTRACTS.get(d["target"])
    if c is None or c.call is not None:
        return
    held = 0
    for name, vals in d["models"]:
        if not all(concrete(v) for v in vals.values()):
            continue
        try:
            v = runtime.evaluate(c, {k: (tuple(x) if isinstance(x, tuple) else x) for k, x in vals.items()}, d["target"], tuple(c.ghost))
        except Exception:
            continue
        if v is not None and not v.get("skip"):
            print("REPRODUCED " + json.dumps(v))
            return
        if v is None and name == d.get("obligation"):
            held += 1
    if held and held == sum(1 for name, _ in d["models"] if name == d.get("obligation")):
        print("HOLDS")       # the real function fulfils its contract on the counter-model: the failure is one of the proof


def concrete(v: object) -> bool:
    if isinstance(v, str):
        return not (v.startswith("<") and v.endswith(">"))
    if isinstance(v, (list, tuple)):
        return all(concrete(x) for x in v)
    return v is None or isinstance(v, (int, bool))


if __name__ == "__main__":
    main()
