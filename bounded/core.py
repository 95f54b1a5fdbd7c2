"""Bounded part: evaluates contracts and end-to-end oracles on the real code with generated inputs.
Labelled bounded everywhere; never counted as proved."""
from __future__ import annotations
import glob, hashlib, importlib, json, os, random, sys, time, traceback
from typing import Any, Callable, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """raised by an oracle: expected/got with the full input"""

    def __init__(self, what: str, **info: Any):
        super().__init__(what)
        self.what = what
        self.info = info


class Skip(Exception):
    """case outside the property's domain"""


def load_contracts() -> None:
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "*.py"))):
        b = os.path.basename(f)[:-3]
        if b != "__init__":
            importlib.import_module("contracts." + b)


def check(cond: bool, what: str, **info: Any) -> None:
    if not cond:
        raise Violation(what, **info)
