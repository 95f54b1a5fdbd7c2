"""running litgen on a header"""
from __future__ import annotations
from typing import Any, Optional
from . import core, out


def options(nb: bool = False, **kw: Any):
    import litgen
    o = litgen.LitgenOptions()
    if nb:
        o.use_nanobind()
    for k, v in kw.items():
        setattr(o, k, v)
    return o


class Gen:
    def __init__(self, stub: str, pydef: str, glue: str, code: str):
        self.stub_text, self.pydef_text, self.glue_text, self.code = stub, pydef, glue, code
        self._s: Any = None
        self._p: Any = None

    @property
    def stub(self) -> out.Node:
        if self._s is None:
            try:
                self._s = out.parse_stub(self.stub_text)
            except out.BadOutput as e:
                raise core.Violation(str(e), code=self.code, stub=self.stub_text)
        return self._s

    @property
    def pydef(self) -> out.Node:
        if self._p is None:
            try:
                self._p = out.parse_pydef(self.pydef_text)
            except out.BadOutput as e:
                raise core.Violation(str(e), code=self.code, pydef=self.pydef_text)
        return self._p

    def fail(self, what: str, **kw: Any) -> None:
        raise core.Violation(what, code=self.code, **kw, stub=self.stub_text, pydef=self.pydef_text)

    def check(self, cond: Any, what: str, **kw: Any) -> None:
        if not cond:
            self.fail(what, **kw)


def generate(o: Any, code: str) -> Gen:
    import litgen
    try:
        g = litgen.generate_code(o, code)
    except Exception as e:
        import traceback
        raise core.Violation(f"generation fails on a supported header: {type(e).__name__}: {str(e)[:200]}", code=code, trace=traceback.format_exc()[-1500:])
    return Gen(g.stub_code, g.pydef_code, g.glue_code or "", code)
