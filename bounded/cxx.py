"""Compiles generated bindings with the real binding library and runs them: the wrapped C++ functions record what they receive.
Everything lives in a scratch directory that the check removes (VERIF_SCRATCH, or one made and removed by this process)."""
from __future__ import annotations
import atexit, fcntl, json, os, re, shutil, subprocess, sys, sysconfig, tempfile
from typing import Any
from . import core

_DIR: list[str] = []


def scratch() -> str:
    if not _DIR:
        d = os.environ.get("VERIF_SCRATCH", "")
        if not d or not os.path.isdir(d):
            d = tempfile.mkdtemp(prefix="verif_cxx_")
            atexit.register(shutil.rmtree, d, True)
        _DIR.append(d)
    return _DIR[0]


STD = "#include <sstream>\n#include <string>\n#include <vector>\n#include <array>\n#include <map>\n#include <tuple>\n#include <optional>\n#include <memory>\n#include <functional>\n#include <cstdint>\n#include <cstdio>\n#include <cstdarg>\n#include <cstring>\n#include <stdexcept>\n"
PCH = {
    False: STD + "#include <pybind11/pybind11.h>\n#include <pybind11/stl.h>\n#include <pybind11/functional.h>\n#include <pybind11/numpy.h>\n#include <pybind11/operators.h>\n",
    True: STD + "#include <nanobind/nanobind.h>\n#include <nanobind/trampoline.h>\n#include <nanobind/ndarray.h>\n#include <nanobind/operators.h>\n" + "".join(f"#include <nanobind/stl/{x}.h>\n" for x in ("string", "vector", "array", "map", "tuple", "optional", "shared_ptr", "unique_ptr", "function", "pair")),
}


def flags(nb: bool) -> list[str]:
    inc = [sysconfig.get_paths()["include"]]
    if nb:
        import nanobind
        inc += [nanobind.include_dir(), os.path.join(os.path.dirname(nanobind.include_dir()), "ext", "robin_map", "include")]
    else:
        import pybind11
        inc.append(pybind11.get_include())
    return ["-O0", "-std=c++17", "-fPIC", "-w", "-fvisibility=hidden", "-ferror-limit=3"] + ["-I" + i for i in inc]


def run(cmd: list[str], timeout: float = 240) -> subprocess.CompletedProcess:
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")


def prepare(nb: bool) -> tuple[str, list[str]]:
    """precompiled header and library objects; built once per scratch directory"""
    d = scratch()
    tag = "nb" if nb else "pb"
    pch = os.path.join(d, f"{tag}.pch")
    objs = [os.path.join(d, "nb.o")] if nb else []
    with open(os.path.join(d, f"{tag}.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(pch):
            h = os.path.join(d, f"{tag}_pch.h")
            open(h, "w").write(PCH[nb])
            if nb:
                import nanobind
                src = os.path.join(os.path.dirname(nanobind.include_dir()), "src", "nb_combined.cpp")
                r = run(["clang++"] + flags(nb) + ["-fno-strict-aliasing", "-c", src, "-o", objs[0]])
                if r.returncode:
                    raise RuntimeError("nanobind: " + r.stderr[-800:])
            r = run(["clang++"] + flags(nb) + ["-x", "c++-header", h, "-o", pch + ".tmp", "-fpch-instantiate-templates"])
            if r.returncode:
                raise RuntimeError("precompiled header: " + r.stderr[-800:])
            os.rename(pch + ".tmp", pch)
    return pch, objs


PRELUDE = r'''
static std::string LOG_;
static void A(bool v) { LOG_ += v ? "true;" : "false;"; }
static void A(const std::string& s) { LOG_ += "\"" + s + "\";"; }
static void A(const char* s) { if (s) A(std::string(s)); else LOG_ += "null;"; }
static void A(double v) { char b[64]; snprintf(b, 64, "%.17g;", v); LOG_ += b; }
static void A(float v) { A((double) v); }
static void A(long double v) { A((double) v); }
template<class T, class = std::enable_if_t<std::is_integral_v<T>>> void A(T v) { LOG_ += std::to_string(v) + ";"; }
template<class T> void A(const std::vector<T>& v) { LOG_ += "["; for (const auto& x : v) A(x); LOG_ += "];"; }
template<class T> void A_n(const T* v, long n) { if (!v) { LOG_ += "null;"; return; } LOG_ += "["; for (long i = 0; i < n; i++) A(v[i]); LOG_ += "];"; }
'''


class CompileError(Exception):
    pass


_N = [0]


def build(nb: bool, header: str, defs: str, glue: str, pydef: str) -> tuple[str, str, str]:
    """(directory, module name, source)"""
    pch, objs = prepare(nb)
    _N[0] += 1
    name = f"vm_{os.getpid()}_{_N[0]}"
    d = os.path.join(scratch(), name)
    os.mkdir(d)
    ns = "nb = nanobind" if nb else "py = pybind11"
    mod = f"NB_MODULE({name}, m)" if nb else f"PYBIND11_MODULE({name}, m)"
    extra = "" if not nb else "nb::set_leak_warnings(false);\n"
    src = (f"namespace {ns.split(' ')[0]} = {ns.split(' ')[2]};\n" + PRELUDE + header + "\n" + defs + "\n" + glue + "\n" + mod + "\n{\n" + extra
           + 'm.def("_take", []() { std::string s = LOG_; LOG_.clear(); return s; });\n' + pydef + "\n}\n")
    f = os.path.join(d, name + ".cpp")
    open(f, "w").write(src)
    r = run(["clang++"] + flags(nb) + ["-include-pch", pch, "-shared", f] + objs + ["-o", os.path.join(d, name + ".so")])
    if r.returncode:
        shutil.rmtree(d, True)
        raise CompileError(short_errors(r.stderr, src))
    return d, name, src


def short_errors(err: str, src: str) -> str:
    out = []
    lines = src.split("\n")
    for m in re.finditer(r"^[^\n:]*?(\w+)\.cpp:(\d+):\d+: (?:fatal )?error: ([^\n]*)", err, re.M):
        n = int(m.group(2)) - 1
        out.append(f"{m.group(3)}   | {lines[n].strip()[:160] if n < len(lines) else ''}")
    return "\n".join(out[:4]) or err[-600:]


def execute(d: str, name: str, calls: list[dict[str, Any]]) -> list[dict[str, Any]]:
    """runs the calls in a process of its own; returns one result per call"""
    json.dump(calls, open(os.path.join(d, "calls.json"), "w"))
    env = dict(os.environ, PYTHONPATH=d)
    r = subprocess.run([sys.executable, "-c", RUNNER, name, d], capture_output=True, text=True, timeout=120, env=env, errors="replace", cwd=d)
    out = []
    try:
        out = [json.loads(l) for l in open(os.path.join(d, "results.jsonl"))]
    except FileNotFoundError:
        pass
    shutil.rmtree(d, True)
    if len(out) < len(calls):
        out.append({"crash": f"the process ended with {r.returncode}: {r.stderr[-400:]}"})
    return out


RUNNER = r'''
import sys, json, importlib
name, d = sys.argv[1:3]
calls = json.load(open(d + "/calls.json"))
out = open(d + "/results.jsonl", "w")
try:
    m = importlib.import_module(name)
except Exception as e:
    for c in calls:
        out.write(json.dumps({"exc": "import: " + type(e).__name__ + ": " + str(e)[:600]}) + "\n")
    sys.exit(0)
try:
    import numpy as np
except ImportError:
    np = None
for c in calls:
    env = {"m": m, "np": np}
    r = {}
    try:
        for s in c.get("setup", []):
            exec(s, env)
        m._take()
        env["r"] = eval(c["call"], env)
    except Exception as e:
        r["exc"] = type(e).__name__ + ": " + str(e)[:500]
    r["log"] = m._take()
    if "exc" not in r:
        got = []
        for x, _ in c.get("checks", []):
            try:
                got.append(repr(eval(x, env)))
            except Exception as e:
                got.append(type(e).__name__ + ": " + str(e)[:200])
        r["checks"] = got
    out.write(json.dumps(r) + "\n")
    out.flush()
'''
