"""Import machinery: starlette is always read from /repo's working tree; in symbolic processes its
modules (and the contract modules) are instrumented on import."""
from __future__ import annotations

import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, instr):
        self.instr = instr

    def find_spec(self, name, path=None, target=None):
        root = name.split(".")[0]
        if root == "starlette":
            base = REPO
        elif root == "contracts":
            base = VERIF
        else:
            return None
        p = os.path.join(base, *name.split("."))
        if os.path.isdir(p):
            fn = os.path.join(p, "__init__.py")
            sub = [p]
        else:
            fn = p + ".py"
            sub = None
        if not os.path.exists(fn):
            return None
        loader = Loader(name, fn, self.instr)
        return importlib.util.spec_from_file_location(name, fn, loader=loader, submodule_search_locations=sub)


class Loader(importlib.abc.Loader):
    def __init__(self, name, fn, instr):
        self.name, self.fn, self.instr = name, fn, instr

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.fn, encoding="utf-8") as f:
            src = f.read()
        if self.instr:
            from .transform import instrument
            code = instrument(src, self.fn, self.name)
        else:
            code = compile(src, self.fn, "exec", dont_inherit=True)
        exec(code, module.__dict__)

    def get_source(self, name):
        with open(self.fn, encoding="utf-8") as f:
            return f.read()


def install(instr: bool):
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (REPO, os.path.join(REPO, "starlette"))]
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if instr and PYVENV not in sys.path:
        sys.path.append(PYVENV)
    sys.meta_path.insert(0, Finder(instr))
