"""Runtime of the instrumented code.  Without symbolic operands every function here performs
exactly the Python operation it stands for."""
from __future__ import annotations

import builtins
import functools
import sys
import types

import z3

from . import core
from .core import (ANY, ASCII, LATIN1, BudgetExceeded, PathDone, SBool, SBytes, SInt, SStr, SText, Sym, Unsupported,
                   has_sym, int_to_str, is_sym, lift, lit, mkbool, mkint, mktext, slen, str_to_int, tname, zb, zi, zt)
from .seq import VItemsView, VList, VSet, VDict, VDictItems, LoopIter, AsyncLoopIter, WhileLoop, SeqGen, ABSTRACT_TYPES

BuiltinMethod = types.BuiltinFunctionType
MethodDescr = type(str.join)
INSTR_PREFIXES = ("starlette", "contracts", "spec")
TRANSPARENT = {"functools", "contextlib", "collections.abc", "_collections_abc", "typing", "abc", "engine.seq", "enum",
               "engine.core", "engine.symctx", "engine.rt", "engine.models", "engine.spec", "types", "collections", "engine.api"}
CARRIERS = {"anyio.streams.memory"}       # library code that only passes its arguments on, without looking at them
MODELS: dict = {}        # id(function) -> (function, model)
FUNCS_SEEN = set()


def model(fn):
    """register an assumed contract (stub) for a dependency, used when arguments are symbolic or always"""
    def reg(m):
        MODELS[id(fn)] = (fn, m)
        return m
    return reg


def chk():
    e = sys.exc_info()[1]
    while e is not None:
        if isinstance(e, (PathDone, Unsupported, BudgetExceeded)):
            raise e
        e = e.__context__
    if core.C is not None and core.C.dead:
        raise PathDone()


# --------------------------------------------------------------------------- calls
def call(f, /, *a, **k):
    try:
        h = MODELS.get(id(f))
    except TypeError:
        h = None
    if h is not None and h[0] is f:
        return h[1](*a, **k)
    t = type(f)
    if t is types.FunctionType:
        return call_py(f, f, a, k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is types.MethodType:
        fn = f.__func__
        h = MODELS.get(id(fn))
        if h is not None and h[0] is fn:
            return h[1](f.__self__, *a, **k)
        if isinstance(fn, types.FunctionType):
            return call_py(f, fn, a, k)
        return f(*a, **k)
    if t is BuiltinMethod or t is CMethod:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
                raise Unsupported(f"builtin {f.__qualname__} on symbolic arguments")
            return f(*a, **k)
        return method(s, f, a, k)
    if isinstance(f, type):
        return construct(f, a, k)
    if t.__name__ == "method-wrapper" or t.__name__ == "builtin_function_or_method":
        return f(*a, **k)
    return f(*a, **k)


def call_py(f, fn, a, k):
    m = fn.__module__ or ""
    if m.startswith(INSTR_PREFIXES) or m in TRANSPARENT or m.startswith("engine"):
        if core.C is not None and m.startswith("starlette"):
            FUNCS_SEEN.add(f"{m}:{fn.__qualname__}")
        return f(*a, **k)
    if core.C is not None and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
        if getattr(fn, "_verif_ok", False) or m in CARRIERS:
            return f(*a, **k)
        raise Unsupported(f"library function {m}.{fn.__qualname__} on symbolic arguments")
    return f(*a, **k)


import re as _re
_PATTERN = _re.Pattern
CMethod = type(_re.compile("").fullmatch)
TEXT_PASS = {"append", "extend", "insert", "pop", "copy", "clear", "reverse", "sort", "index", "remove", "count",
             "items", "keys", "values", "get", "update", "setdefault", "popitem", "add", "discard", "send", "throw",
             "close", "__next__", "fromkeys"}


def method(s, f, a, k):
    """bound method of a builtin object"""
    name = f.__name__
    ts = type(s)
    if isinstance(s, (str, bytes, bytearray)) and not isinstance(s, type):
        if ts is bytearray and name in ("extend", "append"):
            if has_sym(a):
                raise Unsupported("bytearray mutation with symbolic data")
            return f(*a, **k)
        if name == "join" and a and core.C is not None and not isinstance(a[0], (str, bytes)):
            if isinstance(a[0], SeqGen):
                a = (a[0].to_list(),)
            elif isinstance(a[0], VSet) and a[0].abs is not None:
                a = (a[0].bag(),)
            elif not isinstance(a[0], VList):
                a = (list(it(a[0])),)
        if any(has_sym(x) or isinstance(x, ABSTRACT_TYPES) for x in a) or any(has_sym(x) for x in k.values()):
            if name == "format":
                return str_format(s, a, k)
            return getattr(lift(s), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, type):     # classmethods such as dict.fromkeys, bytes.fromhex
        if s is str and name == "__new__" and len(a) == 2 and not k and isinstance(a[1], SStr):
            return text_subclass(a[0])(a[1].z, a[1].alpha)
        if has_sym(a):
            raise Unsupported(f"{s.__name__}.{name} on symbolic arguments")
        return f(*a, **k)
    if ts is _PATTERN:
        if has_sym(a):
            if name in ("match", "fullmatch", "search") and len(a) == 1 and not k:
                from .regex import sym_match
                return sym_match(s, name, a[0])
            if name == "finditer" and len(a) == 1 and not k and isinstance(a[0], SStr):
                from .regex import sym_finditer
                return sym_finditer(s, a[0])
            if name == "findall" and len(a) == 1 and not k and isinstance(a[0], SStr):
                from .regex import sym_findall
                return sym_findall(s, a[0])
            raise Unsupported(f"regex {name} on symbolic text")
        return f(*a, **k)
    if core.C is not None:
        if ts in (list, set, dict) and name in ("append", "extend", "insert", "pop", "clear", "reverse", "sort", "remove",
                                                "update", "setdefault", "popitem", "add", "discard"):
            barrier(s)
        if ts is dict and a and is_sym(a[0]) and name in ("get", "pop", "setdefault", "__getitem__"):
            for kk in s:
                if core.getbool(kk == a[0]):
                    return f(kk, *a[1:], **k)
            if name == "get":
                return a[1] if len(a) > 1 else None
            if name == "pop" and len(a) > 1:
                return a[1]
            if name == "pop":
                raise KeyError(a[0])
            raise Unsupported("native dict with symbolic key")
        if ts in (set, frozenset) and has_sym(a):
            if name in ("add", "discard", "remove", "update", "difference_update", "intersection_update"):
                raise Unsupported("symbolic element in a concrete set")
            return getattr(VSet(s), name)(*a)
        if ts is list and name == "extend" and isinstance(a[0], VList):
            for e in a[0].concrete_items():
                s.append(e)
            return None
    return f(*a, **k)


_SUBCLASSES = {}


def text_subclass(cls):
    """the symbolic counterpart of a subclass of str: its own methods and attributes over a symbolic text"""
    if cls is str:
        return SStr
    t = _SUBCLASSES.get(cls)
    if t is None:
        own = {}
        for b in reversed(cls.__mro__[:cls.__mro__.index(str)]):
            own.update({n: v for n, v in vars(b).items() if n not in ("__new__", "__init__", "__dict__", "__weakref__", "__slots__", "__module__")})
        t = _SUBCLASSES[cls] = type("S" + cls.__name__, (SStr,), {**own, "_real": cls, "base": SStr})
    return t


def construct(cls, a, k):
    if cls.__module__ == "builtins" and cls in BUILTIN_TYPES:
        return BUILTIN_TYPES[cls](*a, **k)
    if core.C is None:
        return cls(*a, **k)
    if isinstance(cls, type) and issubclass(cls, BaseException):
        r = cls(*a, **k)
        return r
    m = cls.__module__
    if m.startswith(INSTR_PREFIXES) or m.startswith("engine") or m in TRANSPARENT:
        r = cls(*a, **k)
        if isinstance(r, SStr) and type(r)._real is cls and isinstance(cls.__init__, types.FunctionType):
            cls.__init__(r, *a, **k)
        if hasattr(cls, "__dataclass_fields__"):
            for n in cls.__dataclass_fields__:
                if type(getattr(r, n, None)) is bytearray:
                    object.__setattr__(r, n, MemArray(bytes(getattr(r, n))))
        try:
            core.C.fresh_objs[id(r)] = r
        except AttributeError:
            pass
        return r
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        if m in ("functools",) or getattr(cls, "_verif_ok", False):
            return cls(*a, **k)
        if cls.__init__ is object.__init__ and cls.__new__ is object.__new__:
            return cls(*a, **k)
        raise Unsupported(f"class {m}.{cls.__name__} on symbolic arguments")
    return cls(*a, **k)


# --------------------------------------------------------------------------- builtin functions
def b_len(x):
    if isinstance(x, SText):
        return x.slen()
    if isinstance(x, VList):
        return x.length()
    if isinstance(x, (VSet, VDict)):
        return x.length()
    if hasattr(type(x), "_verif_len"):
        return x._verif_len()
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType) and (m.__module__ or "").startswith(INSTR_PREFIXES):
        return m(x)
    return builtins.len(x)


_STR_LIKE = (SStr,)


def sym_type(x):
    if isinstance(x, SStr):
        return type(x)._real
    if isinstance(x, SBytes):
        return bytes
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, VList):
        return x.pytype
    if isinstance(x, VSet):
        return set
    if isinstance(x, VDict):
        return dict
    if isinstance(x, core.Opaque):
        return x.kind
    return getattr(type(x), "_verif_type", None)


def b_isinstance(x, T):
    st = sym_type(x)
    if st is None:
        return builtins.isinstance(x, T)
    return builtins.issubclass(st, T)


def b_type(x, *rest):
    if rest:
        return builtins.type(x, *rest)
    st = sym_type(x)
    return st if st is not None else builtins.type(x)


def b_str(x="", *a, **k):
    if isinstance(x, core.Opaque):
        if x.kind.__str__ is object.__str__ or x.kind is float:
            raise Unsupported(f"str of {x.kind.__name__}")
        return mktext(SStr, x.z, ASCII)
    if a or k:
        if isinstance(x, SBytes):
            return x.decode(*a, **k)
        return builtins.str(x, *a, **k)
    if isinstance(x, SStr):
        if type(x) is not SStr:
            f = getattr(x, "__str__")
            return f() if type(f) is types.MethodType and f.__func__.__module__.startswith(INSTR_PREFIXES) else SStr(x.z, x.alpha)
        return x
    if isinstance(x, SInt):
        return int_to_str(x)
    if isinstance(x, SBool):
        return "True" if bool(x) else "False"
    if isinstance(x, SBytes):
        return b_repr(x)
    if isinstance(x, BaseException):
        m = type(x).__str__
        if isinstance(m, types.FunctionType):
            return m(x)
        if len(x.args) == 1:
            return b_str(x.args[0])
        return builtins.str(x) if not has_sym(x.args) else b_repr(x.args)
    m = type(x).__str__
    if isinstance(m, types.FunctionType) and (m.__module__ or "").startswith(INSTR_PREFIXES):
        return m(x)
    if has_sym(x):
        return b_repr(x)
    return builtins.str(x)


def b_repr(x):
    if isinstance(x, SStr):
        return SStr(core.C.uf("repr_str", lambda s: repr(s), x.z), ANY)
    if isinstance(x, SBytes):
        return SStr(core.C.uf("repr_bytes", lambda s: repr(s.encode("latin-1")), x.z), ASCII)
    if isinstance(x, SInt):
        return int_to_str(x)
    if isinstance(x, SBool):
        return b_str(x)
    m = type(x).__repr__
    if isinstance(m, types.FunctionType) and (m.__module__ or "").startswith(INSTR_PREFIXES):
        return m(x)
    if has_sym(x):
        if type(x) in (list, tuple):
            o, c = ("[", "]") if type(x) is list else ("(", ",)" if len(x) == 1 else ")")
            return lift(o) + lift(", ").join([b_repr(e) for e in x]) + c
        raise Unsupported("repr of structure with symbolic content")
    return builtins.repr(x)


def b_int(x=0, *a):
    if a:
        if is_sym(x):
            raise Unsupported("int(x, base)")
        return builtins.int(x, *a)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return core.toint(x)
    if isinstance(x, SText):
        return str_to_int(x)
    if isinstance(x, core.Quotient):
        return x.whole()
    return builtins.int(x)


def b_bool(x=False):
    return builtins.bool(x)


def _float_key(s):
    return repr(float(s))


_FLOAT = z3.Concat(z3.Plus(core.rng("0", "9")), z3.Option(z3.Concat(z3.Re(lit(".")), z3.Plus(core.rng("0", "9")))))


def b_float(x=0.0):
    if isinstance(x, core.Opaque) and x.kind is float:
        return x
    if isinstance(x, SStr) and core.C.decide(z3.InRe(x.z, _FLOAT)) is True:
        from .models import note
        note("float", "executable uninterpreted function of the decimal text")
        return core.Opaque(float, core.C.uf("float", _float_key, x.z), repr)
    if isinstance(x, SText) or isinstance(x, SInt):
        raise Unsupported("float of symbolic value")
    return builtins.float(x)


def b_bytes(x=b"", *a, **k):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, MemArray):
        return x.v
    if isinstance(x, SStr):
        return x.encode(*a, **k)
    if has_sym(x):
        raise Unsupported("bytes() of symbolic structure")
    return builtins.bytes(x, *a, **k)


def b_memoryview(x):
    if isinstance(x, SBytes):
        return x
    return builtins.memoryview(x)


class MemArray:
    """a bytearray (under a proof): a byte string that may grow"""
    _verif_type = bytearray
    __hash__ = None

    def __init__(self, v=b""):
        self.v = v

    def _verif_len(self):
        return b_len(self.v)

    def _add(self, b):
        if isinstance(b, MemArray):
            b = b.v
        if not builtins.isinstance(b, (bytes, bytearray, SBytes)):
            raise Unsupported("bytearray extended by " + type(b).__name__)
        barrier(self)
        self.v = self.v + b

    def extend(self, b):
        self._add(b)

    def __iadd__(self, b):
        self._add(b)
        return self

    def __add__(self, b):
        return MemArray(self.v + (b.v if isinstance(b, MemArray) else b))

    def __getitem__(self, k):
        if not isinstance(k, slice):
            raise Unsupported("item of a bytearray")
        return MemArray(getitem(self.v, k))

    def clear(self):
        barrier(self)
        self.v = b""

    def decode(self, *a, **k):
        return self.v.decode(*a, **k)

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, MemArray) else o)

    def __ne__(self, o):
        return self.v != (o.v if isinstance(o, MemArray) else o)

    def __bool__(self):
        return bool(self.v != b"")

    def __iter__(self):
        raise Unsupported("iteration over a bytearray")

    def __repr__(self):
        return f"bytearray({self.v!r})"


def b_bytearray(x=b"", *a):
    if a or not builtins.isinstance(x, (bytes, bytearray, SBytes, MemArray)):
        if is_sym(x) or has_sym(x):
            raise Unsupported("bytearray of symbolic")
        return builtins.bytearray(x, *a)
    if core.C is None:
        return builtins.bytearray(x)
    return MemArray(x.v if isinstance(x, MemArray) else bytes(x) if isinstance(x, bytearray) else x)


def b_list(x=()):
    if isinstance(x, VList):
        return x.copy_as(list)
    if isinstance(x, SeqGen):
        return x.to_list()
    if isinstance(x, SText):
        raise Unsupported("list(text)")
    return builtins.list(it(x))


def b_tuple(x=()):
    if isinstance(x, VList):
        return x.copy_as(tuple)
    if isinstance(x, SeqGen):
        return x.to_list()
    if isinstance(x, SText):
        raise Unsupported("tuple(text)")
    return builtins.tuple(it(x))


def b_set(x=()):
    if isinstance(x, (VList, SeqGen)) and getattr(x, "is_abstract", True):
        return VSet.from_abstract(x)
    items = list(it(x))
    if any(has_sym(e) for e in items) or core.C is None or not items:
        return VSet(items) if core.C is not None else builtins.set(items)
    return builtins.set(items)


def b_frozenset(x=()):
    return b_set(x)


def b_dict(*a, **k):
    if core.C is None:
        return builtins.dict(*a, **k)
    d = VDict()
    if a:
        d.update(a[0])
    for kk, v in k.items():
        d[kk] = v
    return d


def b_any(x):
    if isinstance(x, SeqGen):
        return x.exists(lambda v: v)
    if isinstance(x, VList):
        return x.exists(lambda v: v)
    for e in it(x):
        if e:
            return True
    return False


def b_all(x):
    if isinstance(x, SeqGen):
        return not x.exists(lambda v: core.C.not_(truth(v)))
    if isinstance(x, VList):
        return not x.exists(lambda v: core.C.not_(truth(v)))
    for e in it(x):
        if not e:
            return False
    return True


def truth(v):
    return v if isinstance(v, (bool, SBool)) else builtins.bool(v)


def truth_of(x):
    """x in truth position: lengths of abstract containers are symbolic"""
    if x is None or x is True or x is False or isinstance(x, (Sym, VList, VDict, str, bytes, int, list, dict)):
        return x
    t = type(x)
    if core.C is not None and getattr(t, "__len__", None) is not None and "__bool__" not in dir(t) and hasattr(t.__len__, "__code__"):
        n = call(t.__len__, x)
        return n != 0 if is_sym(n) else x
    return x


def b_enumerate(x, start=0):
    if isinstance(x, VList) and x.is_abstract:
        return x.enumerated(start)
    return builtins.enumerate(it(x), start)


def b_reversed(x):
    if isinstance(x, VList):
        if x.is_abstract:
            return x.reversed()
        return builtins.reversed(x.concrete_items())
    if isinstance(x, VDict):
        return builtins.reversed(list(x))
    return builtins.reversed(x)


def b_zip(*xs, **k):
    return builtins.zip(*[it(x) for x in xs], **k)


def b_map(f, *xs):
    if len(xs) == 1 and isinstance(xs[0], VList) and xs[0].is_abstract:
        return SeqGen(xs[0], lambda l: [call(f, e) for e in l], True)
    return builtins.map(lambda *a: call(f, *a), *[it(x) for x in xs])


def b_filter(f, x):
    if isinstance(x, VList) and x.is_abstract:
        return SeqGen(x, lambda l: [e for e in l if (call(f, e) if f else e)])
    return builtins.filter((lambda e: call(f, e)) if f is not None else None, it(x))


def b_range(*a):
    if any(is_sym(x) for x in a):
        return sym_range(*a)
    return builtins.range(*a)


def sym_range(*a):
    start, stop = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3 and a[2] != 1:
        raise Unsupported("symbolic range step")
    i = start
    for _ in range(core.C.loop_max):
        if not (i < stop):
            return
        yield i
        i = i + 1
    if not (i < stop):
        return
    raise Unsupported("symbolic range longer than the unrolling limit")


def b_sorted(x, *, key=None, reverse=False):
    if isinstance(x, VSet):
        if x.abs is not None:
            return x.bag()
        x = x.items_list()
    items = list(it(x))
    kf = (lambda e: call(key, e)) if key is not None else None
    return builtins.sorted(items, key=kf, reverse=reverse)


def b_min(*a, **k):
    return builtins.min(*[list(it(x)) if isinstance(x, (VList,)) else x for x in a], **k)


def b_max(*a, **k):
    return builtins.max(*[list(it(x)) if isinstance(x, (VList,)) else x for x in a], **k)


def b_sum(x, *a):
    if isinstance(x, SeqGen):
        x = x.to_list()
    if isinstance(x, VList) and x.is_abstract:
        return x.total(*a)
    return builtins.sum(it(x), *a)


def b_iter(x, *a):
    if isinstance(x, VList):
        return builtins.iter(x.concrete_items())
    if isinstance(x, VDict):
        return builtins.iter(list(x))
    return builtins.iter(x, *a)


def b_next(x, *a):
    if isinstance(x, SeqGen):
        return x.first(*a)
    return builtins.next(x, *a)


def b_hash(x):
    return builtins.hash(x)


def b_abs(x):
    return abs(x)


def b_getattr(o, n, *d):
    return builtins.getattr(o, n, *d)


def b_hasattr(o, n):
    st = sym_type(o)
    return builtins.hasattr(st if st is not None else o, n)


def b_setattr(o, n, v):
    if is_sym(n):
        raise Unsupported("setattr with symbolic name")
    wattr(o, n)
    return builtins.setattr(o, n, v)


def b_ord(x):
    if isinstance(x, SText):
        return mkint(z3.StrToCode(x.z))
    return builtins.ord(x)


def b_callable(x):
    return builtins.callable(x)


def b_format(x, spec=""):
    if is_sym(x):
        if spec == "":
            return b_str(x)
        raise Unsupported("format spec on symbolic value")
    return builtins.format(x, spec)


def b_print(*a, **k):
    return None


def b_issubclass(a, b):
    return builtins.issubclass(a, b)


def b_id(x):
    return builtins.id(x)


BUILTIN_TYPES = {str: b_str, int: b_int, bool: b_bool, float: b_float, bytes: b_bytes, memoryview: b_memoryview,
                 bytearray: b_bytearray, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_frozenset, dict: b_dict,
                 enumerate: b_enumerate, reversed: b_reversed, zip: b_zip, map: b_map, filter: b_filter,
                 range: b_range, type: b_type}

for _n in ("len isinstance repr any all sorted min max sum iter next getattr setattr ord callable format issubclass id "
           "print hash abs hasattr").split():
    _f = getattr(builtins, _n)
    MODELS[id(_f)] = (_f, globals()["b_" + _n])


# --------------------------------------------------------------------------- operators
def it(x):
    """iteration of a value in a position where CPython iterates natively"""
    if isinstance(x, VList):
        return x.concrete_items()
    if isinstance(x, SeqGen):
        return x.to_list().concrete_items()
    if isinstance(x, VSet):
        return x.items_list()
    if isinstance(x, VDictItems):
        return x.items
    return x


def star(x):
    return it(x)


def kw(x):
    if isinstance(x, VDict):
        return dict(x.pairs())
    return x


def is_(a, b):
    if isinstance(a, SBool) and isinstance(b, bool):
        return bool(a == b)
    if isinstance(b, SBool) and isinstance(a, bool):
        return bool(a == b)
    if isinstance(a, Sym) and isinstance(b, Sym):
        raise Unsupported("identity of symbolic values")
    ia = getattr(a, "_sym_identity", None)
    if ia is not None:
        ib = getattr(b, "_sym_identity", None)
        if ib is not None and ia[0] is ib[0]:
            return bool(mkbool(ia[1] == ib[1]))
    return a is b


def isnot(a, b):
    return not is_(a, b)


def contains(x, c):
    if isinstance(c, SText):
        return c.contains(x)
    if isinstance(c, (VList, VSet, VDict)):
        return c.has(x)
    if isinstance(c, SeqGen):
        return c.exists(lambda v: v == x)
    if is_sym(x):
        if isinstance(c, (str, bytes)):
            return lift(c).contains(x)
        if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ("dict_keys", "dict_values"):
            return core.C.any([eqb(e, x) for e in c])
        if isinstance(c, VDictItems):
            return core.C.any([eqb(e, x) for e in c.items])
        return x in c
    if core.C is not None and isinstance(c, (list, tuple)) and has_sym(c):
        if isinstance(x, (str, bytes, int, bool)) or x is None:
            return core.C.any([eqb(e, x) for e in c])
        return any(bool(e == x) for e in c)
    if isinstance(c, VDictItems):
        return any(bool(e == x) for e in c.items)
    return x in c


def eqb(a, b):
    r = a == b
    return r if isinstance(r, (bool, SBool)) else bool(r)


def notcontains(x, c):
    r = contains(x, c)
    return core.C.not_(r) if isinstance(r, SBool) else (not r)


def mod(a, b):
    if isinstance(a, str) and (has_sym(b)):
        return str_mod(a, b)
    if isinstance(a, bytes) and has_sym(b):
        raise Unsupported("bytes % symbolic")
    return a % b


def str_mod(fmt, b):
    args = list(b) if isinstance(b, tuple) else [b]
    out = lift("")
    i = 0
    n = 0
    res = None
    while i < len(fmt):
        j = fmt.find("%", i)
        if j < 0:
            piece = fmt[i:]
            i = len(fmt)
            res = piece if res is None else res + piece
            break
        piece = fmt[i:j]
        conv = fmt[j + 1]
        i = j + 2
        if piece:
            res = piece if res is None else res + piece
        if conv == "%":
            v = "%"
        elif conv == "s":
            v = b_str(args[n]); n += 1
        elif conv == "d":
            v = b_str(args[n]); n += 1
        elif conv == "r":
            v = b_repr(args[n]); n += 1
        else:
            raise Unsupported("% format with symbolic argument")
        res = v if res is None else res + v
    if n != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return res


def str_format(s, a, k):
    import string
    res = None
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(s):
        if text:
            res = text if res is None else res + text
        if field is not None:
            if spec:
                raise Unsupported("format spec")
            if field == "":
                v = a[auto]; auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field.isidentifier():
                v = k[field]
            else:
                raise Unsupported("format field")
            v = b_repr(v) if conv == "r" else b_str(v)
            res = v if res is None else res + v
    return "" if res is None else res


def fstr(*parts):
    res = None
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = b_repr(v)
            elif conv == 115:
                v = b_str(v)
            elif conv == 97:
                v = ascii(v)
            if spec:
                if is_sym(v):
                    if spec in ("s", "d") or (isinstance(v, SInt) and spec == ""):
                        v = b_str(v)
                    else:
                        raise Unsupported(f"format spec {spec} on symbolic value")
                else:
                    v = format(v, spec)
            elif not isinstance(v, (str, SStr)):
                v = b_str(v) if has_sym(v) or isinstance(v, (Sym, BaseException)) or not isinstance(v, (int, float)) else format(v)
        else:
            v = p
        res = v if res is None else res + v
    return "" if res is None else res


def slice_(a, b, c):
    return slice(a, b, c)


def getitem(o, k):
    if isinstance(o, (Sym, VList, VDict)):
        return o[k]
    if isinstance(k, slice):
        if is_sym(k.start) or is_sym(k.stop):
            if isinstance(o, (str, bytes)):
                return lift(o)[k]
            if isinstance(o, (list, tuple)):
                a = 0 if k.start is None else k.start
                if is_sym(k.stop) or k.stop is not None:
                    raise Unsupported("symbolic slice stop on list")
                for i in range(len(o) + 1):
                    if core.getbool(a == i):
                        return o[i:]
                return o[len(o):]
        return o[k]
    if is_sym(k):
        if isinstance(o, (str, bytes)):
            return lift(o)[k]
        if isinstance(o, dict):
            for kk in o:
                if core.getbool(kk == k):
                    return o[kk]
            raise KeyError(k)
        if isinstance(o, (list, tuple)):
            for i in range(len(o)):
                if core.getbool(k == i):
                    return o[i]
            for i in range(len(o)):
                if core.getbool(k == -1 - i):
                    return o[-1 - i]
            raise IndexError("list index out of range")
    if isinstance(o, types.MappingProxyType) and is_sym(k):
        raise Unsupported("mappingproxy lookup")
    return o[k]


def barrier(o):
    c = core.C
    if c is None or not c.loop_stack:
        return
    for lp in c.loop_stack:
        lp.on_write(o, None)


def ref(o):
    """base object of a subscript store / delete"""
    if core.C is not None:
        barrier(o)
    return o


def wattr(o, name):
    c = core.C
    if c is not None and c.loop_stack:
        for lp in c.loop_stack:
            lp.on_write(o, name)
    return o


def mkdict(*items):
    if core.C is None:
        d = {}
        for e in items:
            if len(e) == 1:
                d.update(e[0])
            else:
                d[e[0]] = e[1]
        return d
    d = VDict()
    for e in items:
        if len(e) == 1:
            d.update(e[0])
        else:
            d[e[0]] = e[1]
    return d


def mkset(*items):
    if has_sym(list(items)):
        return VSet(items)
    return set(items)


def mklist(*parts):
    if any(st and isinstance(v, (VList, SeqGen)) and v.is_abstract for st, v in parts):
        out = VList([])
        for st, v in parts:
            out = out + (v if isinstance(v, VList) else v.to_list() if isinstance(v, SeqGen) else VList(list(it(v)))) if st else out + [v]
        return out
    out = []
    for st, v in parts:
        if st:
            out.extend(it(v))
        else:
            out.append(v)
    return out


def _abs(x):
    return isinstance(x, (VList, SeqGen)) and x.is_abstract


def listcomp(src, thunk, one=False):
    if _abs(src):
        return SeqGen(src, thunk, one).to_list()
    return thunk(it(src))


def genexp(src, thunk, one=False):
    if _abs(src):
        return SeqGen(src, thunk, one)
    return thunk(it(src))


def setcomp(src, thunk, one=False):
    if _abs(src):
        return VSet.from_abstract(SeqGen(src, thunk, one).to_list())
    return b_set(thunk(it(src)))


def dictcomp(src, thunk, one=False):
    if _abs(src):
        return VDict.from_abstract(SeqGen(src, thunk, one).to_list())
    if isinstance(src, VItemsView):
        return src.dictcomp(thunk)
    if core.C is None:
        return dict(thunk(it(src)))
    d = VDict()
    for k, v in thunk(it(src)):
        d[k] = v
    return d


# --------------------------------------------------------------------------- loops
def loop(site, x):
    return LoopIter(site, x)


def aloop(site, x):
    return AsyncLoopIter(site, x)


def wloop(site):
    return WhileLoop(site)
