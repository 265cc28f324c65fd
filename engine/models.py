"""Assumed contracts of dependencies (stubs), used in symbolic execution only.  The concrete
cross-check runs the same harnesses against the real dependencies."""
from __future__ import annotations

import functools
import tempfile
import typing

import z3

from . import core, rt, symctx
from . import lang as LG
from .core import (ANY, ASCII, LATIN1, SBool, SBytes, SInt, SStr, SText, Unsupported, has_sym, is_sym, lift, lit, mkbool,
                   mkint, mktext, zt)
from .rt import MODELS, model
from .seq import VDict, VList

ASSUMED = {}


def note(name, text):
    ASSUMED[name] = text
    if core.C is not None:
        core.C.stats.assumed.add(f"{name}: {text}")


@model(typing.cast)
def m_cast(t, v):
    return v


@model(functools.wraps)
def m_wraps(f, *a, **k):
    return functools.wraps(f, *a, **k)


import anyio  # noqa: E402
import anyio.to_thread  # noqa: E402


@model(anyio.to_thread.run_sync)
async def m_run_sync(func, *args, **kw):
    note("anyio.to_thread.run_sync", "runs the function exactly once and returns its result or raises its exception")
    return rt.call(func, *args)


import html  # noqa: E402


def sym_uf(name, fn, args, alpha, cls=SStr):
    return mktext(cls, core.C.uf(name, fn, *[zt(a) for a in args]), alpha)


@model(html.escape)
def m_escape(s, quote=True):
    if not is_sym(s):
        return html.escape(s, quote)
    note("html.escape", "executable uninterpreted function")
    r = core.C.uf(f"html_escape_{int(quote)}", lambda x: html.escape(x, quote), s.z)
    core.C.assume_z(z3.Not(z3.Contains(r, lit("<"))))
    core.C.assume_z(z3.Not(z3.Contains(r, lit(">"))))
    return mktext(SStr, r, s.alpha)


import urllib.parse as up  # noqa: E402


@model(up.quote)
def m_quote(s, safe="/", encoding=None, errors=None):
    if not has_sym((s, safe)):
        return up.quote(s, safe=safe) if encoding is None and errors is None else up.quote(s, safe, encoding, errors)
    if has_sym(safe) or encoding or errors:
        raise Unsupported("quote with options")
    note("urllib.parse.quote", "character-wise (homomorphic); identity on unreserved/safe characters; executable elsewhere; "
         "output consists of unreserved, safe and %XX characters")
    name = f"quote_{core.enc(safe)}"
    if isinstance(s, SBytes):
        fn = lambda x: up.quote(x.encode("latin-1"), safe=safe)
        name += "_b"
    else:
        fn = lambda x: up.quote(x, safe=safe)
    keep = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~" + safe
    ident = z3.Star(core.re_chars("".join(c for c in keep if ord(c) < 128)))
    outre = z3.Star(core.re_chars(keep + "%"))
    parts = []
    for p in core.children(s.z):
        if core.is_lit(p):
            parts.append(lit(fn(core.lit_value(p))))
        elif core.C.decide(z3.InRe(p, ident)) is True:
            parts.append(p)
        else:
            r = core.C.uf(name, fn, p)
            core.C.assume_z(z3.InRe(r, outre))
            core.C.assume_z((r == lit("")) == (p == lit("")))
            parts.append(r)
    return mktext(SStr, core.cat(*parts), ASCII)


@model(up.unquote)
def m_unquote(s, *a, **k):
    if not is_sym(s):
        return up.unquote(s, *a, **k)
    if a or k:
        raise Unsupported("unquote options")
    note("urllib.parse.unquote", "executable uninterpreted function")
    return mktext(SStr, core.C.uf("unquote", lambda x: up.unquote(x), s.z), ANY)


import http  # noqa: E402

import http.cookies  # noqa: E402


@model(http.cookies._unquote)
def m_cookie_unquote(s):
    if not is_sym(s):
        return http.cookies._unquote(s)
    note("http.cookies._unquote", "identity on texts without a double quote; otherwise an executable uninterpreted function")
    if core.C.decide(z3.InRe(s.z, core.no_chars_re('"'))) is True:
        return s
    return mktext(SStr, core.C.uf("cookie_unquote", http.cookies._unquote, s.z), ANY)


_CTRL = z3.Concat(z3.Full(z3.ReSort(z3.StringSort())), core.re_chars("".join(map(chr, range(32))) + chr(127)),
                  z3.Full(z3.ReSort(z3.StringSort())))
_LEGAL = z3.Plus(core.re_chars(http.cookies._LegalChars))
_NOSEMI = core.no_chars_re(";" + "".join(map(chr, range(32))) + chr(127))


def _has_ctrl(*vals):
    for v in vals:
        if isinstance(v, SText):
            for k in core.children(v.z):
                if core.is_lit(k):
                    if http.cookies._has_control_character(core.lit_value(k)):
                        return True
                elif core.C.branch(z3.InRe(k, _CTRL)):
                    return True
        elif not is_sym(v) and http.cookies._has_control_character(v):
            return True
    return False


@model(http.cookies._quote)
def m_cookie_quote(s):
    if not is_sym(s):
        return http.cookies._quote(s)
    note("http.cookies._quote", "identity on cookie tokens; otherwise an executable uninterpreted function whose result has no ';' "
         "or control character and is undone by _unquote")
    if core.C.branch(z3.InRe(s.z, _LEGAL)):
        return s
    r = core.C.uf("cookie_quote", lambda x: http.cookies._quote(x)[1:-1], s.z)
    core.C.assume_z(z3.InRe(r, _NOSEMI))
    r = core.cat(lit('"'), r, lit('"'))
    core.C.assume_z(core.C.uf("cookie_unquote", http.cookies._unquote, r) == s.z)
    return mktext(SStr, r, s.alpha)


_Morsel = http.cookies.Morsel


class ModelMorsel:
    """http.cookies.Morsel (assumed contract, mirrors the standard library's source)"""

    def __init__(self):
        self.attrs = {k: "" for k in _Morsel._reserved}
        self.key = self.value = self.coded_value = None

    def __setitem__(self, k, v):
        k = k.lower()
        if is_sym(k):
            raise Unsupported("symbolic cookie attribute name")
        if k not in _Morsel._reserved:
            raise http.cookies.CookieError(k)
        if _has_ctrl(v):
            raise http.cookies.CookieError("control character")
        self.attrs[k] = v

    def __getitem__(self, k):
        return self.attrs[k]

    def set(self, key, val, coded):
        low = key.lower()
        for r in _Morsel._reserved:
            if core.getbool(rt.eqb(low, r)):
                raise http.cookies.CookieError("reserved")
        if is_sym(key):
            if not core.C.branch(z3.InRe(key.z, _LEGAL)):
                raise http.cookies.CookieError("illegal key")
        elif not http.cookies._is_legal_key(key):
            raise http.cookies.CookieError("illegal key")
        if _has_ctrl(key, val, coded):
            raise http.cookies.CookieError("control character")
        self.key, self.value, self.coded_value = key, val, coded

    def OutputString(self, attrs=None):
        out = lift("") + self.key + "=" + self.coded_value
        for key in sorted(self.attrs):
            v = self.attrs[key]
            if not isinstance(v, bool) and core.getbool(rt.eqb(v, "")):
                continue
            name = _Morsel._reserved[key]
            if key == "expires" and isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out = out + "; " + name + "=" + http.cookies._getdate(v)
            elif key in _Morsel._flags:
                if core.getbool(v):
                    out = out + "; " + name
            else:
                out = out + "; " + name + "=" + rt.call(str, v)
        return out

    def output(self, attrs=None, header="Set-Cookie:"):
        return lift("") + header + " " + self.OutputString(attrs)


class ModelCookie:
    """http.cookies.SimpleCookie (assumed contract, mirrors the standard library's source)"""

    def __init__(self, input=None):
        if input:
            raise Unsupported("SimpleCookie(input)")
        self.items_ = []

    def __setitem__(self, key, value):
        s = rt.call(str, value)
        for k, m in self.items_:
            if core.getbool(rt.eqb(k, key)):
                m.set(key, value, m_cookie_quote(s))
                return
        m = ModelMorsel()
        m.set(key, value, m_cookie_quote(s))
        self.items_.append((key, m))

    def __getitem__(self, key):
        for k, m in self.items_:
            if core.getbool(rt.eqb(k, key)):
                return m
        raise KeyError(key)

    def output(self, attrs=None, header="Set-Cookie:", sep="\015\012"):
        if len(self.items_) > 1:
            raise Unsupported("several cookies")
        out = lift("")
        for i, (k, m) in enumerate(self.items_):
            out = out + (sep if i else "") + m.output(attrs, header)
        return out


@model(http.cookies.SimpleCookie)
def m_simplecookie(*a):
    note("http.cookies.SimpleCookie", "mirror of the standard library's Morsel over symbolic texts")
    return ModelCookie(*a)


import time  # noqa: E402
import json  # noqa: E402
import inspect  # noqa: E402
import secrets  # noqa: E402
import importlib  # noqa: E402


for _m in (inspect.iscoroutinefunction, inspect.isfunction, inspect.ismethod, inspect.isclass, inspect.signature,
           inspect.iscoroutine):
    _m._verif_ok = True


_UNRESERVED = z3.Star(core.re_chars("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~"))
QP = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~%+"


@model(up.quote_plus)
def m_quote_plus(s, safe="", encoding=None, errors=None):
    if not has_sym((s, safe)):
        return up.quote_plus(s, safe, encoding, errors)
    if not isinstance(s, SStr) or safe != "" or encoding or errors:
        raise Unsupported("quote_plus with options")
    note("urllib.parse.quote_plus", "executable uninterpreted function: output of unreserved, '+' and %XX characters, undone by unquote_plus")
    if core.C.decide(z3.InRe(s.z, _UNRESERVED)) is True:
        return s
    r = core.C.uf("quote_plus", up.quote_plus, s.z)
    core.C.assume_z(z3.InRe(r, z3.Star(core.re_chars(QP))))
    core.C.assume_z((r == lit("")) == (s.z == lit("")))
    core.C.assume_z(core.C.uf("unquote_plus", up.unquote_plus, r) == s.z)
    return mktext(SStr, r, ASCII)


@model(up.unquote_plus)
def m_unquote_plus(s, encoding="utf-8", errors="replace"):
    if not is_sym(s):
        return up.unquote_plus(s, encoding, errors)
    if encoding != "utf-8" or errors != "replace":
        raise Unsupported("unquote_plus options")
    note("urllib.parse.unquote_plus", "identity without '%' and '+', inverse of quote_plus, otherwise an executable uninterpreted function")
    if z3.is_app(s.z) and s.z.decl().name() == "uf_quote_plus":
        return mktext(SStr, s.z.arg(0), ANY)
    if core.C.decide(z3.InRe(s.z, core.no_chars_re("%+"))) is True:
        return s
    return mktext(SStr, core.C.uf("unquote_plus", up.unquote_plus, s.z), ANY)


import base64  # noqa: E402
import json  # noqa: E402


def clone(x):
    """a copy of JSON-like data"""
    if isinstance(x, VDict):
        return x.copy() if x.symbolic_keys() else VDict({k: clone(v) for k, v in dict.items(x)})
    if type(x) is dict:
        return {k: clone(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return [clone(v) for v in x]
    return x


def produced(kind, z):
    for t, v in core.C.memo.get(("produced", kind), ()):
        if t.eq(z):
            return v
    return None


def produce(kind, cls, regex, value, nonempty=True):
    """an unknown text standing for an encoding of value, decoded by the inverse"""
    c = core.C
    seen = c.memo.get(("produced", kind), ())
    for t, v in seen:
        if bool(rt.eqb(v, value)):
            return mktext(cls, t, ASCII)
    z = c.fresh(kind)
    c.assume_z(z3.InRe(z, regex))
    for t, v in seen:
        c.assume_z(z != t)
    c.memo.setdefault(("produced", kind), []).append((z, value))
    c.keep.append(z)
    return mktext(cls, z, ASCII)


PRINTABLE = z3.Range(lit(" "), lit("~"))


@model(json.dumps)
def m_json_dumps(obj, **k):
    if not has_sym(obj):
        return json.dumps(obj, **k)
    if k:
        note("json.dumps with options", "some text")
        return mktext(SStr, core.C.fresh("json"), ANY)
    note("json.dumps", "some printable ASCII text, undone by json.loads")
    return produce("json", SStr, z3.Plus(PRINTABLE), clone(obj))


@model(json.loads)
def m_json_loads(s, **k):
    if not is_sym(s):
        return json.loads(s, **k)
    v = produced("json", s.z)
    if v is None or k:
        raise Unsupported("json.loads of an arbitrary text")
    return clone(v)


B64 = z3.Union(z3.Range(lit("a"), lit("z")), z3.Range(lit("A"), lit("Z")), z3.Range(lit("0"), lit("9")), z3.Re(lit("+")), z3.Re(lit("/")),
               z3.Re(lit("=")))


@model(base64.b64encode)
def m_b64encode(s, altchars=None):
    if not is_sym(s):
        return base64.b64encode(s, altchars)
    if altchars is not None:
        raise Unsupported("base64 alphabet")
    note("base64.b64encode", "some text of base64 characters, undone by b64decode")
    r = produce("b64", SBytes, z3.Star(B64), s)
    core.C.assume_z((r.z == lit("")) == (s.z == lit("")))
    return r


@model(base64.b64decode)
def m_b64decode(s, altchars=None, validate=False):
    if not is_sym(s):
        return base64.b64decode(s, altchars, validate)
    v = produced("b64", s.z)
    if v is None or altchars is not None:
        raise Unsupported("base64 decoding of an arbitrary text")
    return v


import uuid  # noqa: E402

_HEX = z3.Union(core.rng("0", "9"), core.rng("a", "f"), core.rng("A", "F"))
_LHEX = z3.Union(core.rng("0", "9"), core.rng("a", "f"))


def _uuid_re(h, dash):
    parts = []
    for i, n in enumerate((8, 4, 4, 4, 12)):
        parts += ([dash] if i else []) + [h] * n
    return z3.Concat(*parts)


_UUID_IN = _uuid_re(_HEX, z3.Option(z3.Re(lit("-"))))
_UUID_OUT = _uuid_re(_LHEX, z3.Re(lit("-")))


def _uuid_str(s):
    try:
        return str(uuid.UUID(s))
    except ValueError:
        return s


@model(uuid.UUID)
def m_uuid(hex=None, *a, **k):
    if a or k or not is_sym(hex):
        if has_sym((a, list(k.values()))):
            raise Unsupported("UUID arguments")
        return uuid.UUID(hex, *a, **k)
    if core.C.decide(z3.InRe(hex.z, _UUID_IN)) is not True:
        raise Unsupported("UUID of an arbitrary text")
    note("uuid.UUID", "executable uninterpreted function of the text; its str() is the canonical form, and identifies it")
    if core.C.decide(z3.InRe(hex.z, _UUID_OUT)) is True:
        return core.Opaque(uuid.UUID, hex.z, str)
    z = core.C.uf("uuid", _uuid_str, hex.z)
    core.C.assume_z(z3.InRe(z, _UUID_OUT))
    return core.Opaque(uuid.UUID, z, str)


import re  # noqa: E402


@model(re.escape)
def m_re_escape(s):
    if not is_sym(s):
        return re.escape(s)
    if not isinstance(s, SStr):
        raise Unsupported("re.escape of bytes")
    note("re.escape", "the escaped text matches exactly the text")
    from .regex import sym_escape
    return sym_escape(s)


@model(re.compile)
def m_re_compile(p, flags=0):
    if not is_sym(p):
        return re.compile(p, flags)
    if not isinstance(p, SStr):
        raise Unsupported("re.compile of symbolic bytes")
    from .regex import SymPattern
    return SymPattern(p, flags)

import io  # noqa: E402


class MemFile:
    """io.BytesIO / a spooled temporary file (assumed contract): a growing byte string with a position"""

    def __init__(self, initial=b""):
        self.data = initial
        self.pos = 0
        self.closed = False

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._open()
        if n is None or (not is_sym(n) and n < 0):
            out = rt.getitem(self.data, rt.slice_(self.pos, None, None))
        else:
            out = rt.getitem(self.data, rt.slice_(self.pos, self.pos + n, None))
        rt.barrier(self)
        self.pos = self.pos + rt.b_len(out)
        return out

    def truncate(self, size=None):
        self._open()
        rt.barrier(self)
        size = self.pos if size is None else size
        self.data = rt.getitem(self.data, rt.slice_(None, size, None))
        return size

    def getbuffer(self):
        return self.getvalue()

    def flush(self):
        self._open()

    def write(self, b):
        self._open()
        rt.barrier(self)
        if not core.getbool(rt.eqb(self.pos, rt.b_len(self.data))):
            raise Unsupported("write before the end of a file")
        self.data = self.data + b
        n = rt.b_len(b)
        self.pos = self.pos + n
        return n

    def seek(self, pos, whence=0):
        self._open()
        rt.barrier(self)
        if whence == 0:
            self.pos = pos
        elif whence == 2:
            self.pos = rt.b_len(self.data) + pos
        else:
            raise Unsupported("seek relative to the position")
        return self.pos

    def tell(self):
        self._open()
        return self.pos

    def getvalue(self):
        self._open()
        return self.data

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SpooledFile(MemFile):
    """tempfile.SpooledTemporaryFile: rolls over to disk when it outgrows max_size"""

    def __init__(self, max_size=0):
        super().__init__()
        self.max_size, self._rolled = max_size, False

    def write(self, b):
        n = MemFile.write(self, b)
        if not self._rolled and self.max_size and core.getbool(self.pos > self.max_size):
            self._rolled = True
        return n

    def rollover(self):
        self._rolled = True


@model(tempfile.SpooledTemporaryFile)
def m_spooled(max_size=0, mode="w+b", **kw):
    note("tempfile.SpooledTemporaryFile", "a growing byte string with a position; on disk once longer than max_size")
    if kw or mode != "w+b":
        raise Unsupported("SpooledTemporaryFile options")
    f = SpooledFile(max_size)
    if core.C is not None:
        core.C.tempfiles.append(f)
    return f


@model(io.BytesIO)
def m_bytesio(initial=b""):
    if core.C is None:
        return io.BytesIO(initial)
    note("io.BytesIO", "a byte string with a position")
    return MemFile(initial)


import anyio.from_thread  # noqa: E402


@model(anyio.from_thread.run)
def m_from_thread(func, *args, **kw):
    """called in line by the model of to_thread.run_sync: completes the coroutine before it returns"""
    note("anyio.from_thread.run", "runs the coroutine function on the event loop to its end and returns its result")
    coro = rt.call(func, *args)
    for _ in range(100):
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
    coro.close()
    raise Unsupported("from_thread.run: the coroutine waits")


# ---- files
import builtins  # noqa: E402
import os  # noqa: E402
import pathlib  # noqa: E402


class TextFile:
    """a text file open for reading, given by its lines"""

    def __init__(self, lines):
        self.lines, self.closed = lines, False

    def readlines(self):
        return self.lines.copy()

    def _verif_items(self):
        return self.lines

    def __iter__(self):
        return rt.b_iter(self.lines)

    def read(self):
        return SStr(lit(""), ASCII).join(self.lines) if self.lines else ""

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def vfile(path):
    if core.C is None:
        return None
    return core.C.files.get(str(path)) if isinstance(path, (str, pathlib.PurePath)) else None


def m_open(path, mode="r", *a, **k):
    f = vfile(path)
    if f is None:
        return open(path, mode, *a, **k)
    if mode not in ("r", "rt"):
        raise Unsupported(f"open a virtual file in mode {mode}")
    note("open", "an existing readable file yields its lines")
    return TextFile(f)


MODELS[id(builtins.open)] = (builtins.open, m_open)
MODELS[id(pathlib.Path.open)] = (pathlib.Path.open, m_open)


@model(pathlib.Path.read_text)
def m_read_text(path, *a, **k):
    f = vfile(path)
    return pathlib.Path.read_text(path, *a, **k) if f is None else TextFile(f).read()


for _cls, _name in ((os.path, "isfile"), (os.path, "exists"), (pathlib.Path, "is_file"), (pathlib.Path, "exists")):
    def _there(path, *a, _f=getattr(_cls, _name), **k):
        return _f(path, *a, **k) if vfile(path) is None else True
    MODELS[id(getattr(_cls, _name))] = (getattr(_cls, _name), _there)


class VFile:
    """a binary file open for reading, through anyio (assumed contract: read(n) returns the next n bytes, or what is left of them);
    its content is what is before the position and the pieces after it"""
    _ghost_ok = True

    def __init__(self, data):
        self.before, self.rest = [], list(data)
        self.closed = False

    def place(self, before, rest):
        """of a loop contract: the file stands between these"""
        self.before, self.rest = list(before), list(rest)

    async def read(self, n=-1):
        c = core.C
        if self.closed:
            raise ValueError("read of closed file")
        rt.barrier(self)
        out = []
        if not is_sym(n) and n < 0:
            out, self.rest = self.rest, []
        elif not core.getbool(n >= 0):
            raise Unsupported("read of a negative number of bytes")
        else:
            while self.rest:
                p = self.rest[0]
                size = rt.b_len(p)
                left = n - sum([rt.b_len(x) for x in out], 0)
                if core.getbool(left >= size):
                    out.append(self.rest.pop(0))
                    continue
                a, b = mktext(SBytes, c.fresh("read"), LATIN1), mktext(SBytes, c.fresh("unread"), LATIN1)
                c.learn(a.z, symctx._ALPHA[LATIN1])
                c.learn(b.z, symctx._ALPHA[LATIN1])
                c.assume_z(z3.Concat(a.z, b.z) == lift(p).z)
                c.assume_z(z3.Length(a.z) == core.zi(left))
                c.memo[("parts", lift(p).z.get_id())] = [a.z, b.z]
                c.keep.append(lift(p).z)
                out.append(a)
                self.rest[0] = b
                break
        self.before += out
        return join(out)

    async def seek(self, k):
        rt.barrier(self)
        pieces, at = self.before + self.rest, 0
        for i in range(len(pieces) + 1):
            if core.getbool(at == k):
                self.before, self.rest = pieces[:i], pieces[i:]
                return k
            if i < len(pieces):
                at = at + rt.b_len(pieces[i])
        raise Unsupported("seek into the middle of a piece")

    async def aclose(self):
        self.closed = True

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.closed = True


def join(xs):
    out = b""
    for x in xs:
        out = out + x
    return out


class VStat:
    _ghost_ok = True

    def __init__(self, size, mtime, mode):
        self.st_size, self.st_mtime, self.st_mode = size, mtime, mode


@model(anyio.open_file)
async def m_open_file(path, mode="r", *a, **k):
    f = core.C.binfiles.get(str(path)) if core.C is not None else None
    if core.C is None:
        return await anyio.open_file(path, mode, *a, **k)
    if f is None or mode != "rb" or a or k:
        raise Unsupported("anyio.open_file")
    note("anyio.open_file", "a file is read in order: read(n) returns the next n bytes or what is left, seek(k) goes to byte k")
    v = VFile(f[0])
    core.C.opened.append(v)
    return v


@model(os.stat)
def m_stat(path, *a, **k):
    f = core.C.binfiles.get(str(path)) if core.C is not None and isinstance(path, (str, pathlib.PurePath)) else None
    if f is None:
        return os.stat(path, *a, **k)
    note("os.stat", "size and modification time of the file")
    return f[1]


import hashlib  # noqa: E402


class Md5:
    def __init__(self, data=b""):
        self.data = data

    def update(self, more):
        self.data = self.data + more

    def hexdigest(self):
        r = core.C.uf("md5", lambda x: hashlib.md5(x.encode("latin-1"), usedforsecurity=False).hexdigest(), lift(self.data).z)
        core.C.assume_z(z3.InRe(r, z3.Loop(core.re_chars("0123456789abcdef"), 32, 32)))
        return mktext(SStr, r, ASCII)


@model(hashlib.md5)
def m_md5(data=b"", **k):
    if not has_sym(data):
        return hashlib.md5(data, **k)
    note("hashlib.md5", "some function from bytes to 32 hexadecimal digits")
    return Md5(data)


@model(secrets.token_hex)
def m_token_hex(n=None):
    if core.C is None:
        return secrets.token_hex(n)
    note("secrets.token_hex", "any text of that many hexadecimal digits")
    n = 32 if n is None else n
    r = core.C.fresh("token")
    core.C.learn(r, LG.cat(*[LG.cls([(48, 57), (97, 102)])] * (2 * n)))
    return mktext(SStr, r, ASCII)


@model(os.path.join)
def m_path_join(a, *p):
    if not has_sym(a) and not has_sym(p):
        return os.path.join(a, *p)
    if not all(isinstance(x, (str, SStr)) for x in (a, *p)):
        raise Unsupported("os.path.join of path objects")
    note("os.path.join", "as documented (POSIX)")
    path = a
    for b in p:
        if core.getbool(b.startswith("/")):
            path = b
        elif core.getbool(rt.b_len(path) == 0) or core.getbool(path.endswith("/")):
            path = path + b
        else:
            path = path + "/" + b
    return path


@model(os.path.normpath)
def m_normpath(path):
    if not has_sym(path):
        return os.path.normpath(path)
    note("os.path.normpath", "as documented (POSIX)")
    if core.getbool(rt.b_len(path) == 0):
        return "."
    root = ""
    if core.getbool(path.startswith("/")):
        root = "//" if core.getbool(path.startswith("//")) and not core.getbool(path.startswith("///")) else "/"
    out = []
    for x in path.split("/"):
        if core.getbool(x == "") or core.getbool(x == "."):
            continue
        if core.getbool(x != "..") or (not root and not out) or (out and not is_sym(out[-1]) and out[-1] == ".."):
            out.append(x if is_sym(x) and not core.getbool(x == "..") else "..") if is_sym(x) else out.append(x)
        elif out:
            out.pop()
    path = root + "/".join(out) if not out else root
    for i, x in enumerate(out):
        path = path + ("/" if i else "") + x
    return path if not (isinstance(path, str) and path == "") else "."


# ---- gzip
import gzip  # noqa: E402


class GzStream:
    """gzip.GzipFile (assumed contract): writes pieces of one gzip stream to its file; once closed, the pieces in order decode to the
    bytes written; while open they differ from them"""

    def __init__(self, fileobj, fed=b""):
        self.fileobj, self.fed, self.emitted, self.closed = fileobj, fed, b"", False
        core.C.gzips.append(self)

    def _emit(self, some):
        piece = SBytes(core.C.fresh("gz"), LATIN1)
        if some:
            core.C.assume_z(piece.z != lit(""))
        self.emitted = self.emitted + piece
        if self.fileobj is not None:
            self.fileobj.write(piece)
        return piece

    def write(self, data):
        if self.closed:
            raise ValueError("write() on closed GzipFile object")
        rt.barrier(self)
        self.fed = self.fed + data
        self._emit(False)
        core.C.assume_z(zt(lift(self.emitted)) != zt(lift(self.fed)))
        return rt.b_len(data)

    def flush(self, *a):
        rt.barrier(self)
        self._emit(False)

    def close(self):
        if not self.closed:
            rt.barrier(self)
            self.closed = True
            self._emit(True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


@model(gzip.GzipFile)
def m_gzipfile(filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
    if core.C is None or not isinstance(fileobj, MemFile):
        return gzip.GzipFile(filename, mode, compresslevel, fileobj, mtime)
    if mode not in ("wb", "w"):
        raise Unsupported("gzip file that is not written")
    note("gzip.GzipFile", "the pieces it writes, up to and including those of close(), decode to the bytes written to it; before that they differ from them")
    g = GzStream(fileobj)
    g._emit(True)
    return g


@model(gzip.compress)
def m_gzip_compress(data, compresslevel=9, *, mtime=None):
    if core.C is None or not is_sym(data):
        return gzip.compress(data, compresslevel, mtime=mtime)
    note("gzip.compress", "decodes to its argument")
    g = GzStream(None, data)
    g.close()
    return g.emitted


@model(gzip.decompress)
def m_gzip_decompress(data):
    """of bytes that are one of the streams written so far"""
    for g in core.C.gzips if core.C is not None else []:
        if g.closed and core.getbool(rt.eqb(g.emitted, data)):
            return g.fed
    if not is_sym(data):
        return gzip.decompress(data)
    raise gzip.BadGzipFile("not a complete gzip stream")
