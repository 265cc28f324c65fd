"""urllib.parse: the standard library's own source, instrumented like the repository, except urlsplit's
scanner, which is an assumed contract (component split of a URL without control characters)."""
from __future__ import annotations

import sys
import types
import urllib.parse as up

import z3

from . import core, rt
from .core import ANY, ASCII, SStr, SText, Unsupported, cat, first_of, has_sym, is_lit, is_sym, lift, lit, lit_value, mktext
from .models import note
from .rt import MODELS, model
from .transform import instrument

_src = open(up.__file__, encoding="utf-8").read()
std = types.ModuleType("spec_urllib_parse")
std.__dict__["__name__"] = "spec_urllib_parse"
sys.modules["spec_urllib_parse"] = std
exec(instrument(_src, up.__file__, "spec_urllib_parse"), std.__dict__)

FULL = z3.Full(z3.ReSort(z3.StringSort()))
_ctl = "".join(chr(i) for i in range(0x21))
CLEAN = z3.Union(z3.Re(lit("")), z3.Concat(
    z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(core.re_chars(_ctl))), core.no_chars_re("\t\r\n")))
SCHEME = z3.Concat(z3.Union(core.rng("a", "z"), core.rng("A", "Z")),
                   z3.Star(z3.Union(core.rng("a", "z"), core.rng("A", "Z"), core.rng("0", "9"), core.re_chars("+-."))))


@model(up.urlsplit)
def m_urlsplit(url, scheme="", allow_fragments=True):
    if not has_sym((url, scheme)):
        r = up.urlsplit(url, scheme, allow_fragments)
        return std.SplitResult(*r) if core.C is not None and isinstance(url, str) else r
    if not isinstance(url, SStr) or scheme != "" or allow_fragments is not True:
        raise Unsupported("urlsplit variant")
    note("urllib.parse.urlsplit", "splits a URL without control characters into scheme, netloc, path, query, fragment at "
         "the first ':' after a scheme token, '//' up to '/?#', '#', '?'")
    C = core.C
    if not all(C.branch(z3.InRe(k, core.no_chars_re("\t\r\n"))) for k in core.children(url.z) if not is_lit(k)) \
            or not C.branch(z3.InRe(url.z, CLEAN)):
        raise Unsupported("urlsplit of a text with control characters")
    mk = lambda z: mktext(SStr, z, url.alpha)
    before, rest = first_of(url.z, ":")
    sch = ""
    z = url.z
    if not (is_lit(rest) and lit_value(rest) == ""):
        if C.branch(z3.InRe(before, SCHEME)):
            sch = mk(before).lower()
            _, _, r = mk(z).partition(":")
            z = core.zt(r)
    netloc = ""
    t = mk(z)
    if bool(t.startswith("//")):
        t = t[2:] if isinstance(t, str) else mk(_drop2(z))
        n, r = first_of(core.zt(t), "/?#")
        netloc, z = mk(n), r
        if core.getbool(rt.contains("[", netloc)) or core.getbool(rt.contains("]", netloc)):
            if not (core.getbool(rt.contains("[", netloc)) and core.getbool(rt.contains("]", netloc))):
                raise ValueError("Invalid IPv6 URL")
            note("urllib.parse bracketed hosts", "the text between brackets is accepted as an IP address")
        if isinstance(netloc, SStr) and netloc.alpha > ASCII and not C.branch(z3.InRe(netloc.z, core.RE_ASCII)):
            raise Unsupported("non-ASCII netloc (NFKC check)")
    p, _, frag = mk(z).partition("#") if core.is_sym(mk(z)) else mk(z).partition("#")
    p, _, query = p.partition("?")
    return std.SplitResult(sch, netloc, p, query, frag)


def _drop2(z):
    kids = core.children(z)
    if is_lit(kids[0]) and len(lit_value(kids[0])) >= 2:
        return cat(lit(lit_value(kids[0])[2:]), *kids[1:])
    r = core.C.fresh("d2")
    core.C.assume_z(z == z3.Concat(lit("//"), r))
    return r


for _n in ("urlunsplit", "urlencode", "parse_qsl", "parse_qs"):
    def _mk(n):
        real = getattr(up, n)
        inst = getattr(std, n)

        def m(*a, **k):
            if core.C is None or not (has_sym(a) or has_sym(list(k.values()))):
                return real(*a, **k)
            return inst(*a, **k)
        MODELS[id(real)] = (real, m)
        # the instrumented copy calls its own helpers
    _mk(_n)
# inside the instrumented copy, scanning and quoting go through the contracts
MODELS[id(std.urlsplit)] = (std.urlsplit, m_urlsplit)
MODELS[id(std.quote)] = (std.quote, MODELS[id(up.quote)][1])
MODELS[id(std.unquote)] = (std.unquote, MODELS[id(up.unquote)][1])
MODELS[id(std.quote_plus)] = (std.quote_plus, MODELS[id(up.quote_plus)][1])
MODELS[id(std.unquote_plus)] = (std.unquote_plus, MODELS[id(up.unquote_plus)][1])
