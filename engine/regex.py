"""Translation of Python regular expressions (sre parse tree) to z3 regular expressions."""
from __future__ import annotations

import re._constants as k
import re._parser as sp

import z3

from .core import ANY, ASCII, LATIN1, STR_WS, Unsupported, lit, rng

MAXC = "\U0002ffff"
S = z3.StringSort()
RS = z3.ReSort(S)


def _ch(o):
    return z3.Re(lit(chr(o)))


def union(xs):
    xs = list(xs)
    if not xs:
        return z3.Empty(RS)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def concat(xs):
    xs = list(xs)
    if not xs:
        return z3.Re(lit(""))
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


ANYCHAR = z3.AllChar(RS)


def cat_class(c, bytes_mode):
    if c is k.CATEGORY_DIGIT:
        return rng("0", "9")          # for str patterns: ASCII digits only (others excluded by assumption)
    if c is k.CATEGORY_WORD:
        return union([rng("a", "z"), rng("A", "Z"), rng("0", "9"), _ch(95)])
    if c is k.CATEGORY_SPACE:
        return union([_ch(ord(x)) for x in (" \t\n\r\x0b\x0c" if bytes_mode else STR_WS)])
    raise Unsupported(f"regex category {c}")


NONASCII_SENSITIVE = (k.CATEGORY_DIGIT, k.CATEGORY_WORD)


class T:
    def __init__(self, flags=0, bytes_mode=False):
        self.flags = flags
        self.bytes = bytes_mode
        self.unicode_classes = False
        self.ic = bool(flags & 2)
        self.dotall = bool(flags & 16)

    def char(self, o):
        if self.ic:
            c = chr(o)
            if c.lower() != c.upper():
                return union([_ch(ord(x)) for x in {c.lower(), c.upper()} if len(x) == 1])
        return _ch(o)

    def klass(self, items):
        neg = bool(items) and items[0][0] is k.NEGATE
        out = []
        for op, av in (items[1:] if neg else items):
            if op is k.LITERAL:
                out.append(self.char(av))
            elif op is k.RANGE:
                out.append(rng(chr(av[0]), chr(av[1])))
                if self.ic:
                    for f in (str.lower, str.upper):
                        a, b = f(chr(av[0])), f(chr(av[1]))
                        if len(a) == len(b) == 1 and a <= b:
                            out.append(rng(a, b))
            elif op is k.CATEGORY:
                if av in (k.CATEGORY_NOT_DIGIT, k.CATEGORY_NOT_WORD, k.CATEGORY_NOT_SPACE):
                    pos = {k.CATEGORY_NOT_DIGIT: k.CATEGORY_DIGIT, k.CATEGORY_NOT_WORD: k.CATEGORY_WORD,
                           k.CATEGORY_NOT_SPACE: k.CATEGORY_SPACE}[av]
                    out.append(z3.Intersect(ANYCHAR, z3.Complement(cat_class(pos, self.bytes))))
                else:
                    out.append(cat_class(av, self.bytes))
            else:
                raise Unsupported(f"regex class item {op}")
        u = union(out)
        if neg:
            return z3.Intersect(ANYCHAR, z3.Complement(u))
        return u

    def seq(self, tree):
        return concat([self.one(op, av) for op, av in tree])

    def one(self, op, av):
        if op is k.LITERAL:
            return self.char(av)
        if op is k.NOT_LITERAL:
            return z3.Intersect(ANYCHAR, z3.Complement(_ch(av)))
        if op is k.ANY:
            return ANYCHAR if self.dotall else z3.Intersect(ANYCHAR, z3.Complement(_ch(10)))
        if op is k.IN:
            return self.klass(av)
        if op in (k.MAX_REPEAT, k.MIN_REPEAT, k.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is k.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return concat([r] * lo + [z3.Star(r)])
            if lo == 0 and hi == 1:
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is k.SUBPATTERN:
            return self.seq(av[3])
        if op is k.BRANCH:
            return union([self.seq(b) for b in av[1]])
        raise Unsupported(f"regex construct {op}")


def is_ascii_only(tree):
    """no construct can match a non-ASCII character"""
    for op, av in tree:
        if op is k.LITERAL:
            if av > 127:
                return False
        elif op is k.IN:
            for o, a in av:
                if o is k.NEGATE:
                    return False
                if o is k.LITERAL and a > 127:
                    return False
                if o is k.RANGE and a[1] > 127:
                    return False
                if o is k.CATEGORY and a in (k.CATEGORY_NOT_DIGIT, k.CATEGORY_NOT_WORD, k.CATEGORY_NOT_SPACE, k.CATEGORY_SPACE):
                    return False
        elif op in (k.MAX_REPEAT, k.MIN_REPEAT):
            if not is_ascii_only(av[2]):
                return False
        elif op is k.SUBPATTERN:
            if not is_ascii_only(av[3]):
                return False
        elif op is k.BRANCH:
            if not all(is_ascii_only(b) for b in av[1]):
                return False
        elif op in (k.ANY, k.NOT_LITERAL):
            return False
    return True


_cache = {}


def pattern_to_re(pat, flags=16, bytes_mode=False):
    """full-match language of pat -> (z3 re, ascii_only, latin_only)"""
    key = (pat, flags, bytes_mode)
    if key not in _cache:
        tree = sp.parse(pat, flags)
        t = T(tree.state.flags | flags, bytes_mode)
        _cache[key] = (t.seq(tree), is_ascii_only(tree), False)
    return _cache[key]


class SymMatch:
    def __init__(self, pattern, whole, groups, names, start=0, span_end=None):
        self.re = pattern
        self._g = [whole] + groups
        self._names = names
        self._end = span_end

    def group(self, *ks):
        if not ks:
            return self._g[0]
        r = [self._g[self._names[x] if isinstance(x, str) else x] for x in ks]
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = lambda self, x: self.group(x)

    def groups(self, default=None):
        return tuple(default if g is None else g for g in self._g[1:])

    def groupdict(self, default=None):
        from .seq import VDict
        d = VDict()
        for n, i in self._names.items():
            d[n] = self._g[i]
        return d

    def start(self, *a):
        raise Unsupported("match.start on symbolic match")

    def end(self, *a):
        if not a and self._end is not None:
            return self._end
        raise Unsupported("match.end on symbolic match")


def sym_match(pat, how, s):
    """pattern.match/fullmatch/search on a symbolic text"""
    from . import core
    from .seq import UNDEF
    c = core.C
    bytes_mode = isinstance(pat.pattern, bytes)
    cls = core.SBytes if bytes_mode else core.SStr
    if not isinstance(s, cls):
        if isinstance(s, core.SText):
            raise TypeError("cannot use a string pattern on a bytes-like object")
        s = core.lift(s)
    tree = sp.parse(pat.pattern, pat.flags & ~32 if not bytes_mode else pat.flags)
    t = T(pat.flags, bytes_mode)
    items = list(tree)
    begin = False
    end = None
    if items and items[0][0] is k.AT and items[0][1] in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
        begin = True
        items = items[1:]
    if items and items[-1][0] is k.AT:
        end = items[-1][1]
        items = items[:-1]
    if pat.flags & 8:
        raise Unsupported("multiline regex")
    comps = []
    unknown = []                # groups inside others or under repetition: their texts are not modelled
    for op, av in items:
        gid = None
        if op is k.SUBPATTERN and av[0] is not None:
            gid = av[0]
            inner = list(av[3])
        else:
            inner = [(op, av)]
        unknown += [a[0] for o, a in walk(inner) if o is k.SUBPATTERN and a[0] is not None]
        comps.append((gid, t.one(op, av)))
    L = concat([r for _, r in comps])
    full = z3.Full(RS)
    nl = z3.Option(_ch(10))
    tail = {None: full if how != "fullmatch" else z3.Re(lit("")), k.AT_END: nl, k.AT_END_STRING: z3.Re(lit(""))}.get(end)
    if tail is None:
        raise Unsupported("regex anchor")
    if how == "fullmatch":
        tail = z3.Re(lit(""))
    head = full if (how == "search" and not begin) else None
    lang = concat(([head] if head is not None else []) + [L] + ([tail] if True else []))
    if head is None and (how == "fullmatch" or end is k.AT_END_STRING) and not unknown and getattr(c, "aligned_matching", False):
        v = aligned(c, comps, s.z)
        if v is None:
            return None
        if v is not False:
            groups = [None] * pat.groups
            for gid, x in v.items():
                groups[gid - 1] = s.mk(x)
            return SymMatch(pat, s.mkraw(s), groups, dict(pat.groupindex), 0, core.slen(s))
    if not c.branch(z3.InRe(s.z, lang)):
        return None
    groups = [None] * (pat.groups)
    key = ("rematch", pat.pattern, how, s.z.get_id())
    v = c.memo.get(key)
    if v is None:
        c.keep.append(s.z)
        zs = []
        gz = {}
        pend = []
        if head is not None:
            h = c.fresh("rh")
            zs.append(h)
        lits = []
        for gid, r in comps:
            if gid is None and r.decl().kind() == z3.Z3_OP_SEQ_TO_RE and core.is_lit(r.arg(0)):
                zs.append(r.arg(0))
                lits.append(r.arg(0))
                continue
            x = c.fresh("rg")
            c.assume_z(z3.InRe(x, r))
            zs.append(x)
            lits.append(x)
            if gid is not None:
                gz[gid] = x
        tl = None
        if not (how == "fullmatch" or end is k.AT_END_STRING):
            tl = c.fresh("rt")
            c.assume_z(z3.InRe(tl, tail))
            zs.append(tl)
        c.assume_z(s.z == core.cat(*zs))
        c.decomposed(s.z, core.children(core.cat(*zs)))
        v = (gz, core.cat(*lits) if lits else lit(""), head is None)
        c.memo[key] = v
    gz, whole, anchored = v
    for gid in unknown:
        groups[gid - 1] = UNDEF
    for gid, x in gz.items():
        groups[gid - 1] = s.mk(x)
    w = s.mk(whole)
    return SymMatch(pat, w, groups, dict(pat.groupindex), 0, core.slen(w) if anchored else None)


def _literal(r):
    from . import core
    return core.lit_value(r.arg(0)) if r.decl().kind() == z3.Z3_OP_SEQ_TO_RE and core.is_lit(r.arg(0)) else None


def aligned(c, comps, z):
    """Match a text made of parts against a pattern whose groups cannot contain the character that follows them (the
    split is then unique): the groups are the parts between. -> groups | None (no match) | False (not of this form)"""
    from . import core
    ks = core.kids(z)
    if len(ks) < 2:
        return False
    plan = []
    for gid, r in comps:
        t = _literal(r) if gid is None else None
        if t is not None and plan and plan[-1][0] == "lit":
            plan[-1] = ("lit", plan[-1][1] + t, None)
        elif t is not None:
            plan.append(("lit", t, None))
        else:
            plan.append(("re", r, gid))
    for i, (kind, r, gid) in enumerate(plan):
        if kind == "re" and i + 1 < len(plan):
            if plan[i + 1][0] != "lit":
                return False
            ch = plan[i + 1][1][0]
            A = c.LG.cat(c.LG.FULL, c.LG.lit(ch), c.LG.FULL)
            R = c.LG.from_z3(r)
            if not c.LG.is_empty(c.LG.conj(R, A)):
                return False
    full = z3.Full(RS)
    groups = {}
    rest = list(ks)
    for i, (kind, r, gid) in enumerate(plan):
        if kind == "lit":
            t = r
            while t:
                if not rest:
                    return None
                x = rest[0]
                if core.is_lit(x):
                    v = core.lit_value(x)
                    n = min(len(v), len(t))
                    if v[:n] != t[:n]:
                        return None
                    t = t[n:]
                    rest = ([core.lit(v[n:])] if v[n:] else []) + rest[1:]
                    continue
                d = c.decide(z3.InRe(x, z3.Concat(z3.Re(core.lit(t[0])), full)))
                if d is None:
                    return False
                if d:
                    y = core.tail_of(x, t[0])
                    rest = core.kids(y) + rest[1:]
                    t = t[1:]
                    continue
                d = c.decide(x == core.lit(""))
                if not d:
                    return None if d is False else False
                rest = rest[1:]
            continue
        if i + 1 < len(plan):
            a, b = core.first_of(core.cat(*rest), plan[i + 1][1][0])
        else:
            a, b = core.cat(*rest), core.lit("")
        d = c.decide(z3.InRe(a, r))
        if not d:
            return None if d is False else False
        if gid is not None:
            groups[gid] = a
        rest = [] if core.is_lit(b) and core.lit_value(b) == "" else core.kids(b)
    for x in rest:
        if core.is_lit(x):
            if core.lit_value(x):
                return None
        else:
            d = c.decide(x == core.lit(""))
            if not d:
                return None if d is False else False
    return groups


def walk(items):
    for op, av in items:
        yield op, av
        if op in (k.MAX_REPEAT, k.MIN_REPEAT):
            yield from walk(av[2])
        elif op is k.SUBPATTERN:
            yield from walk(av[3])
        elif op is k.BRANCH:
            for b in av[1]:
                yield from walk(b)


# --------------------------------------------------------------------------- patterns made from symbolic texts
class PartMatch:
    """a match inside one literal part of a symbolic text"""

    def __init__(self, m, off):
        self.m, self.off = m, off

    def _at(self, k):
        from . import core
        return core.mkint(core.simp(self.off + k))

    def start(self, *a):
        return self._at(self.m.start(*a))

    def end(self, *a):
        return self._at(self.m.end(*a))

    def span(self, *a):
        return self.start(*a), self.end(*a)

    def group(self, *a):
        return self.m.group(*a)

    __getitem__ = lambda self, x: self.m[x]

    def groups(self, *a):
        return self.m.groups(*a)

    def groupdict(self, *a):
        return self.m.groupdict(*a)


def sym_finditer(pat, s):
    """finditer of a pattern that begins and ends with fixed characters, on a text whose unknown parts contain neither: every match
    lies inside a literal part"""
    from . import core
    c = core.C
    tree = list(sp.parse(pat.pattern, pat.flags & ~32))
    if not (len(tree) >= 2 and tree[0][0] is k.LITERAL and tree[-1][0] is k.LITERAL) or pat.flags & 2:
        raise Unsupported("finditer on symbolic text")
    a, b = chr(tree[0][1]), chr(tree[-1][1])
    free = core.no_chars_re(a + b)
    off = z3.IntVal(0)
    out = []
    kids = core.children(s.z)
    for n, kid in enumerate(kids):
        if core.is_lit(kid):
            text = core.lit_value(kid)
            last = 0
            for m in pat.finditer(text):
                if a in text[last:m.start()]:
                    raise Unsupported("finditer across symbolic text")
                last = m.end()
                out.append(PartMatch(m, off))
            if a in text[last:] and n + 1 < len(kids):
                raise Unsupported("finditer across symbolic text")
            off = off + len(text)
        else:
            if c.decide(z3.InRe(kid, free)) is not True:
                raise Unsupported("finditer on symbolic text")
            off = off + z3.Length(kid)
    return iter(out)


def sym_escape(s):
    from . import core
    import re
    c = core.C
    out = []
    for kid in core.children(s.z):
        if core.is_lit(kid):
            out.append(lit(re.escape(core.lit_value(kid))))
        else:
            r = c.uf("re_escape", re.escape, kid)
            c.assume_z((r == lit("")) == (kid == lit("")))
            c.memo[("escaped", r.get_id())] = kid
            c.keep.append((r, kid))
            out.append(r)
    return core.mktext(core.SStr, core.cat(*out), s.alpha)


class SymPattern:
    """a compiled pattern in which some literal stretches are unknown (escaped) texts"""

    def __init__(self, text, flags):
        from . import core
        import re
        c = core.C
        self.pattern = text
        self.holes = {}
        out = ""
        for kid in core.children(text.z):
            if core.is_lit(kid):
                out += core.lit_value(kid)
                continue
            raw = c.memo.get(("escaped", kid.get_id()))
            if raw is None:
                raise Unsupported("re.compile of a symbolic pattern")
            ch = chr(0xE000 + len(self.holes))
            self.holes[ord(ch)] = raw
            out += ch
        self.real = re.compile(out, flags)
        self.groupindex, self.groups, self.flags = self.real.groupindex, self.real.groups, self.real.flags

    def match(self, s):
        return self.run("match", s)

    def fullmatch(self, s):
        return self.run("fullmatch", s)

    def run(self, how, s):
        from . import core
        from .seq import UNDEF
        c = core.C
        s = core.lift(s)
        items = list(sp.parse(self.real.pattern, self.flags & ~32))
        if items and items[0][0] is k.AT and items[0][1] in (k.AT_BEGINNING, k.AT_BEGINNING_STRING):
            items = items[1:]
        if items and items[-1][0] is k.AT and items[-1][1] is k.AT_END_STRING:
            items = items[:-1]
        elif how != "fullmatch":
            raise Unsupported("unanchored pattern with symbolic literals")
        t = T(self.flags)
        pre, mid, post = [], [], []
        groups = [None] * self.groups
        gids = []
        for n, (op, av) in enumerate(items):
            if op is k.LITERAL:
                z = self.holes.get(av)
                (post if mid else pre).append(lit(chr(av)) if z is None else z)
            else:
                if mid:
                    raise Unsupported("several parameters between symbolic literals")
                if any(o is k.LITERAL and a in self.holes for o, a in walk([(op, av)])):
                    raise Unsupported("symbolic literal inside a group")
                mid.append(t.one(op, av))
                if op is k.SUBPATTERN and av[0] is not None:
                    gids.append(av[0])
                for o, a in walk(list(av[3]) if op is k.SUBPATTERN else [(op, av)]):
                    if o is k.SUBPATTERN and a[0] is not None:
                        groups[a[0] - 1] = UNDEF
        p, q = core.cat(*pre) if pre else lit(""), core.cat(*post) if post else lit("")
        if not mid:
            if not c.branch(s.z == p):
                return None
            return SymMatch(self, s, groups, dict(self.groupindex), 0, core.slen(s))
        text, x, y = s, core.mktext(core.SStr, p, ANY), core.mktext(core.SStr, q, ANY)
        if not (bool(c.all([core.slen(s) >= core.slen(x) + core.slen(y), s.startswith(x), s.endswith(y)]))):
            return None
        g = text[core.slen(x):core.slen(text) - core.slen(y)]
        if not c.branch(z3.InRe(core.zt(g), mid[0])):
            return None
        for gid in gids:
            groups[gid - 1] = g
        return SymMatch(self, s, groups, dict(self.groupindex), 0, core.slen(s))


def _digit_uniform(tree):
    """does the pattern treat all digits alike, and runs of them whatever their length?"""
    for op, av in tree:
        if op is k.SUBPATTERN:
            if not _digit_uniform(av[3]):
                return False
        elif op in (k.MAX_REPEAT, k.MIN_REPEAT):
            lo, hi, sub = av
            digits = [x for x in sub if x[0] is k.IN]
            if len(sub) != 1 or op is not k.MAX_REPEAT or lo > 1 or hi is not k.MAXREPEAT or len(digits) != 1 or sub[0][1] != [(k.CATEGORY, k.CATEGORY_DIGIT)]:
                return False
        elif op is k.LITERAL:
            if chr(av).isdigit():
                return False
        else:
            return False
    return True


def sym_findall(pat, s):
    """pattern.findall on a text made of literals and numbers, for patterns that take runs of digits whole"""
    from . import core
    c = core.C
    tree = sp.parse(pat.pattern, pat.flags)
    if not _digit_uniform(tree):
        raise Unsupported("findall with such a pattern on symbolic text")
    digits = z3.Plus(z3.Range("0", "9"))
    text, atoms = "", {}
    for x in core.kids(s.z):
        if core.is_lit(x):
            v = core.lit_value(x)
        elif c.decide(z3.InRe(x, digits)) is True:
            v = "9090%03d0909" % len(atoms)
            atoms[v] = x
        else:
            raise Unsupported("findall on such a text")
        if text[-1:].isdigit() and v[:1].isdigit():
            raise Unsupported("findall on adjacent numbers")
        text += v
    def back(t):
        return t if t not in atoms else core.mktext(core.SStr, atoms[t], core.ASCII)
    for v in atoms:
        if text.count(v) != 1:
            raise Unsupported("findall")
    return [tuple(back(x) for x in m) if isinstance(m, tuple) else back(m) for m in pat.findall(text)]
