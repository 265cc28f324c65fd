"""Regular languages over intervals of code points, decided by derivatives.  Used to settle unary
membership facts (which the SMT string solvers are slow at) exactly."""
from __future__ import annotations

from functools import lru_cache

MAXCH = 0x2FFFF
_tab: dict = {}


def _mk(*t):
    return _tab.setdefault(t, t)


EMPTY = _mk("c", ())
EPS = _mk("eps")
ANYC = _mk("c", ((0, MAXCH),))


def norm(iv):
    iv = sorted(iv)
    out = []
    for a, b in iv:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def cls(iv):
    return _mk("c", norm(iv))


def chars(s):
    return cls([(ord(c), ord(c)) for c in s])


def inv(iv):
    out = []
    p = 0
    for a, b in iv:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXCH:
        out.append((p, MAXCH))
    return tuple(out)


def star(a):
    if a is EMPTY or a is EPS:
        return EPS
    if a[0] == "star":
        return a
    return _mk("star", a)


FULL = star(ANYC)


def cat(*xs):
    xs = [y for x in xs for y in ((x[1:] if x[0] == "cat" else (x,)))]
    if any(x is EMPTY for x in xs):
        return EMPTY
    xs = [x for x in xs if x is not EPS]
    out = []
    for x in xs:
        if out and out[-1] is x and x[0] == "star":
            continue
        out.append(x)
    if not out:
        return EPS
    if len(out) == 1:
        return out[0]
    return _mk("cat", *out)


def _key(x):
    return id(x)


def alt(*xs):
    s = []
    cs = []
    for x in xs:
        for y in (x[1:] if x[0] == "or" else (x,)):
            if y is EMPTY:
                continue
            if y is FULL:
                return FULL
            if y[0] == "c":
                cs.extend(y[1])
                continue
            if y not in s:
                s.append(y)
    if cs:
        s.append(cls(cs))
    if not s:
        return EMPTY
    if len(s) == 1:
        return s[0]
    s.sort(key=_key)
    return _mk("or", *s)


def conj(*xs):
    s = []
    cs = None
    for x in xs:
        for y in (x[1:] if x[0] == "and" else (x,)):
            if y is EMPTY:
                return EMPTY
            if y is FULL:
                continue
            if y[0] == "c":
                cs = set_and(cs, y[1]) if cs is not None else y[1]
                continue
            if y not in s:
                s.append(y)
    if cs is not None:
        if not cs:
            return EMPTY
        s.append(cls(cs))
    if not s:
        return FULL
    if len(s) == 1:
        return s[0]
    s.sort(key=_key)
    return _mk("and", *s)


def set_and(a, b):
    out = []
    for x, y in a:
        for u, v in b:
            lo, hi = max(x, u), min(y, v)
            if lo <= hi:
                out.append((lo, hi))
    return norm(out)


def neg(a):
    if a[0] == "not":
        return a[1]
    if a is FULL:
        return EMPTY
    if a is EMPTY:
        return FULL
    return _mk("not", a)


def lit(s):
    return cat(*[cls([(ord(c), ord(c))]) for c in s])


@lru_cache(None)
def nullable(a):
    k = a[0]
    if k == "c":
        return False
    if k == "eps" or k == "star":
        return True
    if k == "cat" or k == "and":
        return all(nullable(x) for x in a[1:])
    if k == "or":
        return any(nullable(x) for x in a[1:])
    return not nullable(a[1])


@lru_cache(None)
def bounds(a):
    """start points of the character classes relevant for the first character"""
    k = a[0]
    if k == "c":
        out = {0}
        for x, y in a[1]:
            out.add(x)
            if y < MAXCH:
                out.add(y + 1)
        return frozenset(out)
    if k == "eps":
        return frozenset({0})
    if k == "star" or k == "not":
        return bounds(a[1])
    if k == "cat":
        out = set(bounds(a[1]))
        i = 1
        while i < len(a) - 1 and nullable(a[i]):
            i += 1
            out |= bounds(a[i])
        return frozenset(out)
    out = set()
    for x in a[1:]:
        out |= bounds(x)
    return frozenset(out)


@lru_cache(200000)
def deriv(a, ch):
    k = a[0]
    if k == "c":
        return EPS if any(x <= ch <= y for x, y in a[1]) else EMPTY
    if k == "eps":
        return EMPTY
    if k == "star":
        return cat(deriv(a[1], ch), a)
    if k == "cat":
        h, t = a[1], cat(*a[2:])
        d = cat(deriv(h, ch), t)
        return alt(d, deriv(t, ch)) if nullable(h) else d
    if k == "or":
        return alt(*[deriv(x, ch) for x in a[1:]])
    if k == "and":
        return conj(*[deriv(x, ch) for x in a[1:]])
    return neg(deriv(a[1], ch))


@lru_cache(None)
def rev(a):
    k = a[0]
    if k in ("c", "eps"):
        return a
    if k == "star":
        return star(rev(a[1]))
    if k == "not":
        return neg(rev(a[1]))
    if k == "cat":
        return cat(*[rev(x) for x in reversed(a[1:])])
    return (alt if k == "or" else conj)(*[rev(x) for x in a[1:]])


def lquot(a, w):
    """{x : w x in a}"""
    for ch in w:
        a = deriv(a, min(ord(ch), MAXCH))
    return a


def rquot(a, w):
    """{x : x w in a}"""
    return rev(lquot(rev(a), w[::-1]))


@lru_cache(None)
def tails(a, through, limit=60):
    """union of w\\a over all w in through* (through: a character class), or FULL when too big"""
    seen = [a]
    todo = [a]
    while todo:
        x = todo.pop()
        for b in sorted(bounds(x) | bounds(through)):
            if not any(p <= b <= q for p, q in through[1]):
                continue
            d = deriv(x, b)
            if d is EMPTY or d in seen:
                continue
            seen.append(d)
            todo.append(d)
            if len(seen) > limit:
                return FULL
    return alt(*seen)


def heads(a, through=ANYC):
    """union of a/w over all w in through*"""
    return rev(tails(rev(a), through))


def anyn(k):
    return cat(*([ANYC] * k))


def upto(k):
    return alt(*[anyn(i) for i in range(k + 1)])


class TooBig(Exception):
    pass


_empty_cache: dict = {}


def is_empty(a, limit=3000):
    r = _empty_cache.get(a)
    if r is None:
        r = find(a, limit) is None
        _empty_cache[a] = r
    return r


def find(a, limit=3000):
    """a shortest member or None"""
    if a is EMPTY:
        return None
    seen = {a}
    todo = [(a, "")]
    n = 0
    while todo:
        nxt = []
        for x, w in todo:
            if nullable(x):
                return w
            for b in sorted(bounds(x)):
                d = deriv(x, b)
                if d is EMPTY or d in seen:
                    continue
                seen.add(d)
                n += 1
                if n > limit:
                    raise TooBig()
                nxt.append((d, w + chr(b)))
        todo = nxt
    return None


def member(a, s):
    for ch in s:
        a = deriv(a, min(ord(ch), MAXCH))
        if a is EMPTY:
            return False
    return nullable(a)


# --------------------------------------------------------------------------- from z3
import z3  # noqa: E402

_z3cache: dict = {}
_keep: list = []


def from_z3(r):
    k = r.get_id()
    v = _z3cache.get(k)
    if v is None:
        v = _from(r)
        _z3cache[k] = v
        _keep.append(r)
    return v


def _from(r):
    from .core import is_lit, lit_value
    d = r.decl().kind()
    ch = r.children()
    if d == z3.Z3_OP_SEQ_TO_RE:
        return lit(lit_value(ch[0])) if is_lit(ch[0]) else _bad()
    if d == z3.Z3_OP_RE_RANGE:
        return cls([(ord(lit_value(ch[0])), ord(lit_value(ch[1])))])
    if d == z3.Z3_OP_RE_STAR:
        return star(from_z3(ch[0]))
    if d == z3.Z3_OP_RE_PLUS:
        x = from_z3(ch[0])
        return cat(x, star(x))
    if d == z3.Z3_OP_RE_OPTION:
        return alt(EPS, from_z3(ch[0]))
    if d == z3.Z3_OP_RE_CONCAT:
        return cat(*[from_z3(c) for c in ch])
    if d == z3.Z3_OP_RE_UNION:
        return alt(*[from_z3(c) for c in ch])
    if d == z3.Z3_OP_RE_INTERSECT:
        return conj_c([from_z3(c) for c in ch])
    if d == z3.Z3_OP_RE_COMPLEMENT:
        return neg(from_z3(ch[0]))
    if d == z3.Z3_OP_RE_FULL_SET:
        return FULL
    if d == z3.Z3_OP_RE_EMPTY_SET:
        return EMPTY
    if d == z3.Z3_OP_RE_FULL_CHAR_SET:
        return ANYC
    if d == z3.Z3_OP_RE_LOOP:
        ps = r.decl().params()
        x = from_z3(ch[0])
        lo = ps[0]
        if len(ps) > 1:
            return cat(*([x] * lo + [alt(EPS, x)] * (ps[1] - lo)))
        return cat(*([x] * lo + [star(x)]))
    if d == z3.Z3_OP_RE_DIFF:
        return conj(from_z3(ch[0]), neg(from_z3(ch[1])))
    return _bad()


def conj_c(xs):
    """intersection; single-character complements become classes"""
    if any(x[0] == "c" for x in xs):
        out = []
        for x in xs:
            if x[0] == "not" and x[1][0] == "c":
                x = cls(inv(x[1][1]))
            elif x[0] == "not" and x[1][0] == "or" and all(y[0] == "c" for y in x[1][1:]):
                x = cls(inv(norm([i for y in x[1][1:] for i in y[1]])))
            out.append(x)
        return conj(*out)
    return conj(*xs)


class Unknown(Exception):
    pass


def _bad():
    raise Unknown()


@lru_cache(None)
def to_z3(a):
    from .core import lit as zlit
    k = a[0]
    S = z3.ReSort(z3.StringSort())
    if k == "c":
        xs = [z3.Re(zlit(chr(x))) if x == y else z3.Range(zlit(chr(x)), zlit(chr(y))) for x, y in a[1]]
        if not xs:
            return z3.Empty(S)
        if a[1] == ((0, MAXCH),):
            return z3.AllChar(S)
        return xs[0] if len(xs) == 1 else z3.Union(*xs)
    if k == "eps":
        return z3.Re(zlit(""))
    if k == "star":
        return z3.Full(S) if a[1] is ANYC else z3.Star(to_z3(a[1]))
    xs = [to_z3(x) for x in a[1:]]
    if k == "cat":
        return z3.Concat(*xs)
    if k == "or":
        return z3.Union(*xs)
    if k == "and":
        return z3.Intersect(*xs)
    return z3.Complement(xs[0])


def image(a, up):
    """a language containing the upper (lower) case forms of a's ASCII texts; characters above 127 are kept"""
    t = a[0]
    if t == "c":
        lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
        out = []
        for x, y in a[1]:
            p, q = max(x, lo), min(y, hi)
            if p > q:
                out.append((x, y))
                continue
            out.append((p + d, q + d))
            if x < p:
                out.append((x, p - 1))
            if y > q:
                out.append((q + 1, y))
        return cls(out)
    if t == "eps":
        return a
    if t == "star":
        return star(image(a[1], up))
    if t == "cat":
        return cat(*[image(x, up) for x in a[1:]])
    if t == "or":
        return alt(*[image(x, up) for x in a[1:]])
    if t == "and":
        return conj(*[image(x, up) for x in a[1:]])
    return star(image(ANYC, up))
