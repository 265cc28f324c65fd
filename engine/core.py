"""Core of the deductive verifier: symbolic values, path conditions, obligations.

Values are proxies around z3 terms.  A path is one concrete Python execution of the
(mechanically instrumented) real code; every boolean decision over symbolic data forks.
"""
from __future__ import annotations

import time
import z3

ASCII, LATIN1, ANY = 0, 1, 2


class PathDone(BaseException):
    """The current path is finished (assumption false, loop iteration verified, ...)."""


class Unsupported(BaseException):
    """The engine cannot model this construct: path is undecided (never an alarm)."""


class BudgetExceeded(BaseException):
    pass


# --------------------------------------------------------------------------- strings
def enc(s) -> str:
    if isinstance(s, (bytes, bytearray, memoryview)):
        s = bytes(s).decode("latin-1")
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return "".join(out)


_lit_cache: dict = {}


def lit(s):
    key = (type(s) is str, s)
    v = _lit_cache.get(key)
    if v is None:
        e = enc(s)
        v = z3.SeqRef(z3.Z3_mk_string(z3.main_ctx().ref(), e), z3.main_ctx())
        _lit_cache[key] = v
    return v


def dec(raw: str) -> str:
    out = []
    i = 0
    n = len(raw)
    while i < n:
        c = raw[i]
        if c == "\\" and i + 1 < n and raw[i + 1] == "u":
            if i + 2 < n and raw[i + 2] == "{":
                j = raw.index("}", i)
                out.append(chr(int(raw[i + 3:j], 16)))
                i = j + 1
                continue
            out.append(chr(int(raw[i + 2:i + 6], 16)))
            i += 6
            continue
        out.append(c)
        i += 1
    return "".join(out)


def is_lit(z) -> bool:
    return z3.is_string_value(z)


def lit_value(z) -> str:
    return dec(z.as_string())


_CHR = [lit(chr(i)) for i in range(256)]


def rng(a: str, b: str):
    return z3.Range(lit(a), lit(b))


RE_ASCII = z3.Star(rng("\x00", "\x7f"))
RE_LATIN = z3.Star(rng("\x00", "\xff"))
RE_ANY = z3.Star(z3.Union(rng("\x00", "\ud7ff"), rng("\ue000", "\U0002ffff")))
ALPHA_RE = {ASCII: RE_ASCII, LATIN1: RE_LATIN, ANY: RE_ANY}
RE_DIGITS = z3.Plus(rng("0", "9"))

STR_WS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
BYTES_WS = " \t\n\r\x0b\x0c"


def re_chars(chars: str):
    chars = sorted(set(chars))
    alts = [z3.Re(lit(c)) for c in chars]
    if not alts:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    return alts[0] if len(alts) == 1 else z3.Union(*alts)


# --------------------------------------------------------------------------- context
C = None  # current symbolic context (set by explore)


def set_ctx(c):
    global C
    C = c


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported(f"hash of symbolic {type(self).__name__}")

    def __iter__(self):
        raise Unsupported(f"iteration over symbolic {type(self).__name__}")

    def __reduce__(self):
        raise Unsupported("pickle of symbolic")

    def __format__(self, spec):
        raise Unsupported("native format of symbolic value")

    def __str__(self):
        raise Unsupported("native str() of symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


_SIMP: dict = {}


def simp(z):
    i = z.get_id()
    r = _SIMP.get(i)
    if r is None:
        if len(_SIMP) > 300000:
            _SIMP.clear()
        r = _SIMP[i] = (z, z3.simplify(z))
    return r[1]


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    t = type(x)
    if depth and (t is list or t is tuple or t is set or t is frozenset):
        for e in x:
            if has_sym(e, depth - 1):
                return True
        return False
    if getattr(x, "is_abstract", None) is True and getattr(t, "_verif_seq", False):
        return True
    if depth and isinstance(x, dict):
        if type(x) is not dict:
            if getattr(x, "symbolic_keys", None) and x.symbolic_keys():
                return True
            x = dict(dict.items(x))
        for k, v in x.items():
            if has_sym(v, depth - 1) or has_sym(k, depth - 1):
                return True
    return False


class Opaque(Sym):
    """a value of some library type known only by the text that identifies it"""
    __slots__ = ("kind", "z", "key")

    def __init__(self, kind, z, key):
        self.kind, self.z, self.key = kind, z, key

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Opaque):
            return mkbool(self.z == o.z) if o.kind is self.kind else False
        if type(o) is self.kind:
            return mkbool(self.z == lit(self.key(o)))
        if is_sym(o):
            raise Unsupported(f"comparison of {self.kind.__name__}")
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported(f"truth of {self.kind.__name__}")

    def __repr__(self):
        return f"<{self.kind.__name__} {self.z}>"


def lower_preimage(text):
    """language of the texts whose lower() is this one (None if not determined character by character)"""
    if not PREIMAGE:
        import sys
        for k in range(sys.maxunicode + 1):
            lo = chr(k).lower()
            PREIMAGE.setdefault(lo if len(lo) == 1 else lo[1:], []).append(k if len(lo) == 1 else None)
    parts = []
    for ch in text:
        ks = PREIMAGE.get(ch, [])
        if None in ks or ch in "\u03c3\u03c2":
            return None
        if any(k > 0xffff for k in ks):
            return None
        parts.append(z3.Union(*[z3.Re(lit(chr(k))) for k in ks]) if len(ks) > 1 else z3.Re(lit(chr(ks[0]))) if ks else z3.Empty(z3.ReSort(z3.StringSort())))
    return z3.Concat(*parts) if len(parts) > 1 else parts[0] if parts else z3.Re(lit(""))


PREIMAGE = {}


# --------------------------------------------------------------------------- booleans
class SBool(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return C.branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.z == zb(o))
        if isinstance(o, int):
            return mkbool(toint(self) == o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.z)) if isinstance(r, SBool) else (not r)

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __repr__(self):
        return f"SBool({self.z})"

    def __int__(self):
        raise Unsupported("native int of SBool")

    def __index__(self):
        raise Unsupported("index of SBool")


def zb(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


_RAW = None


def _raw_kind(z):
    if z3.is_not(z):
        z = z.arg(0)
    if not z3.is_app(z):
        return False
    k = z.decl().kind()
    if k == z3.Z3_OP_SEQ_IN_RE:
        return True
    if k in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
        return is_lit(z.arg(0)) and not is_lit(z.arg(1))
    if k == z3.Z3_OP_SEQ_CONTAINS:
        return is_lit(z.arg(1)) and not is_lit(z.arg(0))
    return False


def mkbool(z):
    if _raw_kind(z):
        if C is not None:
            r = C.decide(z)
            if r is not None:
                return r
        return SBool(z)
    z = simp(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


def toint(b):
    return mkint(z3.If(zb(b), z3.IntVal(1), z3.IntVal(0)))


# --------------------------------------------------------------------------- integers
class Quotient:
    """x / n as a float, of which only the whole part is used (exact for |x| below 2**53, which is assumed)"""

    def __init__(self, x, n):
        self.x, self.n = x, n

    def whole(self):
        C.note("int(x / n) of floats is exact (|x| < 2**53)")
        return self.x // self.n if bool(self.x >= 0) else -((-self.x) // self.n)


class SInt(Sym):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def _co(self, o):
        if isinstance(o, SInt):
            return o.z
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SBool):
            return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
        if isinstance(o, float):
            if o == int(o) if abs(o) < 1e300 else False:
                return z3.IntVal(int(o))
            raise Unsupported("float arithmetic")
        return None

    def _bin(self, o, f):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return mkint(f(self.z, c))

    def _cmp(self, o, f):
        c = self._co(o)
        if c is None:
            return NotImplemented
        return mkbool(f(self.z, c))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list)):
            raise Unsupported("sequence repetition by symbolic int")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.z)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z / z3.IntVal(o))
        raise Unsupported("floordiv")

    def __truediv__(self, o):
        if isinstance(o, int) and o > 0:
            return Quotient(self, o)
        raise Unsupported("division")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.z % z3.IntVal(o))
        raise Unsupported("mod")

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        c = self._co(o)
        return False if c is None else mkbool(self.z == c)

    def __ne__(self, o):
        c = self._co(o)
        return True if c is None else mkbool(self.z != c)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return C.branch(self.z != 0)

    def __index__(self):
        raise Unsupported("symbolic int used as a native index")

    def __int__(self):
        raise Unsupported("native int() of symbolic int")

    def __float__(self):
        raise Unsupported("native float() of symbolic int")

    def __repr__(self):
        return f"SInt({self.z})"


def mkint(z):
    z = simp(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


def zi(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {type(x)}")


def getbool(x) -> bool:
    return bool(x)


# --------------------------------------------------------------------------- text
def _negative(p):
    """p is minus a sum of lengths and a positive number"""
    q = z3.simplify(-p)
    pos = False
    for t in (q.children() if z3.is_add(q) else [q]):
        if z3.is_int_value(t):
            if t.as_long() < 0:
                return False
            pos = pos or t.as_long() > 0
            continue
        if z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() > 0:
            t = t.arg(1)
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_LENGTH):
            return False
    return pos


class SText(Sym):
    """Common part of symbolic str and bytes, over the z3 sequence theory."""
    __slots__ = ("z", "alpha")
    py: type = str

    def __init__(self, z, alpha):
        self.z = z
        self.alpha = alpha

    # -- coercion
    @classmethod
    def co(cls, o):
        if isinstance(o, cls.base):
            return o
        if isinstance(o, cls.natives):
            return cls.base(lit(o), text_alpha(o))
        return None

    def need(self, o):
        r = self.co(o)
        if r is None:
            raise TypeError(f"expected {self.py.__name__}, got {tname(o)}")
        return r

    def mk(self, z, alpha=None):
        return mktext(self.base, z, self.alpha if alpha is None else alpha)

    # -- comparison
    def __eq__(self, o):
        o2 = self.co(o)
        if o2 is None:
            return False if not isinstance(o, SText) else False
        for a, b in ((self, o2), (o2, self)):
            if is_lit(b.z) and a.py is str and (a.alpha > LATIN1 or getattr(C, "exact_lower", False)) and z3.is_app(a.z) and a.z.decl().name() == "uf_lower":
                r = lower_preimage(lit_value(b.z))
                if r is not None:
                    return mkbool(z3.InRe(a.z.arg(0), r))
        return mkbool(self.z == o2.z)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.z)) if isinstance(r, SBool) else (not r)

    __hash__ = Sym.__hash__

    def __lt__(self, o): return mkbool(self.z < self.need(o).z)
    def __le__(self, o): return mkbool(self.z <= self.need(o).z)
    def __gt__(self, o): return mkbool(self.need(o).z < self.z)
    def __ge__(self, o): return mkbool(self.need(o).z <= self.z)

    def __bool__(self):
        return C.branch(self.z != lit(""))

    def __len__(self):
        raise Unsupported("native len() of symbolic text")

    def slen(self):
        return mkint(z3.Length(self.z))

    # -- concatenation
    def __add__(self, o):
        o2 = self.co(o)
        if o2 is None:
            if isinstance(o, Sym) or not hasattr(o, "__radd__"):
                raise TypeError(f"can only concatenate {self.py.__name__}, not {tname(o)}")
            return NotImplemented
        return self.mk(cat(self.z, o2.z), max(self.alpha, o2.alpha))

    def __radd__(self, o):
        o2 = self.co(o)
        if o2 is None:
            raise TypeError(f"can only concatenate {self.py.__name__}, not {tname(o)}")
        return self.mk(cat(o2.z, self.z), max(self.alpha, o2.alpha))

    def __mul__(self, o):
        raise Unsupported("text repetition")

    # -- membership
    def contains(self, o):
        if self.py is bytes and isinstance(o, (int, SInt)):
            raise Unsupported("int in bytes")
        return mkbool(z3.Contains(self.z, self.need(o).z))

    def __contains__(self, o):
        return bool(self.contains(o))

    def _fix(self, x, pos, f):
        if pos:
            raise Unsupported("startswith/endswith with position")
        if isinstance(x, tuple):
            zs = [f(self.need(e).z, self.z) for e in x]
            return mkbool(z3.Or(*zs)) if zs else False
        return mkbool(f(self.need(x).z, self.z))

    def startswith(self, x, *pos):
        return self._fix(x, pos, z3.PrefixOf)

    def endswith(self, x, *pos):
        return self._fix(x, pos, z3.SuffixOf)

    def removeprefix(self, x):
        if bool(self.startswith(x)):
            return self[slen(x):]
        return self

    def removesuffix(self, x):
        if bool(self.endswith(x)):
            return self[:self.slen() - slen(x)] if bool(slen(x) != 0) else self
        return self

    # -- slicing
    def __getitem__(self, k):
        L = z3.Length(self.z)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice step")
            a = 0 if k.start is None else k.start
            r = self._cut(a, k.stop)
            if r is not None:
                return r
            za = self._pos(a, L)
            if k.stop is None:
                return self.mk(z3.SubString(self.z, za, L - za))
            zbd = self._pos(k.stop, L)
            if z3.is_int_value(simp(za)) and simp(za).as_long() == 0:
                return self.mk(z3.SubString(self.z, z3.IntVal(0), zbd))
            return self.mk(z3.SubString(self.z, za, zbd - za))
        i = k
        if isinstance(i, (int, SInt)) and bool(i < 0):
            i = self.slen() + i
        if bool(i >= 0) and bool(i < self.slen()):
            ch = z3.SubString(self.z, zi(i), z3.IntVal(1))
            if self.py is bytes:
                return mkint(z3.StrToCode(ch))
            return self.mk(ch)
        raise IndexError("string index out of range")

    def _cut(self, a, b):
        """slice at positions that are sums of lengths of leading parts, without arithmetic on positions"""
        top, subst = children(self.z), []
        zs = [top]
        ks = kids(self.z, subst)
        if len(ks) != len(top):
            zs.append(ks)
        for kz in zs:
            lens = [z3.IntVal(len(lit_value(k))) if is_lit(k) else z3.Length(k) for k in kz]
            total = z3.Sum(lens) if lens else z3.IntVal(0)

            def place(p):
                if p is None:
                    return len(kz), 0
                p = zi(p)
                if kz is ks and subst:
                    p = z3.simplify(p)
                    for t in subst:
                        p = z3.substitute(p, t)
                for t in (p, total + p):
                    if t is not p and not _negative(p) and C.decide(simp(p < 0)) is not True:
                        return None
                    acc = z3.IntVal(0)
                    for i in range(len(kz) + 1):
                        left = simp(t - acc)
                        if z3.is_int_value(left):
                            n = left.as_long()
                            if n == 0:
                                return i, 0
                            if i < len(kz) and is_lit(kz[i]) and 0 < n < len(lit_value(kz[i])):
                                return i, n
                        if i < len(kz):
                            acc = acc + lens[i]
                return None
            x, y = place(a), place(b)
            if x is None or y is None:
                continue
            if x > y:
                return self.mk(lit(""))
            out = []
            for i in range(x[0], min(y[0] + 1, len(kz))):
                k = kz[i]
                lo = x[1] if i == x[0] else 0
                if i == y[0]:
                    if y[1] == 0:
                        break
                    out.append(lit(lit_value(k)[lo:y[1]]))
                elif lo:
                    out.append(lit(lit_value(k)[lo:]))
                else:
                    out.append(k)
            return self.mk(cat(*out) if out else lit(""))
        return None

    def _pos(self, a, L):
        if bool(a < 0):
            z = L + zi(a)
            return z3.If(z < 0, z3.IntVal(0), z)
        return zi(a)

    # -- searching
    def find(self, sub, start=0, *end):
        if end:
            raise Unsupported("find with end")
        return mkint(z3.IndexOf(self.z, self.need(sub).z, zi(start)))

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if bool(r < 0):
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, *a):
        if a:
            raise Unsupported("rfind with range")
        sub = self.need(sub)
        if not bool(self.contains(self.mkraw(sub))):
            return -1
        pre, _, _ = self.rpartition(self.mkraw(sub))
        return slen(pre)

    def mkraw(self, o):
        return mktext(self.base, o.z, o.alpha)

    def count(self, sub):
        sub = self.need(sub)
        n = C.ufint("count_" + self.py.__name__, lambda a, b: a.count(b), self.z, sub.z)
        C.assume_z(n >= 0)
        C.assume_z((n > 0) == z3.Contains(self.z, sub.z))
        return mkint(n)

    # -- splitting
    def partition(self, sep):
        s = self.need(sep)
        if bool(self.contains(self.mkraw(s))):
            i = z3.IndexOf(self.z, s.z, z3.IntVal(0))
            a = self._named("part0", z3.SubString(self.z, z3.IntVal(0), i), s)
            b = self._named("part1", z3.SubString(self.z, i + z3.Length(s.z), z3.Length(self.z) - i - z3.Length(s.z)), s)
            C.assume_z(self.z == cat(a, s.z, b))
            if is_lit(s.z) and len(lit_value(s.z)) == 1:
                C.assume_z(z3.Not(z3.Contains(a, s.z)))
            return (self.mk(a), self.mkraw(s), self.mk(b))
        return (self.mkraw(self), self.mk(lit("")), self.mk(lit("")))

    def _named(self, tag, z, s):
        """fresh constant equal to a compound term (keeps the solver's terms small)"""
        z = simp(z)
        if is_lit(z) or z3.is_const(z):
            return z
        key = ("named", tag, self.z.get_id(), s.z.get_id())
        v = C.memo.get(key)
        if v is None:
            v = C.fresh(tag)
            C.memo[key] = v
            C.keep.append((self.z, s.z))
            C.assume_z(v == z)
        return v

    def rpartition(self, sep):
        s = self.need(sep)
        if bool(self.contains(self.mkraw(s))):
            key = ("rpart", self.z.get_id(), s.z.get_id())
            v = C.memo.get(key)
            if v is None:
                a = C.fresh("rp0")
                b = C.fresh("rp1")
                C.memo[key] = v = (a, b)
                C.keep.append((self.z, s.z))
                C.assume_z(self.z == cat(a, s.z, b))
                if is_lit(s.z) and len(lit_value(s.z)) == 1:
                    C.assume_z(z3.Not(z3.Contains(b, s.z)))
                else:
                    # last occurrence: the separator occurs in (s[1:] + b) nowhere
                    C.assume_z(z3.Not(z3.Contains(cat(z3.SubString(s.z, z3.IntVal(1), z3.Length(s.z) - 1), b), s.z)))
            a, b = v
            return (self.mk(a), self.mkraw(s), self.mk(b))
        return (self.mk(lit("")), self.mk(lit("")), self.mkraw(self))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("whitespace split")
        if maxsplit == 0:
            return [self]
        if isinstance(maxsplit, int) and 0 < maxsplit <= 4:
            out = []
            cur = self
            for _ in range(maxsplit):
                if not isinstance(cur, SText):
                    rest = cur.split(sep if not is_sym(sep) else sep, maxsplit - len(out))
                    return out + rest
                a, s, b = cur.partition(sep)
                if not isinstance(s, SText) and not s:
                    out.append(a)
                    return out
                out.append(a)
                cur = b
            out.append(cur)
            return out
        from .seq import SplitSeq
        return SplitSeq.make(self, self.need(sep))

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            if sep is not None and maxsplit == -1:
                return self.split(sep)
            raise Unsupported("rsplit")
        a, s, b = self.rpartition(sep)
        if not isinstance(s, SText) and not s:
            return [b]
        return [a, b]

    # -- stripping
    def _strip(self, chars, left, right):
        if chars is None:
            cs = STR_WS if self.py is str else BYTES_WS
            if self.py is str and self.alpha == ASCII:
                cs = "".join(c for c in cs if ord(c) < 128)
            elif self.py is str and self.alpha == LATIN1:
                cs = "".join(c for c in cs if ord(c) < 256)
        else:
            if is_sym(chars):
                raise Unsupported("strip with symbolic chars")
            cs = chars if isinstance(chars, str) else chars.decode("latin-1")
        cs = "".join(sorted(set(cs)))
        z = peel(self.z, cs, left, right)
        if z is not None:
            return self.mk(z)
        key = ("strip", self.z.get_id(), cs, left, right)
        v = C.memo.get(key)
        if v is None:
            C.keep.append(self.z)
            one = re_chars(cs)
            st = z3.Star(one)
            mode = ("l" if left else "") + ("r" if right else "")
            fn = {"lr": lambda s: s.strip(cs), "l": lambda s: s.lstrip(cs), "r": lambda s: s.rstrip(cs)}[mode]
            r = C.uf(f"strip_{mode}_{enc(cs)}", fn, self.z)
            C.memo[("stripped", r.get_id())] = (self, chars, left, right)
            C.keep.append(r)
            parts = []
            full = z3.Full(z3.ReSort(z3.StringSort()))
            if left:
                a = C.fresh("ls")
                C.assume_z(z3.InRe(a, st))
                parts.append(a)
                C.assume_z(z3.Not(z3.InRe(r, z3.Concat(one, full))))
            parts.append(r)
            if right:
                b = C.fresh("rs")
                C.assume_z(z3.InRe(b, st))
                parts.append(b)
                C.assume_z(z3.Not(z3.InRe(r, z3.Concat(full, one))))
            C.assume_z(self.z == cat(*parts))
            K = C.lang_of(self.z)
            try:
                if left:
                    K = C.LG.tails(K, C.LG.chars(cs))
                if right:
                    K = C.LG.heads(K, C.LG.chars(cs))
                C.learn(r, K)
            except C.LG.TooBig:
                pass
            C.memo[key] = v = r
        return self.mk(v)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    # -- case
    def _case(self, name, fn, distribute):
        z = self.z
        if z3.is_app(z) and z.decl().name() == f"uf_{name}":
            return self
        if name == "lower" and self.alpha <= LATIN1 and ("stripped", z.get_id()) in C.memo:
            o, chars, left, right = C.memo[("stripped", z.get_id())]
            if chars is None:                          # white space has no case: the two operations commute
                return o._case(name, fn, distribute)._strip(None, left, right)
        if distribute and z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            parts = [mktext(self.base, c, self.alpha) for c in z.children()]
            out = None
            for p in parts:
                q = p._case(name, fn, distribute) if isinstance(p, SText) else getattr(p, name)()
                out = q if out is None else out + q
            return out
        if self.alpha <= LATIN1 and name in ("lower", "upper") and C.decide(z3.InRe(z, no_cased_re(name))) is True:
            return self
        r = C.uf(name, fn, z)
        if self.alpha <= LATIN1 and name == "lower":
            C.assume_z(z3.Length(r) == z3.Length(z))
        C.assume_z((r == lit("")) == (z == lit("")))
        if name in ("lower", "upper") and (self.alpha == ASCII or self.py is bytes):
            C.learn(r, C.LG.image(C.lang_of(z), name == "upper"))
        return self.mk(r, self.alpha if (name == "lower" and self.alpha < ANY) or self.alpha == ASCII else ANY)

    def lower(self):
        return self._case("lower", lambda s: s.lower(), self.alpha <= LATIN1)

    def upper(self):
        return self._case("upper", lambda s: s.upper(), True)

    def title(self):
        return self._case("title", lambda s: s.title(), False)

    def capitalize(self):
        return self._case("capitalize", lambda s: s.capitalize(), False)

    # -- other
    def replace(self, a, b, count=-1):
        if count != -1:
            raise Unsupported("replace count")
        a, b = self.need(a), self.need(b)
        z = self.z
        if is_lit(a.z) and len(lit_value(a.z)) == 1 and z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            out = None                                     # one character: the parts are replaced on their own
            for p in z.children():
                q = mktext(self.base, p, self.alpha)
                q = q.replace(mktext(self.base, a.z, a.alpha), mktext(self.base, b.z, b.alpha)) if not isinstance(q, SText) else q.replace(a, b)
                out = q if out is None else out + q
            return out if isinstance(out, SText) else self.mkraw(self.need(out))
        if is_lit(a.z) and len(lit_value(a.z)) >= 1:
            # no occurrence: identity (decided by a fork, exact)
            if not bool(self.contains(self.mkraw(a))):
                return self.mkraw(self)
            r = C.uf("replace", lambda s, x, y: s.replace(x, y), z, a.z, b.z)
            if is_lit(b.z) and lit_value(a.z) not in lit_value(b.z) and len(lit_value(a.z)) == 1:
                C.assume_z(z3.Not(z3.Contains(r, a.z)))
            return self.mk(r, max(self.alpha, b.alpha))
        return self.mk(C.uf("replace", lambda s, x, y: s.replace(x, y), z, a.z, b.z), max(self.alpha, b.alpha))

    def join(self, items):
        from .seq import VList, join_seq
        if isinstance(items, VList):
            return join_seq(self, items)
        out = None
        for i, e in enumerate(items):
            e2 = self.co(e)
            if e2 is None:
                raise TypeError(f"sequence item {i}: expected {self.py.__name__} instance, {tname(e)} found")
            out = self.mkraw(e2) if out is None else out + self.mkraw(self) + self.mkraw(e2)
        return self.mk(lit("")) if out is None else out

    def isdigit(self):
        if self.alpha <= ASCII or self.py is bytes:
            return mkbool(z3.InRe(self.z, RE_DIGITS))
        return mkbool(C.ufbool("isdigit", lambda s: s.isdigit(), self.z))

    def isalnum(self):
        return mkbool(C.ufbool("isalnum", lambda s: s.isalnum(), self.z))

    def isspace(self):
        return mkbool(C.ufbool("isspace", lambda s: s.isspace(), self.z))

    def isascii(self):
        return mkbool(z3.InRe(self.z, RE_ASCII)) if self.alpha else True

    def splitlines(self, *a):
        raise Unsupported("splitlines")

    def __repr__(self):
        return f"{type(self).__name__}({self.z})"


def cat(*zs):
    zs = [z for z in zs if not (is_lit(z) and lit_value(z) == "")]
    if not zs:
        return lit("")
    if len(zs) == 1:
        return zs[0]
    return simp(z3.Concat(*zs))


class SStr(SText):
    __slots__ = ()
    py = str
    natives = (str,)
    _real = str

    def encode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-") if isinstance(encoding, str) else None
        if e is None:
            raise Unsupported("symbolic encoding")
        if errors != "strict":
            raise Unsupported("encode errors mode")
        if e in ("latin-1", "iso-8859-1", "latin1", "l1"):
            if self.alpha > LATIN1 and not C.branch(z3.InRe(self.z, RE_LATIN)):
                raise UnicodeEncodeError("latin-1", "\u0100", 0, 1, "ordinal not in range(256)")
            return mktext(SBytes, self.z, min(self.alpha, LATIN1))
        if e in ("ascii", "us-ascii"):
            if self.alpha > ASCII and not C.branch(z3.InRe(self.z, RE_ASCII)):
                raise UnicodeEncodeError("ascii", "\u0100", 0, 1, "ordinal not in range(128)")
            return mktext(SBytes, self.z, ASCII)
        if e in ("utf-8", "utf8"):
            return utf8_encode(self)
        import codecs
        codecs.lookup(encoding)
        r = C.uf("enc_" + e, lambda s: s.encode(e).decode("latin-1"), self.z)
        return mktext(SBytes, r, LATIN1)

    def rawz(self):
        return self.z


class SBytes(SText):
    __slots__ = ()
    py = bytes
    natives = (bytes, bytearray, memoryview)

    def decode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-") if isinstance(encoding, str) else None
        if e is None:
            raise Unsupported("symbolic encoding")
        if e in ("latin-1", "iso-8859-1", "latin1", "l1"):
            return mktext(SStr, self.z, self.alpha)
        if e in ("ascii", "us-ascii"):
            if self.alpha > ASCII and not C.branch(z3.InRe(self.z, RE_ASCII)):
                raise UnicodeDecodeError("ascii", b"\xff", 0, 1, "ordinal not in range(128)")
            return mktext(SStr, self.z, ASCII)
        if e in ("utf-8", "utf8"):
            return utf8_decode(self, errors)
        import codecs
        codecs.lookup(encoding)
        raise Unsupported("decode " + e)

    def hex(self):
        return SStr(C.uf("hex", lambda s: s.encode("latin-1").hex(), self.z), ASCII)

    def tobytes(self):
        return self


def utf8_encode(s):
    if s.alpha == ASCII:
        return mktext(SBytes, s.z, ASCII)
    z = s.z
    if z3.is_app(z) and z.decl().name() == "uf_utf8dec":
        return mktext(SBytes, z.arg(0), LATIN1)
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = None
        for c in z.children():
            p = mktext(SStr, c, s.alpha)
            q = p.encode("utf-8")
            out = q if out is None else out + q
        return out
    r = C.uf("utf8enc", lambda x: x.encode("utf-8", "surrogatepass").decode("latin-1"), z)
    d = C.uf_decl("utf8dec", lambda x: x.encode("latin-1").decode("utf-8", "replace"), 1)
    C.assume_z(d(r) == z)
    C.assume_z(C.ufbool("utf8ok", _utf8ok, r))
    C.assume_z((r == lit("")) == (z == lit("")))
    C.assume_z(z3.Length(r) >= z3.Length(z))
    return mktext(SBytes, r, LATIN1)


def _utf8ok(x):
    try:
        x.encode("latin-1").decode("utf-8")
        return True
    except UnicodeError:
        return False


def utf8_decode(b, errors="strict"):
    z = b.z
    if b.alpha == ASCII:
        return mktext(SStr, z, ASCII)
    if z3.is_app(z) and z.decl().name() == "uf_utf8enc":
        return mktext(SStr, z.arg(0), ANY)
    if errors == "strict":
        if not C.branch(C.ufbool("utf8ok", _utf8ok, z)):
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        r = C.uf("utf8dec", lambda x: x.encode("latin-1").decode("utf-8", "replace"), z)
        e = C.uf_decl("utf8enc", lambda x: x.encode("utf-8", "surrogatepass").decode("latin-1"), 1)
        C.assume_z(e(r) == z)
        C.assume_z((r == lit("")) == (z == lit("")))
        C.assume_z(z3.Length(r) <= z3.Length(z))
        return mktext(SStr, r, ANY)
    r = C.uf("utf8dec_" + errors, lambda x: x.encode("latin-1").decode("utf-8", errors), z)
    return mktext(SStr, r, ANY)


def mktext(cls, z, alpha):
    z = simp(z)
    if is_lit(z):
        v = lit_value(z)
        if cls is SBytes:
            return v.encode("latin-1")
        return v
    return cls(z, alpha)


def text_alpha(s):
    if isinstance(s, (bytes, bytearray, memoryview)):
        return ASCII if all(c < 128 for c in bytes(s)) else LATIN1
    if s.isascii():
        return ASCII
    return LATIN1 if all(ord(c) < 256 for c in s) else ANY


def slen(x):
    if isinstance(x, SText):
        return x.slen()
    return x.__len__()


def tname(o):
    if isinstance(o, SText):
        return o.py.__name__
    if isinstance(o, SInt):
        return "int"
    return type(o).__name__


def lift(x):
    if isinstance(x, str):
        return SStr(lit(x), text_alpha(x))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return SBytes(lit(x), text_alpha(x))
    return x


def zt(x):
    if isinstance(x, SText):
        return x.z
    if isinstance(x, (str, bytes, bytearray, memoryview)):
        return lit(x)
    raise Unsupported(f"not text: {type(x)}")


# int <-> str
def int_to_str(x: SInt):
    if C.branch(x.z >= 0):
        r = simp(z3.IntToStr(x.z))
        C.assume_z(z3.InRe(r, RE_DIGITS))
        return mktext(SStr, r, ASCII)
    n = simp(z3.IntToStr(-x.z))
    C.assume_z(z3.InRe(n, RE_DIGITS))
    r = cat(lit("-"), n)
    return mktext(SStr, r, ASCII)


def _pyint(s):
    try:
        return int(s)
    except ValueError:
        return 0


def _pyint_ok(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def str_to_int(s: SText):
    if z3.is_app(s.z) and s.z.decl().kind() == z3.Z3_OP_INT_TO_STR:
        return mkint(s.z.arg(0))
    if C.branch(z3.InRe(s.z, RE_DIGITS)):
        C.bound_note("decimal texts longer than 4300 digits (CPython int limit) are not modelled")
        r = z3.StrToInt(s.z)
        C.assume_z(r >= 0)
        return mkint(r)
    if s.py is str and s.alpha == ASCII:
        from .regex import pattern_to_re
        if C.branch(z3.InRe(s.z, pattern_to_re("-[0-9]+")[0])):
            r = z3.StrToInt(z3.SubString(s.z, 1, z3.Length(s.z) - 1))
            C.assume_z(r >= 0)
            return mkint(-r)
        ok = z3.InRe(s.z, pattern_to_re("[\t-\r\x1c- ]*[+-]?[0-9]+(_[0-9]+)*[\t-\r\x1c- ]*")[0])
    else:
        ok = C.ufbool("int_ok", _pyint_ok, s.z)
    if not C.branch(ok):
        raise ValueError("invalid literal for int() with base 10")
    C.assume_z(s.z != lit(""))
    return mkint(C.ufint("int_val", _pyint, s.z))


# --------------------------------------------------------------------------- structural splitting
def peel(z, cs, left, right):
    """strip() of a concatenation whose ends are literals or texts known not to start/end with the stripped characters"""
    ks = list(kids(z))
    full = z3.Full(z3.ReSort(z3.StringSort()))
    one = re_chars(cs)

    def end(first):
        """True when this end is settled, None when unknown"""
        while ks:
            k = ks[0 if first else -1]
            if is_lit(k):
                s = lit_value(k)
                t = s.lstrip(cs) if first else s.rstrip(cs)
                if t == "":
                    ks.pop(0 if first else -1)
                    continue
                ks[0 if first else -1] = lit(t)
                return True
            if len(ks) > 1 and C.decide(k == lit("")) is not False:
                return None
            r = z3.Concat(one, full) if first else z3.Concat(full, one)
            return True if C.decide(z3.InRe(k, r)) is False else None
        return True
    if left and not end(True):
        return None
    if right and not end(False):
        return None
    return cat(*ks)


def children(z):
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in z.children():
            out.extend(children(c))
        return out
    return [z]


SStr.base, SBytes.base = SStr, SBytes


def kids(z, subst=None):
    """children, with those texts expanded that are known to be made of parts (from a regular-expression match)"""
    out = []
    for k in children(z):
        d = None if is_lit(k) else C.memo.get(("parts", k.get_id()))
        if d is None:
            out.append(k)
        else:
            if subst is not None:
                lens = [z3.IntVal(len(lit_value(x))) if is_lit(x) else z3.Length(x) for x in d]
                subst.append((z3.Length(k), z3.Sum(lens) if lens else z3.IntVal(0)))
            for x in d:
                out.extend(kids(x, subst))
    return out


_cased = {}


def no_cased_re(name):
    """strings of Latin-1 characters that lower()/upper() leaves alone"""
    if name not in _cased:
        _cased[name] = z3.Star(re_chars("".join(chr(i) for i in range(256) if getattr(chr(i), name)() == chr(i))))
    return _cased[name]


def no_chars_re(chars):
    u = re_chars(chars)
    return z3.Star(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(u)))


def first_of(z, chars):
    """Split z at the first character belonging to `chars`: (before, rest) with rest == '' or rest[0] in chars.
    Decided part by part (each undecided part forks)."""
    key = ("first_of", z.get_id(), chars)
    v = C.memo.get(key)
    if v is not None:
        return v
    C.keep.append(z)
    ks = kids(z)
    pre = []
    res = None
    full = z3.Full(z3.ReSort(z3.StringSort()))
    for i, k in enumerate(ks):
        if is_lit(k):
            s = lit_value(k)
            pos = min((s.find(c) for c in chars if c in s), default=-1)
            if pos < 0:
                pre.append(k)
                continue
            res = (cat(*pre, lit(s[:pos])), cat(lit(s[pos:]), *ks[i + 1:]))
            break
        if C.branch(z3.InRe(k, no_chars_re(chars))):
            if C.decide(k == lit("")) is not True:
                pre.append(k)
            continue
        if C.branch(z3.InRe(k, z3.Concat(re_chars(chars), full))):
            res = (cat(*pre), cat(*ks[i:]))
            break
        a = C.fresh("fa")
        b = C.fresh("fb")
        C.assume_z(k == z3.Concat(a, b))
        C.assume_z(z3.InRe(a, z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(re_chars(chars))))))
        C.assume_z(z3.InRe(b, z3.Concat(re_chars(chars), full)))
        C.split_facts(k, a, b, chars, True)
        res = (cat(*pre, a), cat(b, *ks[i + 1:]))
        break
    if res is None:
        res = (z if len(pre) == len(ks) else cat(*pre), lit(""))
    C.memo[key] = res
    return res


def last_of(z, chars):
    """Split z after the last character belonging to `chars`: (upto, after); upto == '' or ends with one of chars."""
    key = ("last_of", z.get_id(), chars)
    v = C.memo.get(key)
    if v is not None:
        return v
    C.keep.append(z)
    ks = kids(z)
    post = []
    res = None
    full = z3.Full(z3.ReSort(z3.StringSort()))
    for i in range(len(ks) - 1, -1, -1):
        k = ks[i]
        if is_lit(k):
            s = lit_value(k)
            pos = max(s.rfind(c) for c in chars)
            if pos < 0:
                post.insert(0, k)
                continue
            res = (cat(*ks[:i], lit(s[:pos + 1])), cat(lit(s[pos + 1:]), *post))
            break
        if C.branch(z3.InRe(k, no_chars_re(chars))):
            if C.decide(k == lit("")) is not True:
                post.insert(0, k)
            continue
        if C.branch(z3.InRe(k, z3.Concat(full, re_chars(chars)))):
            res = (cat(*ks[:i + 1]), cat(*post))
            break
        a = C.fresh("la")
        b = C.fresh("lb")
        C.assume_z(k == z3.Concat(a, b))
        C.assume_z(z3.InRe(b, z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(re_chars(chars))))))
        C.assume_z(z3.InRe(a, z3.Concat(full, re_chars(chars))))
        C.split_facts(k, a, b, chars, False)
        res = (cat(*ks[:i], a), cat(b, *post))
        break
    if res is None:
        res = (lit(""), z if len(post) == len(ks) else cat(*post))
    C.memo[key] = res
    return res


def tail_of(k, ch):
    """what follows the first character of k, known to be ch"""
    t = C.memo.get(("tail", k.get_id()))
    if t is None:
        t = C.fresh("tl")
        C.keep.append(k)
        C.memo[("tail", k.get_id())] = t
        C.assume_z(k == z3.Concat(lit(ch), t))
        C.learn(t, C.LG.lquot(C.lang_of(k), ch))
    return t


def _partition1(self, sep):
    s = self.need(sep)
    if is_lit(s.z) and len(lit_value(s.z)) == 1:
        a, r = first_of(self.z, lit_value(s.z))
        if is_lit(r) and lit_value(r) == "":
            return (self.mk(a), self.mk(lit("")), self.mk(lit("")))
        kids = children(r)
        k = kids[0]
        if is_lit(k):
            b = cat(lit(lit_value(k)[1:]), *kids[1:])
        else:
            b = cat(tail_of(k, lit_value(s.z)), *kids[1:])
        return (self.mk(a), self.mkraw(s), self.mk(b))
    return _partition_gen(self, sep)


def _rpartition1(self, sep):
    s = self.need(sep)
    if is_lit(s.z) and len(lit_value(s.z)) == 1:
        a, b = last_of(self.z, lit_value(s.z))
        if is_lit(a) and lit_value(a) == "":
            return (self.mk(lit("")), self.mk(lit("")), self.mkraw(self))
        kids = children(a)
        k = kids[-1]
        if is_lit(k):
            p = cat(*kids[:-1], lit(lit_value(k)[:-1]))
        else:
            t = C.memo.get(("head", k.get_id()))
            if t is None:
                t = C.fresh("hd")
                C.keep.append(k)
                C.memo[("head", k.get_id())] = t
                C.assume_z(k == z3.Concat(t, s.z))
                C.learn(t, C.LG.rquot(C.lang_of(k), lit_value(s.z)))
            p = cat(*kids[:-1], t)
        return (self.mk(p), self.mkraw(s), self.mk(b))
    return _rpartition_gen(self, sep)


_partition_gen = SText.partition
_rpartition_gen = SText.rpartition
SText.partition = _partition1
SText.rpartition = _rpartition1


def safe(x, depth=3):
    """printable form of a value that may contain symbolic parts"""
    try:
        if isinstance(x, Sym):
            return repr(x)[:300]
        if isinstance(x, dict) and depth:
            return "{" + ", ".join(f"{safe(k)}: {safe(v, depth - 1)}" for k, v in (x.pairs() if hasattr(x, "pairs") else x.items())) + "}"
        if isinstance(x, (list, tuple)) and depth:
            return "[" + ", ".join(safe(e, depth - 1) for e in x) + "]"
        return x if isinstance(x, str) else repr(x)
    except BaseException as e:
        return f"<unprintable {type(e).__name__}>"
