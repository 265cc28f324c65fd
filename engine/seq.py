"""Abstract sequences (any length), symbolic-key dictionaries and the loop-contract protocol."""
from __future__ import annotations

import sys
import types

import z3

from . import core
from .core import (ANY, LATIN1, PathDone, SBool, SBytes, SInt, SStr, SText, Sym, Unsupported, cat, has_sym, is_sym, lit,
                   mkbool, mkint, mktext, simp, zi)


def C():
    return core.C


def _c():
    return core.C


class BaseSeq:
    """A sequence of unknown length n whose i-th element is mk(ctx) under index i."""

    def __init__(self, ctx, name, n, mk=None, at=None):
        self.ctx, self.name, self.n, self.mk, self._at = ctx, name, n, mk, at
        self.facts = []
        self.mats = []
        self.done = set()
        ctx.has_abstract = True

    def at(self, idx):
        idx = simp(zi(idx) if not isinstance(idx, z3.ExprRef) else idx)
        if self._at is not None:
            v = self._at(idx)
        else:
            c = self.ctx
            saved = c.index_ctx
            c.index_ctx = (self.name, idx, {})
            try:
                v = self.mk(c, "e")
            finally:
                c.index_ctx = saved
        if not any(m.eq(idx) for m in self.mats):
            self.mats.append(idx)
            for f in list(self.facts):
                self._apply(f, idx)
        return v

    def peek(self, c):
        """the item at an arbitrary position, without what is known of particular positions"""
        saved = c.index_ctx
        c.index_ctx = (self.name, c.fresh("j", "i"), {})
        try:
            return self.mk(c, "e")
        finally:
            c.index_ctx = saved

    def add_fact(self, f):
        self.facts.append(f)
        for m in list(self.mats):
            self._apply(f, m)

    def _apply(self, f, idx):
        k = (id(f), idx.get_id())
        if k in self.done:
            return
        self.done.add(k)
        self.ctx.keep.append(idx)
        f(idx)


class View(BaseSeq):
    """another base's elements at shifted or mirrored positions: shares its facts and materialised positions"""

    def __init__(self, base, n, at, to, back):
        self.base, self.n, self._v, self.to, self.back = base, n, at, to, back
        self.ctx, self.name = base.ctx, base.name + "'"

    def at(self, idx):
        idx = simp(zi(idx) if not isinstance(idx, z3.ExprRef) else idx)
        return self._v(idx)

    @property
    def mats(self):
        return [simp(self.back(m)) for m in self.base.mats]

    def add_fact(self, f):
        def g(m):
            f(simp(self.back(m)))
        self.keepf = (getattr(self, "keepf", ()), g)
        self.base.add_fact(g)


class Flat(BaseSeq):
    """elements of several parts in one index space; the element at i is the list of outputs"""

    def __init__(self, ctx, parts):
        self.ctx, self.parts, self.name = ctx, parts, "flat"
        self.offs = []
        off = z3.IntVal(0)
        for p in parts:
            self.offs.append(off)
            off = simp(off + (p.hi - p.lo) if isinstance(p, Seg) else off + 1)
        self.n = off
        for p in parts:
            if isinstance(p, Seg):
                ctx.assume_z(p.hi >= p.lo)

    def at(self, idx):
        idx = simp(zi(idx) if not isinstance(idx, z3.ExprRef) else idx)
        for k, p in enumerate(self.parts):
            end = self.offs[k + 1] if k + 1 < len(self.parts) else None
            if end is None or self.ctx.branch(simp(idx < end)):
                if isinstance(p, Seg):
                    return p.outs(simp(p.lo + idx - self.offs[k]))
                return [p]
        return []

    @property
    def mats(self):
        out = []
        for p, off in zip(self.parts, self.offs):
            if isinstance(p, Seg):
                out += [simp(off + m - p.lo) for m in p.base.mats]
            else:
                out.append(off)
        return out

    def add_fact(self, f):
        for p, off in zip(self.parts, self.offs):
            if isinstance(p, Seg):
                def g(m, p=p, off=off):
                    inr = simp(z3.And(m >= p.lo, m < p.hi))
                    if not z3.is_false(inr) and self.ctx.branch(inr):
                        f(simp(off + m - p.lo))
                self.keepf = (getattr(self, "keepf", ()), g)
                p.base.add_fact(g)
            else:
                f(off)


def first_of_list(l):
    return l[0]


def flatten(x):
    """a list as one segment"""
    if isinstance(x, Bag):
        x._no()
    c = core.C
    if len(x.parts) == 1 and isinstance(x.parts[0], Seg):
        return x.parts[0]
    key = ("flat",) + tuple(id(p) for p in x.parts)
    b = c.memo.get(key)
    if b is None:
        b = Flat(c, list(x.parts))
        c.keep.append(b)
        c.memo[key] = b
    return Seg(b, z3.IntVal(0), b.n, first_of_list, one=all(p.one for p in x.parts if isinstance(p, Seg)))


def cut_at(parts, k):
    """split a list at position k (0 <= k): -> (left parts, right parts), k clipped to the length"""
    c = core.C
    left, right = [], list(parts)
    while right:
        if not is_sym(k) and k == 0 or is_sym(k) and z3.is_int_value(simp(zi(k))) and simp(zi(k)).as_long() == 0:
            break
        p = right[0]
        if isinstance(p, Seg):
            if not p.one:
                raise Unsupported("position in a filtered sequence")
            n = mkint(p.hi - p.lo)
            if bool(k < n):
                m = simp(p.lo + zi(k))
                left.append(p.sub(p.lo, m))
                right[0] = p.sub(m, p.hi)
                return left, right
            k = k - n
        else:
            if is_sym(k) and not bool(k > 0):
                break
            k = k - 1
        left.append(right.pop(0))
    return left, right


def ident(l):
    return l


class Seg:
    __slots__ = ("base", "lo", "hi", "delta", "key", "one")

    def __init__(self, base, lo, hi, delta=ident, key=None, one=False):
        self.base, self.lo, self.hi, self.delta = base, simp(lo), simp(hi), delta
        self.one = one or delta is ident             # exactly one output per element
        self.key = key

    def outs(self, idx):
        v = self.base.at(idx)
        if self.delta is ident:
            return [v]
        r = self.delta([v])
        return list(r)

    def sub(self, lo, hi):
        return Seg(self.base, lo, hi, self.delta, self.key, self.one)


class VList:
    """list/tuple value that may contain abstract segments"""
    _verif = True
    _verif_seq = True

    def __init__(self, parts=(), pytype=list):
        self.parts = list(parts)
        self.pytype = pytype
        c = core.C
        if c is not None and c.loop_stack:
            c.fresh_objs[id(self)] = self

    __hash__ = None

    @classmethod
    def abstract(cls, base):
        return cls([Seg(base, z3.IntVal(0), base.n)])

    @property
    def is_abstract(self):
        return any(isinstance(p, Seg) for p in self.parts)

    def concrete_items(self):
        if self.is_abstract:
            raise Unsupported("native iteration over an abstract sequence (no loop contract)")
        return self.parts

    def __iter__(self):
        return iter(self.concrete_items())

    def __len__(self):
        if self.is_abstract:
            raise Unsupported("native len of abstract sequence")
        return len(self.parts)

    def copy_as(self, t):
        return VList(self.parts, t)

    def copy(self):
        return VList(self.parts, self.pytype)

    def length(self):
        total = 0
        c = core.C
        for p in self.parts:
            if isinstance(p, Seg):
                if p.one:
                    total = total + mkint(p.hi - p.lo)
                else:
                    key = ("seglen", id(p))
                    v = c.memo.get(key)
                    if v is None:
                        v = c.fresh("n", "i")
                        c.keep.append(p)
                        c.assume_z(v >= 0)
                        c.memo[key] = v
                    total = total + SInt(v)
            else:
                total = total + 1
        return total

    def nonempty(self):
        if any(not isinstance(p, Seg) for p in self.parts):
            return True
        if all(p.one for p in self.parts):
            return bool(self.length() > 0) if self.parts else False
        return self.exists(lambda v: True)

    def __bool__(self):
        return bool(self.nonempty())

    def append(self, x):
        from . import rt
        rt.barrier(self)
        self.parts.append(x)

    def extend(self, xs):
        from . import rt
        rt.barrier(self)
        if isinstance(xs, SeqGen):
            xs = xs.to_list()
        self.parts.extend(xs.parts if isinstance(xs, VList) else list(rt.it(xs)))

    def insert(self, i, x):
        from . import rt
        rt.barrier(self)
        if i == 0:
            self.parts.insert(0, x)
        else:
            raise Unsupported("insert into abstract list")

    def clear(self):
        from . import rt
        rt.barrier(self)
        self.parts = []

    def pop(self, i=-1):
        from . import rt
        rt.barrier(self)
        v = self[i]
        if i == -1 and not isinstance(self.parts[-1], Seg):
            self.parts.pop()
            return v
        if i == 0 and not isinstance(self.parts[0], Seg):
            self.parts.pop(0)
            return v
        p = self.parts[-1 if i == -1 else 0]
        if len(self.parts) > 1 and i in (0, -1) and not C().branch(p.hi > p.lo):
            self.parts.pop(i)
            return self.pop(i)
        if p.one and i in (0, -1):
            q = p.sub(p.lo + 1, p.hi) if i == 0 else p.sub(p.lo, p.hi - 1)
            self.parts[0 if i == 0 else -1] = q
            return v
        raise Unsupported("pop from abstract list")

    def __add__(self, o):
        if isinstance(o, SeqGen):
            o = o.to_list()
        if isinstance(o, VList):
            return VList(self.parts + o.parts, self.pytype)
        if isinstance(o, (list, tuple)):
            return VList(self.parts + list(o), self.pytype)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return VList(list(o) + self.parts, type(o))
        return NotImplemented

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, k):
        ps = self.parts
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported("slice step")
            if k.start is None and k.stop is None:
                return self.copy()
            if not self.is_abstract:
                from . import rt
                return rt.getitem(ps, k)
            if k.stop is not None or is_sym(k.start):
                a, b = k.start, k.stop
                if b is not None and not is_sym(b) and b < 0:
                    b = self.length() + b
                    b = core.C.ite(b < 0, 0, b)
                if a is not None and (bool(a < 0) if is_sym(a) else a < 0) or b is not None and is_sym(b) and bool(b < 0):
                    raise Unsupported("negative slice of abstract list")
                parts = ps if b is None else cut_at(ps, b)[0]
                if a is not None and not (not is_sym(a) and a == 0):
                    parts = cut_at(parts, a)[1]
                return VList(parts, self.pytype)
            if k.stop is None and isinstance(k.start, int) and k.start >= 0:
                n = 0
                rest = list(ps)
                while n < k.start:
                    if not rest:
                        return VList([], self.pytype)
                    if isinstance(rest[0], Seg):
                        s = rest[0]
                        if not s.one:
                            r = self._first(s, lambda v: True)
                            if r is None:
                                rest.pop(0)
                                continue
                            if len(s.outs(r[1])) != 1:
                                raise Unsupported("slice of a sequence with several outputs per element")
                            rest[0] = s.sub(r[1] + 1, s.hi)
                            n += 1
                            continue
                        if C().branch(s.hi > s.lo):
                            rest[0] = s.sub(s.lo + 1, s.hi)
                        else:
                            rest.pop(0)
                            continue
                    else:
                        rest.pop(0)
                    n += 1
                return VList(rest, self.pytype)
            raise Unsupported("slice of abstract list")
        if not self.is_abstract:
            from . import rt
            return rt.getitem(ps, k)
        if len(ps) == 1 and isinstance(ps[0], Seg) and ps[0].one:
            s = ps[0]
            n = mkint(s.hi - s.lo)
            if bool(k < 0) if is_sym(k) else k < 0:
                k = n + k
            if bool((k >= 0)) and bool(k < n):
                return s.outs(simp(s.lo + zi(k)))[0]
            raise IndexError("list index out of range")
        if k == 0 or k == -1:
            seq = ps if k == 0 else list(reversed(ps))
            for p in seq:
                if not isinstance(p, Seg):
                    return p
                r = (self._first if k == 0 else self._last)(p, lambda v: True)
                if r is not None:
                    return r[0]
            raise IndexError("list index out of range")
        if all(p.one for p in ps if isinstance(p, Seg)):
            neg = bool(k < 0)
            pos = -k - 1 if neg else k                     # distance from that end
            for p in (reversed(ps) if neg else ps):
                if isinstance(p, Seg):
                    n = mkint(p.hi - p.lo)
                    if bool(pos < n):
                        return p.outs(simp(p.hi - 1 - zi(pos) if neg else p.lo + zi(pos)))[0]
                    pos = pos - n
                else:
                    if bool(pos == 0):
                        return p
                    pos = pos - 1
            raise IndexError("list index out of range")
        raise Unsupported("index into abstract list")

    def __setitem__(self, k, v):
        from . import rt
        rt.barrier(self)
        if not self.is_abstract:
            if is_sym(k):
                for i in range(len(self.parts)):
                    if core.getbool(k == i):
                        self.parts[i] = v
                        return
                raise IndexError
            self.parts[k] = v
            return
        if isinstance(k, slice) and k.start is None and k.stop is None:
            self.parts = list(v.parts) if isinstance(v, VList) else list(v)
            return
        if isinstance(k, slice):
            raise Unsupported("slice assignment in abstract list")
        left, right = self._at(k)
        self.parts = left + [v] + right

    def _at(self, k):
        """-> parts before and after the item at position k"""
        if bool(k < 0):
            k = self.length() + k
            if bool(k < 0):
                raise IndexError("list assignment index out of range")
        left, right = cut_at(self.parts, k)
        while right:
            p = right.pop(0)
            if not isinstance(p, Seg):
                return left, right
            if not p.one:
                raise Unsupported("position in a filtered sequence")
            if C().branch(simp(p.hi > p.lo)):
                return left, [p.sub(p.lo + 1, p.hi)] + right
        raise IndexError("list assignment index out of range")

    def __delitem__(self, k):
        from . import rt
        rt.barrier(self)
        if isinstance(k, slice):
            raise Unsupported("slice deletion in abstract list")
        if not self.is_abstract and not is_sym(k):
            del self.parts[k]
            return
        left, right = self._at(k)
        self.parts = left + right

    # -- quantified queries
    def _none(self, seg, pred, lo, hi):
        """assume: no output of seg in [lo,hi) satisfies pred"""
        c = C()

        def fact(idx, seg=seg, pred=pred, lo=lo, hi=hi):
            inr = simp(z3.And(idx >= lo, idx < hi))
            if z3.is_false(inr):
                return
            if not c.branch(inr):
                return
            for v in seg.outs(idx):
                p = pred(v)
                c.assume(c.not_(p) if isinstance(p, (SBool, bool)) else not p)
        seg.base.add_fact(fact)

    def _pick(self, seg, pred, tag, rng):
        """fork: a witness index (first/last/any satisfying pred) exists, or none does"""
        c = C()
        b = c.fresh("ex", "b")
        if c.branch(b):
            w = c.fresh(tag, "i")
            c.assume_z(z3.And(w >= seg.lo, w < seg.hi))
            if c._check() == z3.unsat:
                c.done()
            for m in list(seg.base.mats):
                if c.branch(w == m):
                    w = m
                    break
            outs = seg.outs(w)
            if rng == "first":
                order = range(len(outs))
            else:
                order = range(len(outs) - 1, -1, -1)
            for k in order:
                p = pred(outs[k])
                if p if isinstance(p, bool) else bool(p):
                    if rng == "first":
                        self._none(seg, pred, seg.lo, w)
                    elif rng == "last":
                        self._none(seg, pred, w + 1, seg.hi)
                    return (outs[k], w)
            c.done()
        self._none(seg, pred, seg.lo, seg.hi)
        return None

    def _first(self, seg, pred):
        return self._pick(seg, pred, "first", "first")

    def _last(self, seg, pred):
        return self._pick(seg, pred, "last", "last")

    def exists(self, pred):
        ors = []
        for p in self.parts:
            if not isinstance(p, Seg):
                r = pred(p)
                if isinstance(r, SBool):
                    ors.append(r)
                elif bool(r):
                    return True
        if ors and bool(core.C.any(ors)):              # one decision for all of them
            return True
        for p in self.parts:
            if isinstance(p, Seg):
                if self._pick(p, pred, "any", "any") is not None:
                    return True
        return False

    def has(self, x):
        if not self.is_abstract:
            from . import rt
            return rt.contains(x, self.parts)
        return self.exists(lambda v: v == x)

    __contains__ = lambda self, x: bool(self.has(x))

    def find_first(self, pred):
        for p in self.parts:
            if isinstance(p, Seg):
                r = self._first(p, pred)
                if r is not None:
                    return r
            else:
                r = pred(p)
                if r if isinstance(r, bool) else bool(r):
                    return (p, None)
        return None

    def find_last(self, pred):
        for p in reversed(self.parts):
            if isinstance(p, Seg):
                r = self._last(p, pred)
                if r is not None:
                    return r
            else:
                r = pred(p)
                if r if isinstance(r, bool) else bool(r):
                    return (p, None)
        return None

    def map(self, f):
        return SeqGen(self, lambda l: [f(x) for x in l], True).to_list()

    def filter(self, f):
        return SeqGen(self, lambda l: [x for x in l if f(x)]).to_list()

    def _view(self, kind, mk):
        s = flatten(self)
        c = s.base.ctx
        key = (kind, id(s.base), s.lo.get_id(), s.hi.get_id() if kind == "rev" else 0, s.delta)
        r = c.memo.get(key)
        if r is None:
            r = (mk(s), s)
            c.keep.append(r)
            c.memo[key] = r
        return r[0], s

    def enumerated(self, start=0):
        if not all(p.one for p in self.parts if isinstance(p, Seg)):
            raise Unsupported("enumerate of a filtered sequence")
        v, s = self._view(("enum", start if not is_sym(start) else start.z.get_id()), lambda s: View(
            s.base, s.hi - s.lo, lambda i: (mkint(i + zi(start)), s.outs(simp(s.lo + i))[0]), lambda i: s.lo + i, lambda m: m - s.lo))
        return VList([Seg(v, z3.IntVal(0), simp(s.hi - s.lo))])

    def reversed(self):
        v, s = self._view("rev", lambda s: View(
            s.base, s.hi - s.lo, lambda i: s.outs(simp(s.hi - 1 - i)), lambda i: s.hi - 1 - i, lambda m: s.hi - 1 - m))
        return VList([Seg(v, z3.IntVal(0), simp(s.hi - s.lo), first_of_list, one=s.one)])

    def cut_first(self, pred):
        """-> (before, item, after) at the first item satisfying pred, or None"""
        for k, p in enumerate(self.parts):
            if isinstance(p, Seg):
                r = self._first(p, pred)
                if r is not None:
                    if len(p.outs(r[1])) != 1:
                        raise Unsupported("several outputs per element")
                    w = r[1]
                    return VList(self.parts[:k] + [p.sub(p.lo, w)]), r[0], VList([p.sub(w + 1, p.hi)] + self.parts[k + 1:])
            else:
                r = pred(p)
                if r if isinstance(r, bool) else bool(r):
                    return VList(self.parts[:k]), p, VList(self.parts[k + 1:])
        return None

    def index(self, x):
        raise Unsupported("index in abstract list")

    def __eq__(self, o):
        if isinstance(o, VList) and not o.is_abstract:
            o = o.parts
        if isinstance(o, (list, tuple)) and not self.is_abstract:
            return bool(self.parts == list(o))
        return list_equal(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "VList(" + ", ".join(f"<{p.base.name}[{p.lo}:{p.hi}]>" if isinstance(p, Seg) else repr(p) for p in self.parts) + ")"


class Bag(VList):
    """a list of which only the set of items is known (sorted set, set iteration): neither order nor repetition may be observed"""

    def _no(self, *a, **k):
        raise Unsupported("order of an abstract set")

    __getitem__ = __setitem__ = __delitem__ = find_first = find_last = cut_first = length = __len__ = pop = insert = _no
    __add__ = __radd__ = enumerated = reversed = index = __eq__ = __ne__ = _no

    def nonempty(self):
        return any(not isinstance(p, Seg) for p in self.parts) or any(
            bool(mkint(p.hi - p.lo) > 0) if p.one else VList([p]).exists(lambda v: True) for p in self.parts)

    def copy(self):
        return Bag(self.parts, self.pytype)

    def copy_as(self, t):
        return Bag(self.parts, t)


class Guard:
    """while a comprehension's element expression is evaluated: it may not change what it captured"""

    def __init__(self, objs):
        self.ids = {id(o) for o in objs}

    def on_write(self, o, name):
        if id(o) in self.ids:
            raise Unsupported("side effect in a comprehension over an abstract sequence")

    def leave(self):
        pass


def freeze(f):
    """the element expression of a comprehension with the values its free variables have now (it is evaluated later)"""
    cl = getattr(f, "__closure__", None)
    if not cl:
        return f
    vals, objs = [], []
    for cell in cl:
        try:
            v = cell.cell_contents
        except ValueError:
            return f
        if isinstance(v, (VList, VDict, VSet)) or type(v) in (list, dict, set):
            v = v.copy()
            objs.append(v)
        vals.append(types.CellType(v))
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(vals))
    g.__kwdefaults__ = f.__kwdefaults__
    if not objs:
        return g
    guard = Guard(objs)

    def run(l):
        st = core.C.loop_stack
        st.append(guard)
        try:
            return list(g(l))
        finally:
            st.remove(guard)
    return run


class SeqGen:
    """generator expression / map over an abstract sequence"""

    def __init__(self, src, thunk, one=False):
        if isinstance(src, SeqGen):
            src = src.to_list()
        self.src, self.thunk, self.one = src, freeze(thunk), one

    is_abstract = True
    _verif_seq = True

    def to_list(self):
        out = []
        for p in self.src.parts:
            if isinstance(p, Seg):
                d0, th = p.delta, self.thunk
                out.append(Seg(p.base, p.lo, p.hi, (lambda l, d0=d0, th=th: list(th(list(d0(l))))) if d0 is not ident
                               else (lambda l, th=th: list(th(l))), one=p.one and self.one))
            else:
                out.extend(self.thunk([p]))
        return Bag(out) if isinstance(self.src, Bag) else VList(out)

    def exists(self, pred):
        return self.to_list().exists(pred)

    def first(self, *default):
        r = self.to_list().find_first(lambda v: True)
        if r is None:
            if default:
                return default[0]
            raise StopIteration
        return r[0]

    def __iter__(self):
        raise Unsupported("native iteration over an abstract generator")


def list_equal(a, b):
    raise Unsupported("== on abstract lists (use same_list)")


def same_list(c, label, a, b, info=""):
    """obligation: two lists (possibly abstract, over common bases) are equal item by item"""
    from . import rt
    as_parts = lambda x: list((x.to_list() if isinstance(x, SeqGen) else x).parts) if isinstance(x, (VList, SeqGen)) else list(rt.it(x))
    a, b = as_parts(a), as_parts(b)
    empties = 0
    while a or b:
        if not b:
            a, b = b, a
        p, q = (a[0] if a else None), b[0]
        if not a:
            if not isinstance(q, Seg):
                c.check(label, False, info)
                return
            if c.branch(c.fresh("ex", "b")):
                i = _fresh_in(c, q, q.lo, q.hi)
                c.check(label, not q.outs(i), info)
                c.done()
            b.pop(0)
            continue
        ps, qs = isinstance(p, Seg), isinstance(q, Seg)
        if not ps and not qs:
            c.check(label, rt.eqb(p, q), info)
            a.pop(0)
            b.pop(0)
            continue
        direct = ps and qs and p.base is q.base and p.lo.eq(q.lo)
        if not direct and ps and c.branch(simp(p.hi <= p.lo)):
            a.pop(0)
            continue
        if not direct and qs and c.branch(simp(q.hi <= q.lo)):
            b.pop(0)
            continue
        if ps and qs:
            if p.base is q.base and not _same(c, p.lo, q.lo):
                l, g, to = (a, p, q.lo) if c.branch(simp(p.lo < q.lo)) else (b, q, p.lo)
                if c.branch(simp(g.hi < to)):
                    to = g.hi
                if g.delta is not ident and c.branch(c.fresh("ex", "b")):
                    i = _fresh_in(c, g, g.lo, to)
                    c.check(label, not g.outs(i), info)
                    c.done()
                if g.delta is ident:
                    c.check(label, False, info)
                l[0] = g.sub(to, g.hi)
                continue
            if p.base is not q.base and (_foreign(p, b) or _foreign(q, a)):
                # this part has nothing to be equal to: it must be empty
                l, g = (a, p) if _foreign(p, b) else (b, q)
                if c.branch(c.fresh("ex", "b")):
                    i = _fresh_in(c, g, g.lo, g.hi)
                    c.check(label, not g.outs(i), info)
                    c.done()
                l.pop(0)
                continue
            if p.base is not q.base:
                raise Unsupported(f"lists that do not align: {VList(a)} {VList(b)}")
            if p.hi.eq(q.hi):
                hi = p.hi
            else:
                hi = p.hi if c.branch(simp(p.hi <= q.hi)) else q.hi
            if p.delta is not q.delta:
                if c.branch(c.fresh("ex", "b")):
                    i = _fresh_in(c, p, p.lo, hi)
                    x, y = p.outs(i), q.outs(i)
                    if len(x) != len(y):
                        c.check(label, False, info)
                    for u, v in zip(x, y):
                        c.check(label, rt.eqb(u, v), info)
                    c.done()
            for l, g in ((a, p), (b, q)):
                if g.hi.eq(hi):
                    l.pop(0)
                else:
                    l[0] = g.sub(hi, g.hi)
            continue
        l, g = (a, p) if ps else (b, q)
        if not g.one and _foreign(g, b if ps else a) and len([x for x in l if not isinstance(x, Seg)]) == len([x for x in (b if ps else a)]):
            if c.branch(c.fresh("ex", "b")):
                i = _fresh_in(c, g, g.lo, g.hi)
                c.check(label, not g.outs(i), info)
                c.done()
            l.pop(0)
            continue
        o = g.outs(g.lo)
        l[0:1] = list(o) + [g.sub(g.lo + 1, g.hi)]
        empties = 0 if o else empties + 1
        if empties > 2:
            raise Unsupported(f"lists that do not align: {VList(a)} {VList(b)}")


def _foreign(p, others):
    """no part of the other list is over the same base"""
    return not any(isinstance(q, Seg) and q.base is p.base for q in others)


def _fresh_in(c, p, lo, hi):
    i = c.fresh("j", "i")
    c.assume_z(z3.And(i >= lo, i < hi))
    for m in list(p.base.mats):
        if not m.eq(i) and c.branch(m == i):
            return m
    return i


def _same(c, x, y):
    return x.eq(y) or not c.branch(simp(x != y))


class VSet:
    def __init__(self, items=()):
        self.items = []
        self.abs = None
        for e in items:
            self._add(e)

    __hash__ = None

    @classmethod
    def from_abstract(cls, v):
        s = cls()
        s.abs = v if isinstance(v, VList) else v.to_list()
        return s

    def has(self, x):
        if self.abs is not None and self.abs.has(x):
            return True
        from . import rt
        return core.C.any([rt.eqb(e, x) for e in self.items])

    def __contains__(self, x):
        return bool(self.has(x))

    def add(self, x):
        from . import rt
        rt.barrier(self)
        self._add(x)

    def _add(self, x):
        if has_sym(x) or any(has_sym(e) for e in self.items):
            if any(core.getbool(e == x) for e in self.items):
                return
        elif x in self.items:
            return
        self.items.append(x)

    def items_list(self):
        if self.abs is not None:
            raise Unsupported("iteration over abstract set")
        return list(self.items)

    def __iter__(self):
        return iter(self.items_list())

    def length(self):
        return len(self.items_list())

    def __len__(self):
        return len(self.items_list())

    def __bool__(self):
        if self.items:
            return True
        return self.abs is not None and bool(self.abs)

    def bag(self):
        return Bag(self.items + (self.abs.parts if self.abs is not None else []))

    def __or__(self, o):
        r = VSet(self.items)
        r.abs = self.abs
        if isinstance(o, VSet) and o.abs is not None:
            r.abs = o.abs if r.abs is None else VList(r.abs.parts + o.abs.parts)
        for e in (o.items if isinstance(o, VSet) else o):
            r._add(e)
        return r

    def __ror__(self, o):
        return VSet(list(o)) | self

    union = __or__
    __and__ = lambda self, o: VSet([e for e in self.items_list() if e in o])

    def __sub__(self, o):
        from . import rt
        return VSet([e for e in self.items_list() if not bool(rt.contains(e, o))])

    def issubset(self, o):
        from . import rt
        return all(bool(rt.contains(e, o)) for e in self.items_list())

    __le__ = issubset

    def issuperset(self, o):
        return all(bool(self.has(e)) for e in o)

    __ge__ = issuperset

    def __eq__(self, o):
        if isinstance(o, (set, frozenset, VSet)):
            oi = list(o)
            return len(oi) == len(self.items_list()) and all(e in self for e in oi)
        return False

    def update(self, xs):
        for e in xs:
            self.add(e)

    def discard(self, x):
        from . import rt
        rt.barrier(self)
        self.items = [e for e in self.items_list() if not core.getbool(e == x)]

    def remove(self, x):
        if not core.getbool(self.has(x)):
            raise KeyError(x)
        self.discard(x)

    def clear(self):
        from . import rt
        rt.barrier(self)
        self.items, self.abs = [], None

    def __ior__(self, o):
        self.update(o)
        return self

    difference = __sub__
    intersection = __and__

    def copy(self):
        return VSet(self.items_list())


class VDictItems:
    def __init__(self, items, d):
        self.items = items
        self.d = d

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __contains__(self, x):
        from . import rt
        return bool(rt.contains(x, self.items))

    def __eq__(self, o):
        return sorted(map(str, self.items)) == sorted(map(str, o)) if not has_sym(self.items) else NotImplemented

    def __and__(self, o):
        return set(self.items) & set(o)

    def __or__(self, o):
        return set(self.items) | set(o)

    def __sub__(self, o):
        return set(self.items) - set(o)


class VKeysView:
    """keys of an abstract dictionary: membership only"""

    def __init__(self, d):
        self.d = d

    def has(self, k):
        return self.d.has(k)

    def __contains__(self, k):
        return bool(self.d.has(k))

    def __iter__(self):
        raise Unsupported("iteration over the keys of an abstract dict")


class VItemsView:
    """items of an abstract dictionary: only rebuilt by comprehensions that keep the keys"""

    def __init__(self, d):
        self.d = d

    def __iter__(self):
        raise Unsupported("iteration over the items of an abstract dict")

    def dictcomp(self, thunk):
        thunk = freeze(thunk)
        c = core.C
        k0, v0 = SStr(c.fresh("k"), ANY), SStr(c.fresh("v"), ANY)
        r = list(thunk([(k0, v0)]))
        if len(r) != 1 or not (isinstance(r[0][0], SStr) and r[0][0].z.eq(k0.z)):
            raise Unsupported("comprehension over an abstract dict that changes its keys")
        d = VDict()
        d._log = [Overlay(self.d.copy(), None, lambda k, v: list(thunk([(k, v)]))[0][1])]
        return d


_TOMB = object()


class Overlay:
    """all entries of a mapping with abstract keys, as it was when they were copied"""

    def __init__(self, d, o, f=None):
        self.d, self.o, self.f = d, o, f

    def get(self, k):
        from . import rt
        if self.f is not None:
            return self.f(k, self.d[k])
        return rt.call(type(self.o).__getitem__, self.o, k)


def snapshot(o):
    s = object.__new__(type(o))
    for a, v in vars(o).items():
        object.__setattr__(s, a, v.copy() if isinstance(v, (VList, VDict, list, dict)) else v)
    return s



class VDict(dict):
    """dict: native while all keys are concrete; a list of pairs once a key is symbolic; a log over
    an abstract pair list when built from an abstract sequence."""
    __slots__ = ("_pairs", "_log")

    def __init__(self, *a, **k):
        self._pairs = None
        self._log = None
        c = core.C
        if c is not None and c.loop_stack:
            c.fresh_objs[id(self)] = self
        for e in a:
            self.update(e)
        for kk, v in k.items():
            self[kk] = v

    __hash__ = None

    @classmethod
    def from_abstract(cls, pairs: VList):
        d = cls()
        d._log = list(pairs.parts)
        return d

    def symbolic_keys(self):
        return self._pairs is not None or self._log is not None

    def _to_pairs(self):
        if self._pairs is None:
            self._pairs = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, k):
        """-> pair or None (pairs mode)"""
        for p in self._pairs:
            e = p[0] == k
            if e if isinstance(e, bool) else bool(e):
                return p
        return None

    def _lookup(self, k):
        """-> (found, value)"""
        if self._log is not None:
            c = core.C
            mk = ("lookup", tuple(id(p) for p in self._log), k.z.get_id() if isinstance(k, SText) else k)
            r = c.memo.get(mk)
            if r is None:
                r = self._lookup_log(k)
                c.memo[mk] = r
                c.keep.append((list(self._log), k))
            return r
        return self._lookup_other(k)

    def _lookup_log(self, k):
            for p in reversed(self._log):
                if isinstance(p, Seg):
                    r = VList([p])._last(p, lambda kv: kv[0] == k)
                    if r is not None:
                        return True, r[0][1]
                elif isinstance(p, Overlay):
                    if core.getbool(p.d.has(k)):
                        return True, p.get(k)
                else:
                    e = p[0] == k
                    if e if isinstance(e, bool) else bool(e):
                        return (False, None) if p[1] is _TOMB else (True, p[1])
            return False, None

    def _lookup_other(self, k):
        if self._pairs is None:
            if is_sym(k):
                for kk in dict.__iter__(self):
                    e = kk == k
                    if e if isinstance(e, bool) else bool(e):
                        return True, dict.__getitem__(self, kk)
                return False, None
            if has_sym(k):
                raise Unsupported("dict key with symbolic parts")
            try:
                return True, dict.__getitem__(self, k)
            except KeyError:
                return False, None
        p = self._find(k)
        return (True, p[1]) if p is not None else (False, None)

    def __getitem__(self, k):
        f, v = self._lookup(k)
        if not f:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        f, v = self._lookup(k)
        return v if f else d

    def has(self, k):
        if self._log is None:
            keys = [p[0] for p in self._pairs] if self._pairs is not None else list(dict.__iter__(self))
            if is_sym(k) or self._pairs is not None:
                from . import rt
                return core.C.any([rt.eqb(e, k) for e in keys])
            return dict.__contains__(self, k)
        return self._lookup(k)[0]

    def __contains__(self, k):
        return bool(self.has(k))

    def __setitem__(self, k, v):
        from . import rt
        rt.barrier(self)
        if self._log is not None:
            self._log.append((k, v))
            return
        if self._pairs is None:
            if not is_sym(k):
                dict.__setitem__(self, k, v)
                return
            for kk in dict.__iter__(self):
                e = kk == k
                if e if isinstance(e, bool) else bool(e):
                    dict.__setitem__(self, kk, v)
                    return
            self._to_pairs()
            self._pairs.append([k, v])
            return
        p = self._find(k)
        if p is not None:
            p[1] = v
        else:
            self._pairs.append([k, v])

    def __delitem__(self, k):
        from . import rt
        rt.barrier(self)
        if self._log is not None:
            if not self._lookup(k)[0]:
                raise KeyError(k)
            self._log.append((k, _TOMB))
            return
        if self._pairs is None:
            if is_sym(k):
                for kk in list(dict.__iter__(self)):
                    if core.getbool(kk == k):
                        dict.__delitem__(self, kk)
                        return
                raise KeyError(k)
            dict.__delitem__(self, k)
            return
        p = self._find(k)
        if p is None:
            raise KeyError(k)
        self._pairs = [q for q in self._pairs if q is not p]

    def pop(self, k, *d):
        f, v = self._lookup(k)
        if not f:
            if d:
                return d[0]
            raise KeyError(k)
        self.__delitem__(k)
        return v

    def popitem(self):
        if self._log is not None:
            # some present key (the real dict takes the one inserted last)
            r = self._alive()
            if r is None:
                raise KeyError("popitem(): dictionary is empty")
            return r, self.pop(r)
        ks = self.key_list()
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.pop(k)

    def _alive(self):
        """a key present in an abstract dictionary, or None (forks)"""
        for n, p in enumerate(self._log):
            gone = [q[0] for q in self._log[n + 1:] if not isinstance(q, (Seg, Overlay)) and q[1] is _TOMB]
            alive = lambda kv: core.C.not_(core.C.any([kv[0] == g for g in gone])) if gone else True
            if isinstance(p, Seg):
                r = VList([p])._pick(p, alive, "any", "any")
                if r is not None:
                    return r[0][0]
            elif isinstance(p, Overlay):
                raise Unsupported("emptiness of an abstract dictionary")
            elif p[1] is not _TOMB and core.getbool(alive(p)):
                return p[0]
        return None

    def setdefault(self, k, d=None):
        f, v = self._lookup(k)
        if f:
            return v
        self[k] = d
        return d

    def key_list(self):
        if self._log is not None:
            raise Unsupported("iteration over abstract dict")
        if self._pairs is not None:
            return [p[0] for p in self._pairs]
        return list(dict.__iter__(self))

    def pairs(self):
        if self._log is not None:
            raise Unsupported("iteration over abstract dict")
        if self._pairs is not None:
            return [(p[0], p[1]) for p in self._pairs]
        return list(dict.items(self))

    def __iter__(self):
        return iter(self.key_list())

    def keys(self):
        if self._log is not None:
            return VKeysView(self)
        if self._pairs is None:
            return dict.keys(self)
        return VDictItems(self.key_list(), self)

    def items(self):
        if self._log is not None:
            return VItemsView(self)
        if self._pairs is None:
            return dict.items(self)
        return VDictItems(self.pairs(), self)

    def values(self):
        if self._pairs is None and self._log is None:
            return dict.values(self)
        return VDictItems([v for _, v in self.pairs()], self)

    def length(self):
        if self._log is not None:
            c = core.C
            mk = ("dictlen", tuple(id(p) for p in self._log))
            v = c.memo.get(mk)
            if v is None:
                v = 0
                if self._alive() is not None:
                    v = SInt(c.fresh("n", "i"))
                    c.assume_z(v.z >= 1)
                c.memo[mk] = v
                c.keep.append(list(self._log))
            return v
        return len(self.key_list())

    def __len__(self):
        return len(self.key_list())

    def __bool__(self):
        if self._log is not None:
            return self._alive() is not None
        return len(self.key_list()) > 0

    def update(self, *a, **k):
        from . import rt
        for o in a:
            if isinstance(o, VDict):
                if o._log is not None:
                    rt.barrier(self)
                    if self._log is None:
                        self._log = [(kk, v) for kk, v in self.pairs()]
                        dict.clear(self)
                        self._pairs = None
                    self._log.extend(o._log)
                    continue
                o = o.pairs()
            elif isinstance(o, VList) and o.is_abstract:
                rt.barrier(self)
                if self._log is None:
                    self._log = [(kk, v) for kk, v in self.pairs()]
                    dict.clear(self)
                    self._pairs = None
                self._log.extend(o.parts)
                continue
            elif hasattr(o, "keys") and isinstance((ks := o.keys()), VKeysView):
                self._to_log()
                self._log.append(Overlay(ks.d.copy(), snapshot(o)))
                continue
            elif hasattr(o, "keys"):
                o = [(kk, o[kk]) for kk in rt.it(o.keys())]
            for kk, v in rt.it(o):
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _to_log(self):
        from . import rt
        rt.barrier(self)
        if self._log is None:
            self._log = [(kk, v) for kk, v in self.pairs()]
            dict.clear(self)
            self._pairs = None

    def clear(self):
        from . import rt
        rt.barrier(self)
        dict.clear(self)
        self._pairs = None
        self._log = None

    def copy(self):
        d = VDict()
        if self._log is not None:
            d._log = list(self._log)
        else:
            for k, v in self.pairs():
                d[k] = v
        return d

    __copy__ = copy

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = VDict()
        d.update(o)
        d.update(self)
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        a = self.pairs()
        b = o.pairs() if isinstance(o, VDict) else list(o.items())
        if len(a) != len(b):
            return False
        for k, v in a:
            f, w = (o if isinstance(o, VDict) else VDict(o))._lookup(k)
            if not f or not (w is v or bool(w == v)):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __repr__(self):
        if self._log is not None:
            return "VDict(<abstract>)"
        return "VDict(" + repr(self.pairs()) + ")"

    def __reversed__(self):
        return reversed(self.key_list())


ABSTRACT_TYPES = (VList, SeqGen)


# --------------------------------------------------------------------------- split
class SplitSeq:
    @staticmethod
    def make(s, sep):
        """s.split(sep): abstract sequence of pieces in proof mode; forks on the count in bounded mode"""
        c = C()
        if not (is_lit_nonempty(sep)):
            if not bool(slen_pos(sep)):
                raise ValueError("empty separator")
        key = ("split", s.z.get_id(), sep.z.get_id())
        v = c.memo.get(key)
        if v is not None:
            return v.copy()
        c.keep.append((s.z, sep.z))
        j = c.memo.get(("joined", s.z.get_id()))
        if j is not None and j[0].eq(sep.z) and core.is_lit(sep.z):
            bad = c.LG.cat(c.LG.FULL, c.LG.lit(core.lit_value(sep.z)), c.LG.FULL)
            if all(L is not None and c.LG.is_empty(c.LG.conj(L, bad)) for L in j[2]):
                c.memo[key] = v = j[1]
                return v.copy()
        # exact when every piece of the concatenation is a literal or known to be without the separator
        if core.is_lit(sep.z) and len(core.lit_value(sep.z)) == 1:
            ch = core.lit_value(sep.z)
            kids = core.kids(s.z)
            free = core.no_chars_re(ch)
            if len(kids) > 1 and all(core.is_lit(k) or c.decide(z3.InRe(k, free)) is True for k in kids):
                out, cur = [], []
                for k in kids:
                    if not core.is_lit(k):
                        cur.append(k)
                        continue
                    ps = core.lit_value(k).split(ch)
                    cur.append(core.lit(ps[0]))
                    for q in ps[1:]:
                        out.append(cur)
                        cur = [core.lit(q)]
                out.append(cur)
                v = VList([s.mk(core.cat(*q)) for q in out])
                c.memo[key] = v
                return v.copy()
        # exact for strings without the separator
        first = None
        if core.is_lit(sep.z) and len(core.lit_value(sep.z)) == 1:
            first, m, _ = s.partition(s.mkraw(sep))
            one = not isinstance(m, SText) and not m
        else:
            one = not bool(s.contains(s.mkraw(sep)))
        if one:
            v = VList([s.mkraw(s) if first is None else first])
        elif c.mode == "proof" and getattr(c, "abstract_split", True):
            n = c.ufint("split_n", lambda a, b: len(a.split(b)) if b else 0, s.z, sep.z)
            c.assume_z(n >= 2)
            d = c.uf_decl("split_at", lambda a, b, i: (a.split(b)[i] if b and 0 <= i < len(a.split(b)) else ""), 3, "s",
                          [z3.StringSort(), z3.StringSort(), z3.IntSort()])

            def at(i):
                if first is not None and z3.is_int_value(i) and i.as_long() == 0:
                    return first
                t = c.uf("split_at", c.ufs["split_at"][1], s.z, sep.z, i)
                c.assume_z(z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Not(z3.Contains(t, sep.z)), z3.Contains(s.z, t))))
                if first is not None and not z3.is_int_value(i):
                    c.assume_z(z3.Implies(i == 0, t == core.zt(first)))
                if z3.is_int_value(i) and i.as_long() == 0:
                    pre = z3.SubString(s.z, z3.IntVal(0), z3.IndexOf(s.z, sep.z, z3.IntVal(0)))
                    c.assume_z(t == pre)
                return s.mk(t)
            had = c.has_abstract
            v = VList.abstract(BaseSeq(c, f"split{s.z.get_id()}", n, at=at))
            c.has_abstract = had
        else:
            parts = []
            cur = s
            lim = c.split_max
            while True:
                a, m, b = (cur.partition(s.mkraw(sep)) if isinstance(cur, SText) else cur.partition(s.mkraw(sep)))
                if not isinstance(m, SText) and not m:
                    parts.append(a)
                    break
                parts.append(a)
                cur = b
                if len(parts) >= lim:
                    if not isinstance(cur, SText):
                        parts.extend(cur.split(s.mkraw(sep)))
                        break
                    c.bounded_point(f"split into at most {lim + 1} pieces")
                    c.assume(c.not_(cur.contains(s.mkraw(sep))))
                    parts.append(cur)
                    break
            v = VList(parts)
        c.memo[key] = v
        return v.copy()


def is_lit_nonempty(sep):
    return core.is_lit(sep.z) and core.lit_value(sep.z) != ""


def slen_pos(sep):
    return sep.slen() > 0


def join_seq(sep, items: VList):
    """sep.join over a list with abstract segments: an opaque text per segment, keyed by the segment"""
    c = C()
    if not items.is_abstract:
        return sep.join(items.parts)
    if isinstance(items, Bag):
        langs = [piece_lang(c, p) for p in items.parts]
        if not items.nonempty():
            return sep.mk(lit(""))
        v = c.fresh("joined")
        c.memo[("joined", v.get_id())] = (sep.z, items, langs)
        c.keep.append((v, items))
        if all(L is not None for L in langs):
            L = c.LG.alt(*langs)
            c.learn(v, c.LG.alt(c.LG.lit(""), c.LG.cat(L, c.LG.star(c.LG.cat(c.lang_of(sep.z), L)))))
        return mktext(type(sep), v, LATIN1 if type(sep) is SBytes else ANY)
    if core.is_lit(sep.z) and core.lit_value(sep.z) == "":
        out = sep.mk(lit(""))
        for p in items.parts:
            if isinstance(p, Seg):
                out = out + join_seg(sep, p)
            else:
                out = out + p
        return out
    if not items.nonempty():
        return sep.mk(lit(""))
    # one opaque text; split() with the same separator gives the pieces back when none contains it
    v = c.fresh("joined")
    items = items.copy()
    langs = [piece_lang(c, p) for p in items.parts]
    c.memo[("joined", v.get_id())] = (sep.z, items, langs)
    c.keep.append((v, items))
    if all(L is not None for L in langs):
        L = c.LG.alt(*langs)
        c.learn(v, c.LG.cat(L, c.LG.star(c.LG.cat(c.lang_of(sep.z), L))))
    return mktext(type(sep), v, LATIN1 if type(sep) is SBytes else ANY)


def piece_lang(c, p):
    """a language all outputs of a part are in, or None"""
    if not isinstance(p, Seg):
        return c.lang_of(core.zt(p))
    n = len(c.decisions)
    if type(p.base) is BaseSeq and p.base.mk is not None:
        outs = list(p.delta([p.base.peek(c)]))
    else:
        outs = p.outs(c.fresh("j", "i"))
    if any(d[0] < 2 for d in c.decisions[n:]) or len(outs) != 1:
        return None
    return c.lang_of(core.zt(outs[0]))


def join_seg(sep, p: Seg):
    c = C()
    key = ("join", id(p.base), p.lo.get_id(), p.hi.get_id(), p.key)
    if p.key is None and p.delta is not ident:
        key = ("join", id(p))
    v = c.memo.get(key)
    if v is None:
        v = c.fresh("join")
        c.keep.append(p)
        c.memo[key] = v
        c.assume_z(z3.Implies(p.lo >= p.hi, v == lit("")))
    return mktext(type(sep), v, LATIN1 if type(sep) is SBytes else ANY)


# --------------------------------------------------------------------------- loops
class Undef:
    def __getattribute__(self, n):
        if n in ("__class__", "_verif_undef"):
            return object.__getattribute__(self, n)
        raise Unsupported(f"use of a loop-local variable not described by the loop contract ({n})")

    def _u(self, *a, **k):
        raise Unsupported("use of a loop-local variable not described by the loop contract")

    __call__ = __bool__ = __eq__ = __add__ = __radd__ = __iter__ = __len__ = __getitem__ = __setitem__ = _u
    __hash__ = _u


UNDEF = Undef()


class Locals(dict):
    def __missing__(self, k):
        raise Unsupported(f"loop contract names a local that does not exist: {k}")


class LoopBase:
    def __init__(self, site):
        self.site = site
        self.outside = None
        self.cut = False
        self.contract = None
        self.active = False
        c = core.C
        if c is not None and c.mode == "proof":
            self.contract = c.contracts.get(site)

    def _frame(self, depth):
        return sys._getframe(depth + 1)

    @property
    def vars(self):
        """locals of the function the loop is in; the contract does not apply if a local it names is gone"""
        return Locals(self.frame.f_locals)

    def start(self, frame):
        """entry: invariant holds initially; then pick the generic-iteration or the exit path"""
        c = core.C
        self.frame = frame
        self.g = {}
        self.allowed = []
        self.pre = set(c.fresh_objs)
        self.co = frame.f_code
        c.stats.loops_cut.add(self.site)
        ct = self.contract
        if hasattr(ct, "init"):
            ct.init(self)
        c.in_cut += 1
        c.hyp.append(self.site)
        ct.check(self, 0)
        self.generic = bool(SBool(c.fresh("generic", "b")))

    # quantified facts over the elements already visited
    def none(self, pred, hi, lo=0):
        """assume: no element in [lo, hi) satisfies pred"""
        self.lst()._none(self.seg, pred, zi(lo), zi(hi))

    def some(self, pred, hi, lo=0):
        """fork: some element in [lo, hi) satisfies pred, or none does -> bool"""
        s = self.seg.sub(zi(lo), zi(hi))
        return self.lst()._pick(s, pred, "any", "any") is not None

    def last(self, pred, hi, lo=0):
        s = self.seg.sub(zi(lo), zi(hi))
        return self.lst()._pick(s, pred, "last", "last")

    def first(self, pred, hi, lo=0):
        s = self.seg.sub(zi(lo), zi(hi))
        return self.lst()._pick(s, pred, "first", "first")

    def lst(self):
        return VList([self.seg])

    @property
    def mutated(self):
        """names of the local containers the loop changes in place"""
        return [n[1:] for n in self.names if n[0] == "*"]

    @property
    def assigned(self):
        """names of the locals the loop assigns"""
        return [n for n in self.names if n[0] != "*"]

    def prefix(self, i):
        """the elements visited before iteration i, as a list"""
        return VList([self.seg.sub(self.seg.lo, zi(i))])

    def allow(self, obj, *attrs):
        self.allowed.append((obj, attrs))

    def leave(self):
        if self.active:
            self.active = False
            st = core.C.loop_stack
            if self in st:
                st.remove(self)

    def on_write(self, o, name):
        if not self.active:
            return
        fr = sys._getframe(2)
        while fr is not None and fr is not self.frame:
            fr = fr.f_back
        if fr is None:
            self.active = False
            return
        if id(o) in core.C.fresh_objs and id(o) not in self.pre:
            return
        f = sys._getframe(3)
        if f.f_code.co_name == "__init__" and f.f_locals.get("self") is o:
            return
        for obj, attrs in self.allowed:
            if obj is o and (not attrs or name is None or name in attrs):
                return
        if getattr(o, "_ghost_ok", False):
            return
        # harmless if the loop is left in this iteration
        self.outside = f"write to {type(o).__name__}.{name} outside the frame of loop contract {self.site}"

    def next_iteration(self, i):
        """the generic iteration is over and the loop goes on: its frame and invariant must hold"""
        self.active = False
        if self.outside:
            raise Unsupported(self.outside)
        self.contract.check(self, i)
        core.C.done()

    def havoc(self, *names):
        raise NotImplementedError


def havoced(loop, vals, names):
    """new values of the loop's locals; "*x" is a container mutated in place: unless described it stays, and writes to it are
    refused by the frame condition"""
    loc = loop.frame.f_locals
    out = []
    for n in names:
        if n[0] == "*":
            n = n[1:]
            if n in vals:
                loop.allow(vals[n])
            out.append(vals[n] if n in vals else loc.get(n, UNDEF))
        else:
            out.append(vals[n] if n in vals else UNDEF)
    return tuple(out)


class LoopIter(LoopBase):
    is_async = False

    def __init__(self, site, x):
        super().__init__(site)
        if hasattr(x, "_verif_items"):
            x = x._verif_items()
        if isinstance(x, SeqGen):
            x = x.to_list()
        self.x = x
        if self.contract is not None and isinstance(x, VList) and x.is_abstract:
            self.seg = flatten(x)
            self.cut = True
            self.frame = self._frame(2)
            self.n = self.seg.hi
        self.state = 0

    def havoc(self, *names):
        c = core.C
        self.names = names
        self.start(self._frame(1))
        if self.generic:
            i = c.fresh("i", "i")
            c.assume_z(z3.And(i >= self.seg.lo, i < self.seg.hi))
            self.i = i
            vals = self.contract.gen(self, SInt(i)) or {}
            if c._check() == z3.unsat:
                c.done()
        else:
            c.assume_z(self.seg.hi >= self.seg.lo)
            vals = self.contract.gen(self, mkint(self.seg.hi)) or {}
        return havoced(self, vals, names)

    def __iter__(self):
        if self.cut:
            return self
        from . import rt
        x = self.x
        if isinstance(x, SText):
            if x.py is bytes:
                raise Unsupported("iteration over symbolic bytes")
            return iter_chars(x)
        return iter(rt.it(x))

    def __next__(self):
        c = core.C
        if not self.generic:
            raise StopIteration
        if self.state == 0:
            self.state = 1
            outs = self.seg.outs(self.i)
            if not outs:
                self.contract.check(self, mkint(self.i + 1))
                c.done()
            if len(outs) > 1:
                raise Unsupported("several outputs per element in a cut loop")
            self.active = True
            c.loop_stack.append(self)
            return outs[0]
        self.next_iteration(mkint(self.i + 1))


def iter_chars(x):
    c = core.C
    n = 0
    while True:
        if not bool(x.slen() > n):
            return
        if n >= c.loop_max:
            raise Unsupported("iteration over characters beyond the unrolling limit")
        yield x[n]
        n += 1


class AsyncLoopIter(LoopBase):
    """async for: over real async iterables, or cut by contract (the iterable is then an AsyncAbs)"""

    def __init__(self, site, x):
        super().__init__(site)
        self.x = x
        self.state = 0
        if self.contract is not None and isinstance(x, AsyncAbs) and x.seq.is_abstract:
            self.seg = flatten(x.seq)
            self.cut = True
            self.n = self.seg.hi
        if isinstance(x, AsyncAbs) and not self.cut:
            self.x = x.native()

    havoc = LoopIter.havoc

    def __aiter__(self):
        if self.cut:
            return self
        return self.x.__aiter__()

    def __anext__(self):
        return self._anext()

    async def _anext(self):
        try:
            return LoopIter.__next__(self)
        except StopIteration:
            pass
        if self.x.end is not None:
            raise self.x.end
        raise StopAsyncIteration


class AsyncAbs:
    """async iterable over a (possibly abstract) list, which then ends or raises"""

    def __init__(self, seq, end=None):
        self.seq = seq if isinstance(seq, VList) else VList(list(seq))
        self.end = end

    def native(self):
        items = self.seq.concrete_items()

        async def g():
            for e in items:
                yield e
            if self.end is not None:
                raise self.end
        return g()

    def __aiter__(self):
        return self.native().__aiter__()


class WhileLoop(LoopBase):
    def __init__(self, site):
        super().__init__(site)
        self.n = 0
        if self.contract is not None and self.contract.applies(self):
            self.cut = True

    def havoc(self, *names):
        c = core.C
        self.names = names
        self.start(self._frame(1))
        i = c.fresh("i", "i")
        c.assume_z(i >= 0)
        self.i = i
        vals = self.contract.gen(self, SInt(i)) or {}
        if c._check() == z3.unsat:
            c.done()
        self.active = True
        c.loop_stack.append(self)
        self.havoced = True
        return havoced(self, vals, names)

    def step(self):
        c = core.C
        self.n += 1
        if self.cut:
            if self.n == 1:
                if not getattr(self, "havoced", False):
                    self.havoc()
                return True
            self.frame = sys._getframe(1)
            self.next_iteration(mkint(self.i + 1))
        if c is not None and self.n > 400:
            raise Unsupported("loop unrolled beyond the limit")
        return True


class Loop:
    """base class of loop contracts"""

    def applies(self, L):
        return True

    def gen(self, L, i):
        return {}

    def check(self, L, i):
        pass
