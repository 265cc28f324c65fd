"""What contract modules import from the engine; works in symbolic and concrete runs."""
from __future__ import annotations

try:
    from . import seq as _seq
    from . import core as _core
except Exception:                                         # concrete worker without z3 on its path
    _seq = _core = None


class Loop:
    """base class of loop contracts: init(L), gen(L, i) -> havoced locals, check(L, i)"""
    c = None

    def applies(self, L):
        return True

    def gen(self, L, i):
        return {}

    def check(self, L, i):
        pass


def seq_any(xs, pred):
    """some element satisfies pred (forks on abstract sequences)"""
    if _seq is not None and isinstance(xs, _seq.VList):
        return xs.exists(pred)
    for x in xs:
        if pred(x):
            return True
    return False


def seq_first(xs, pred):
    """first element satisfying pred, or None"""
    if _seq is not None and isinstance(xs, _seq.VList):
        r = xs.find_first(pred)
        return None if r is None else r[0]
    for x in xs:
        if pred(x):
            return x
    return None


def seq_last(xs, pred):
    if _seq is not None and isinstance(xs, _seq.VList):
        r = xs.find_last(pred)
        return None if r is None else r[0]
    for x in reversed(list(xs)):
        if pred(x):
            return x
    return None


def raises(f, *types):
    """-> (raised one of types, exception or result)"""
    try:
        return False, f()
    except types as e:
        return True, e


def internal(c, owner, name, *args):
    """a non-public function under contract; the contract does not apply if the function is gone or takes other arguments"""
    import inspect
    f = getattr(owner, name, None)
    if f is None:
        c.done()
    try:
        inspect.signature(f).bind(*args)
    except (TypeError, ValueError):
        c.done()
    return f


def mapping(pairs):
    """dict(pairs) of a possibly abstract list of pairs (last one wins)"""
    if _seq is not None and isinstance(pairs, _seq.VList) and pairs.is_abstract:
        return _seq.VDict.from_abstract(pairs)
    if _seq is not None and _core.C is not None:
        return _seq.VDict(list(pairs))
    return dict(pairs)


def mapped(xs, f):
    if _seq is not None and isinstance(xs, _seq.VList):
        return xs.map(f)
    return [f(x) for x in xs]


def kept(xs, pred):
    if _seq is not None and isinstance(xs, _seq.VList):
        return xs.filter(pred)
    return [x for x in xs if pred(x)]


def around(c, key, pairs):
    """a dictionary of which only the entry of `key` is known: exactly `pairs` (at most one pair (key, value)); its other
    entries are arbitrary"""
    import z3
    n = c.fresh("others", "i")
    c.assume_z(n >= 0)
    cnt = [0]

    def at(i):
        cnt[0] += 1
        k, v = _core.SStr(c.fresh("okey"), _core.ANY), _core.SStr(c.fresh("oval"), _core.ANY)
        c.assume(k != key)
        return (k, v)
    memo = {}

    def once(i):
        return memo.setdefault(i.get_id(), (i, at(i)))[1]
    base = _seq.BaseSeq(c, "others", n, at=once)
    d = _seq.VDict()
    d._log = [_seq.Seg(base, z3.IntVal(0), n)] + list(pairs)
    return d


def same_list(c, label, a, b, info=""):
    """obligation: both lists have the same items in the same order"""
    if _seq is not None and _core.C is not None and (isinstance(a, (_seq.VList, _seq.SeqGen)) or isinstance(b, (_seq.VList, _seq.SeqGen))):
        _seq.same_list(c, label, a, b, info)
        return
    a, b = list(a), list(b)
    c.check(label, len(a) == len(b), info or (a, b))
    c.check(label, c.all([x == y for x, y in zip(a, b)]), info or (a, b))


def cut_first(xs, pred):
    """-> (before, item, after) at the first item satisfying pred, or None"""
    if _seq is not None and isinstance(xs, _seq.VList):
        return xs.cut_first(pred)
    for k, x in enumerate(xs):
        if pred(x):
            return list(xs[:k]), x, list(xs[k + 1:])
    return None


class FirstMatch(Loop):
    """a loop that leaves at the first element satisfying pred, changing lists at most on leaving"""

    def __init__(self, pred):
        self.pred = pred

    def init(self, L):
        self.snap = {}
        for n in L.mutated:
            v = L.vars.get(n)
            if isinstance(v, list) or _seq is not None and isinstance(v, _seq.VList):
                self.snap[n] = v.copy()

    def gen(self, L, i):
        L.none(self.pred, i)
        return {n: L.vars[n] for n in self.snap}

    def check(self, L, i):
        if getattr(L, "i", None) is not None and L.generic:
            for e in L.seg.outs(L.i):
                self.c.check("inv: earlier elements do not match", self.c.not_(self.pred(e)))
            for n, old in self.snap.items():
                same_list(self.c, "inv: lists change only on leaving", L.vars[n], old)
