"""C22: header lookup and mutation."""
import typing

from starlette.datastructures import Headers, MutableHeaders

from contracts.common import *

DS = "starlette.datastructures:"
KEYS = ["a", "A", "X-A", "x-a", "Vary", "b", "missing"]
VALUES = ["", "1", "new", "Accept, x", "caf\xe9"]


def a_key(c, name="key"):
    return c.str(name, re=TOKEN, alpha=ASCII, ex=KEYS)


def a_value(c, name="value"):
    return c.str(name, alpha=LATIN1, ex=VALUES)


def lookups(c, key):
    """loops that search the header list for a name"""
    k = low(key)
    c.loop(DS + "Headers.__getitem__#0", FirstMatch(lambda p: p[0] == k))
    c.loop(DS + "Headers.__contains__#0", FirstMatch(lambda p: p[0] == k))
    return k


def lookup(c):
    """lookup, membership and multi-value access over any headers"""
    raw = raw_list(c)
    key = a_key(c)
    k = lookups(c, key)
    h = c.choose("class", [Headers, MutableHeaders])(raw=raw)
    first = seq_first(raw, lambda p: p[0] == k)
    what = c.choose("question", ["item", "get", "in", "getlist", "views", "raw"])
    if what == "item":
        try:
            v = h[key]
        except KeyError:
            v = None
        c.check("[]: the first value of the name, whatever its case", v is None if first is None else v is not None and v == first[1].decode("latin-1"), (key, raw))
    elif what == "get":
        v = h.get(key)
        c.check("get: the first value of the name", v is None if first is None else v is not None and v == first[1].decode("latin-1"), (key, raw))
        if first is None:
            c.check("get: else the default", h.get(key, "dflt") == "dflt")
    elif what == "in":
        c.check("in: exactly the names of the list", (key in h) == (first is not None), (key, raw))
    elif what == "getlist":
        same_list(c, "getlist: all values of the name in order", h.getlist(key), mapped(h_values(raw, k), lambda v: v.decode("latin-1")))
    elif what == "views":
        dec = mapped(raw, lambda p: (p[0].decode("latin-1"), p[1].decode("latin-1")))
        same_list(c, "items(): all headers in order", h.items(), dec)
        same_list(c, "keys(): all names in order", h.keys(), mapped(dec, lambda p: p[0]))
        same_list(c, "values(): all values in order", h.values(), mapped(dec, lambda p: p[1]))
        c.check("len counts every header", len(h) == c.length(raw))
    else:
        same_list(c, "raw: the stored headers", h.raw, raw)


def construction(c):
    """headers from mappings, raw lists and scopes"""
    kind = c.choose("from", ["mapping", "scope", "raw"])
    key = a_key(c)
    k = lookups(c, key)
    if kind == "mapping":
        pairs = c.list("mapping", lambda c, n: (c.str(n + ".name", re=TOKEN, alpha=ASCII, ex=KEYS), c.str(n + ".value", alpha=LATIN1, ex=VALUES)))
        if c.mode == "concrete":
            d = dict(pairs)
            pairs = list(d.items())
        else:
            d = Pairs(pairs)
        h = Headers(d)
        want = mapped(pairs, lambda p: (low(p[0]), p[1].encode("latin-1")))
        same_list(c, "stored names are lower-case, order and values kept", h.raw, want)
        got = seq_first(want, lambda p: p[0] == k)
        c.check("found under any case", h.get(key) == got[1].decode("latin-1") if got is not None else h.get(key) is None, key)
        return
    raw = raw_list(c)
    if kind == "scope":
        scope = {"headers": raw}
        h = Headers(scope=scope)
        same_list(c, "the scope's headers", h.raw, raw)
        same_list(c, "still the scope's headers", scope["headers"], raw)
        m = MutableHeaders(scope=scope)
        m.append("x-new", "1")
        same_list(c, "mutable headers over a scope write to the scope", scope["headers"], raw + [(b"x-new", b"1")])
        same_list(c, "earlier views are independent", h.raw, raw)
    else:
        h = Headers(raw=raw)
        before = list(raw)
        op = c.choose("copy", ["mutablecopy", "raw", "or"])
        if op == "mutablecopy":
            m = h.mutablecopy()
            same_list(c, "a copy has the same headers", m.raw, before)
            m.append(key, "1")
            m.raw.append((b"other", b"1"))
        elif op == "raw":
            h.raw.append((b"other", b"1"))
        else:
            g = MutableHeaders(raw=raw)
            m = g | {}
            same_list(c, "a union with nothing has the same headers", m.raw, before)
            m.append(key, "1")
            same_list(c, "the operand of a union is unchanged", g.raw, before)
        same_list(c, "copies are independent", h.raw, before)


class Indexes(Loop):
    """the list built holds the positions of the headers of this name among those visited"""

    def __init__(self, k):
        self.k = k

    def init(self, L):
        if len(L.mutated) != 1:
            self.c.give_up("the loop does not build one list")
        self.var = L.mutated[0]

    def spec(self, L, i):
        return mapped(kept(L.prefix(i), lambda e: e[1][0] == self.k), lambda e: e[0])

    def gen(self, L, i):
        return {self.var: self.spec(L, i)}

    def check(self, L, i):
        same_list(self.c, "inv: the positions of the name's headers so far", L.vars[self.var], self.spec(L, i))


class Deletions(Loop):
    """positions are removed from the last to the first: behind the position reached no header of this name is left"""

    def __init__(self, k, orig):
        self.k, self.orig = k, orig

    def init(self, L):
        self.list = getattr(L.vars["self"], "_list", None)
        if self.list is None:
            self.c.give_up("no header list")

    def spec(self, i):
        n = self.c.length(self.orig)
        return self.orig[:n - i] + h_del(self.orig[n - i:], self.k)

    def gen(self, L, i):
        self.list[:] = self.spec(i)
        L.allow(self.list)

    def check(self, L, i):
        same_list(self.c, "inv: only later headers of the name are removed", self.list, self.spec(i))


def mutators(c, key, raw):
    k = lookups(c, key)
    orig = list(raw)
    for m in ("__setitem__", "__delitem__"):
        c.loop(DS + f"MutableHeaders.{m}#0", Indexes(k))
        c.loop(DS + f"MutableHeaders.{m}#1", Deletions(k, orig))
    c.loop(DS + "MutableHeaders.setdefault#0", FirstMatch(lambda e: e[1][0] == k))
    return k


def setting(c):
    """item assignment over any headers"""
    raw = raw_list(c)
    before = list(raw)
    key, value = a_key(c), a_value(c)
    k = mutators(c, key, raw)
    h = MutableHeaders(raw=raw)
    h[key] = value
    same_list(c, "set: one entry at the position of the first old one, else at the end; others unchanged", h.raw,
              h_set(before, k, value.encode("latin-1")), (before, key))


def deleting(c):
    """deletion over any headers"""
    raw = raw_list(c)
    before = list(raw)
    key = a_key(c)
    k = mutators(c, key, raw)
    h = MutableHeaders(raw=raw)
    del h[key]
    same_list(c, "delete: all entries of the name are gone, others unchanged", h.raw, h_del(before, k), (before, key))


def adding(c):
    """append and setdefault"""
    raw = raw_list(c)
    before = list(raw)
    key, value = a_key(c), a_value(c)
    k = mutators(c, key, raw)
    h = MutableHeaders(raw=raw)
    v = value.encode("latin-1")
    if c.bool("append"):
        h.append(key, value)
        same_list(c, "append adds one entry at the end", h.raw, before + [(k, v)])
    else:
        got = h.setdefault(key, value)
        old = seq_first(before, lambda p: p[0] == k)
        if old is None:
            c.check("setdefault returns the new value", got == value)
            same_list(c, "setdefault adds an absent name at the end", h.raw, before + [(k, v)])
        else:
            c.check("setdefault returns the present value", got == old[1].decode("latin-1"))
            same_list(c, "setdefault leaves a present name alone", h.raw, before)


def set_by_contract(c, log=None):
    """callers of item assignment see its contract (proved above)"""
    def set_(self, key, value):
        self._list[:] = h_set(list(self._list), low(key), value.encode("latin-1"))
        if log is not None:
            log.append((key, value))
    if c.mode == "proof":
        c.stub(DS + "MutableHeaders.__setitem__", set_)


def vary(c):
    """Vary additions"""
    raw = raw_list(c)
    before = list(raw)
    lookups(c, "vary")
    token = c.str("token", re=TOKEN, alpha=ASCII, ex=["Origin", "Accept-Encoding"])
    set_by_contract(c)
    h = MutableHeaders(raw=raw)
    h.add_vary_header(token)
    old = seq_first(before, lambda p: p[0] == b"vary")
    want = token if old is None else old[1].decode("latin-1") + ", " + token
    same_list(c, "vary: tokens added to the existing ones", h.raw, h_set(before, b"vary", want.encode("latin-1")))


class Updates(Loop):
    """the pairs are set one after another, in order"""

    def __init__(self, log, pairs):
        self.log, self.pairs = log, pairs

    def gen(self, L, i):
        self.log[:] = [("so far", i)]
        L.allow(self.log)
        L.allow(L.vars["self"])

    def check(self, L, i):
        if not getattr(L, "i", None) is not None or not L.generic:
            self.c.check("inv: nothing set yet", self.log == [])
            return
        e = L.seg.outs(L.i)[0]
        self.c.check("exactly this pair is set", len(self.log) == 2 and self.log[1] == e, (self.log, e))


class Log:
    _ghost_ok = True

    def __init__(self):
        self.log = []


def updating(c):
    """update, |= and |: every pair is set, in order"""
    raw = raw_list(c)
    before = list(raw)
    pairs = c.list("pairs", lambda c, n: (c.str(n + ".name", re=TOKEN, alpha=ASCII, ex=KEYS), c.str(n + ".value", alpha=LATIN1, ex=VALUES)))
    if c.mode == "concrete":
        pairs = list(dict(pairs).items())
    other = Other(pairs)
    how = c.choose("how", ["update", "|=", "|"])
    h = MutableHeaders(raw=raw)
    log = []
    if c.mode == "proof":
        def set_(self, key, value):
            log.append((key, value))
        c.stub(DS + "MutableHeaders.__setitem__", set_)
        c.loop(DS + "MutableHeaders.update#0", Updates(log, pairs))
    g = h
    if how == "update":
        h.update(other)
    elif how == "|=":
        g |= other
    else:
        g = h | other
    c.check("the updated headers", (g is h) == (how != "|"))
    if c.mode == "proof":
        # exit of the loop: all pairs were set in order
        c.check("every pair is set", log == [("so far", c.length(pairs))], log)
        if how == "|":
            same_list(c, "the operand of a union is unchanged", h.raw, before)
        return
    want = before
    for k, v in pairs:
        want = h_set(want, low(k), v.encode("latin-1"))
    same_list(c, "every pair set in order", g.raw, want)
    if how == "|":
        same_list(c, "the operand of a union is unchanged", h.raw, before)


class Other(Pairs, typing.Mapping):
    def __len__(self):
        return len(self.pairs)


def not_a_mapping(c):
    """|= with something else is refused"""
    h = MutableHeaders(raw=raw_list(c, names=None))
    before = list(h.raw)
    other = c.choose("operand", [None, 1, [("a", "b")], "a=b"])
    ok = False
    try:
        if c.bool("in place"):
            h |= other
        else:
            h | other
    except TypeError:
        ok = True
    c.check("only mappings can be merged", ok)
    same_list(c, "headers unchanged", h.raw, before)


def equality(c):
    """headers are equal when they hold the same items"""
    a = c.list("a", lambda c, n: (c.choose(n + ".name", [b"a", b"b"]), c.choose(n + ".value", [b"1", b"2"])), max=3, proof=False)
    b = c.list("b", lambda c, n: (c.choose(n + ".name", [b"a", b"b"]), c.choose(n + ".value", [b"1", b"2"])), max=3, proof=False)
    c.check("== compares the items", (Headers(raw=a) == Headers(raw=b)) == (sorted(a) == sorted(b)), (a, b))


HARNESSES = [lookup, construction, setting, deleting, adding, vary, updating, not_a_mapping, equality]
