"""C21: multi-dicts and query parameters."""
from urllib.parse import unquote_plus

from starlette.datastructures import FormData, ImmutableMultiDict, MultiDict, QueryParams

from contracts.common import *

KEYS = ["a", "b", "c", "", "a b"]
VALS = ["1", "2", "", "x&y=z", "\xe9+%"]


def a_pair(c, n):
    return (c.str(n + ".key", ex=KEYS), c.str(n + ".value", ex=VALS))


def items_of(c, name="items"):
    return c.list(name, a_pair)


def values_of(items, key):
    return mapped(kept(items, lambda p: p[0] == key), lambda p: p[1])


def aspect(c, *names):
    """what is judged on this path (each path of a proof judges one thing, for every input)"""
    return [c.choose("aspect", list(names))] if c.mode == "proof" else names


def invariant(c, d, items, key, label, aspects=()):
    """the single-value view at any key is the last value of that key among the items"""
    if "getlist" in aspects:
        same_list(c, f"{label}: getlist has the key's values in order", d.getlist(key), values_of(items, key))
    if not set(aspects) & {"in", "keys", "get", "item"}:
        return
    last = seq_last(items, lambda p: p[0] == key)
    if "in" in aspects:
        c.check(f"{label}: exactly the keys of the item list", (key in d) == (last is not None), (items, key))
    if "keys" in aspects:
        c.check(f"{label}: keys() too", (key in d.keys()) == (last is not None), (items, key))
    if "get" in aspects:
        got = d.get(key)
        c.check(f"{label}: the last value of each key", got is None if last is None else got is not None and got == last[1], (items, key))
    if "item" in aspects:
        try:
            v = d[key]
        except KeyError:
            v = None
        c.check(f"{label}: item access the same", v is None if last is None else v is not None and v == last[1], (items, key))


VIEWS = ("in", "keys", "get", "item", "getlist")


class Plain(Pairs):
    pass


def construction(c):
    """from a list, a mapping, another multi-dict, keywords"""
    items = items_of(c)
    cls = c.choose("class", [ImmutableMultiDict, MultiDict, QueryParams, FormData])
    kind = c.choose("from", ["list", "mapping", "multidict", "nothing", "keywords", "list and keywords"])
    if kind == "list":
        d = cls(items)
    elif kind == "mapping":
        if c.mode == "concrete":
            m = dict(items)
            items = list(m.items())
            d = cls(m)
        else:
            d = cls(Plain(items))
    elif kind == "multidict":
        src = MultiDict(items)
        d = cls(src)
        src.append("x", "later")
        src.poplist("a")
    elif kind == "nothing":
        items = []
        d = cls()
    elif kind == "keywords":
        v = c.str("keyword value", ex=VALS)
        items = [("a", v), ("kw", "2")]
        d = cls(a=v, kw="2")
    else:
        v = c.str("keyword value", ex=VALS)
        d = cls(items, a=v)
        items = items + [("a", v)]
    asp = aspect(c, "items", *VIEWS)
    if "items" in asp:
        same_list(c, "the items in order", d.multi_items(), items)
    invariant(c, d, items, c.str("any key", ex=KEYS), "new", asp)


class Ops:
    """operations of the mutable multi-dict: run it, then state what changed"""


def step(c):
    """every operation, from any state, keeps both views consistent and changes only the named keys"""
    before = items_of(c)
    d = MultiDict(before)
    before = d.multi_items()
    key = c.str("key", ex=KEYS)
    value = c.str("value", ex=VALS)
    op = c.choose("operation", ["set", "setlist", "pop", "pop default", "poplist", "popitem", "setdefault", "append", "delete", "clear"])
    had = seq_any(before, lambda p: p[0] == key)
    old_last = seq_last(before, lambda p: p[0] == key)
    last = old_last[1] if old_last is not None else None
    named = key                                       # the key whose values may change
    want = None                                       # its new values
    if op == "set":
        d[key] = value
        want = [value]
    elif op == "setlist":
        values = c.list("values", lambda c, n: c.str(n, ex=VALS))
        d.setlist(key, values)
        want = values
    elif op in ("pop", "pop default"):
        got = d.pop(key) if op == "pop" else d.pop(key, value)
        if had:
            c.check("pop returns the key's single value", got is not None and got == last, (got, last))
        else:
            c.check("pop returns the default for an absent key", got is None if op == "pop" else got == value, got)
        want = []
    elif op == "poplist":
        got = d.poplist(key)
        same_list(c, "poplist returns all values of the key in order", got, values_of(before, key))
        want = []
    elif op == "popitem":
        try:
            named, got = d.popitem()
        except KeyError:
            c.check("popitem fails only on an empty multi-dict", not seq_any(before, lambda p: True))
            same_list(c, "nothing changed", d.multi_items(), before)
            return
        l = seq_last(before, lambda p: p[0] == named)
        c.check("popitem removes a present key", l is not None, named)
        c.check("popitem returns its single value", got == l[1], (named, got))
        want = []
    elif op == "setdefault":
        got = d.setdefault(key, value)
        c.check("setdefault returns the effective value", got is not None and got == (last if had else value), (got, last))
        want = values_of(before, key) if had else [value]
    elif op == "append":
        d.append(key, value)
        want = values_of(before, key) + [value]
    elif op == "delete":
        try:
            del d[key]
            gone = True
        except KeyError:
            gone = False
        c.check("deleting an absent key is an error, a present one is not", gone == had, (key, before))
        want = []
    else:
        d.clear()
        same_list(c, "clear removes everything", d.multi_items(), [])
        c.check("clear empties the single-value view", key not in d and len(d) == 0)
        return
    after = d.multi_items()
    asp = aspect(c, "named", "others", "in", "get")            # the other views of any state: construction
    if "named" in asp:
        same_list(c, f"{op}: the named key has exactly its new values", d.getlist(named), want, (op, before, named))
    if "others" in asp:
        same_list(c, f"{op}: the other items are unchanged and in order", kept(after, lambda p: p[0] != named), kept(before, lambda p: p[0] != named), (op, before, named))
    invariant(c, d, after, c.str("any key", ex=KEYS), op, asp)


def update(c):
    """update() with any other multi-dict, mapping, list or keywords"""
    before = items_of(c)
    d = MultiDict(before)
    before = d.multi_items()
    new = items_of(c, "new")
    how = c.choose("with", ["list", "multidict", "mapping", "nothing", "keywords"])
    if how == "list":
        d.update(new)
    elif how == "multidict":
        d.update(MultiDict(new))
    elif how == "mapping":
        if c.mode == "concrete":
            m = dict(new)
            new = list(m.items())
            d.update(m)
        else:
            d.update(Plain(new))
    elif how == "nothing":
        new = []
        d.update()
    else:
        v = c.str("keyword value", ex=VALS)
        new = [("a", v)]
        d.update(a=v)
    after = d.multi_items()
    named = lambda p: seq_any(new, lambda q: q[0] == p[0])
    other = lambda p: not named(p)
    asp = aspect(c, "named", "others", "in", "get")
    if "others" in asp:
        same_list(c, "update: the other items are unchanged and in order", kept(after, other), kept(before, other), (before, new))
    if "named" in asp:
        same_list(c, "update: the named keys have exactly their new values", kept(after, named), new, (before, new))
    invariant(c, d, after, c.str("any key", ex=KEYS), "update", asp)


def history(c):
    """the same, observed on short histories of operations"""
    c.bound("histories of 2 operations over lists of at most 1 item and two key names")
    key = lambda n: c.choose(n, ["a", "b"])
    items = c.list("items", lambda c, n: (c.choose(n + ".key", ["a", "b"]), c.choose(n + ".value", ["1", "2"])), max=1 if c.symbolic else 3, proof=False)
    d = MultiDict(items)
    model = list(items)
    for n in range(2):
        k, v = key(f"key {n}"), f"v{n}"
        op = c.choose(f"operation {n}", ["set", "pop", "popitem", "append", "setdefault", "update", "setlist"])
        rest = [p for p in model if p[0] != k]
        if op == "set":
            d[k] = v
            model = rest + [(k, v)]
        elif op == "pop":
            d.pop(k)
            model = rest
        elif op == "popitem":
            if model:
                k, _ = d.popitem()
                model = [p for p in model if p[0] != k]
        elif op == "append":
            d.append(k, v)
            model = model + [(k, v)]
        elif op == "setdefault":
            d.setdefault(k, v)
            if len(rest) == len(model):
                model = model + [(k, v)]
        elif op == "update":
            d.update([(k, v), (k, "z")])
            model = rest + [(k, v), (k, "z")]
        else:
            d.setlist(k, [v, "y"])
            model = rest + [(k, v), (k, "y")]
    for k in ("a", "b", "q"):
        vs = [x for kk, x in model if kk == k]
        c.check("history: single-value view", (k in d) == bool(vs) and (not vs or d[k] == vs[-1]), (model, k))
        c.check("history: values", d.getlist(k) == vs, (model, k))
    c.check("history: keys", sorted(d.keys()) == sorted({kk for kk, x in model}) and len(d) == len({kk for kk, x in model}), model)
    c.check("history: items() and values() agree with the keys", dict(d.items()) == {k: d[k] for k in d} and list(d.values()) == [d[k] for k in d.keys()])


class ParseLoop(Loop):
    """the standard library's query scan: the non-empty pieces seen so far, as decoded pairs"""

    def init(self, L):
        if len(L.mutated) != 1:
            self.c.give_up("parse_qsl does not build one list")
        self.var = L.mutated[0]

    def gen(self, L, i):
        return {self.var: decoded(L.prefix(i))}

    def check(self, L, i):
        same_list(self.c, "inv: the decoded pieces so far", L.vars[self.var], decoded(L.prefix(i)))


def decoded(pieces):
    return mapped(kept(pieces, lambda p: p != ""), one_pair)


def one_pair(piece):
    k, _, v = piece.partition("=")
    return (unquote_plus(k), unquote_plus(v))


class EncodeLoop(Loop):
    """the standard library's query assembly: one "key=value" piece per item so far"""

    def init(self, L):
        if len(L.mutated) != 1:
            self.c.give_up("urlencode does not build one list")
        self.var = L.mutated[0]

    def gen(self, L, i):
        return {self.var: encoded(L.prefix(i))}

    def check(self, L, i):
        same_list(self.c, "inv: the encoded items so far", L.vars[self.var], encoded(L.prefix(i)))


def encoded(items):
    from urllib.parse import quote_plus
    return mapped(items, lambda p: quote_plus(p[0]) + "=" + quote_plus(p[1]))


def query_loops(c):
    c.loop("spec_urllib_parse:parse_qsl#0", ParseLoop())
    c.loop("spec_urllib_parse:urlencode#0", EncodeLoop())


QUERIES = ["", "a=1", "a=1&b=2&a=3", "a", "a=&b", "&&", "a+b=%20x", "=1", "a=b=c", "a;b=1", "caf%C3%A9=%e9"]


def query_parsing(c):
    """any query string of any number of pieces"""
    query_loops(c)
    text = c.str("query", ex=QUERIES, alpha=LATIN1)
    if c.bool("bytes"):
        q = QueryParams(text.encode("latin-1"))
    else:
        q = QueryParams(text)
    want = decoded(text.split("&"))
    asp = aspect(c, "items", "get")
    if "items" in asp:
        same_list(c, "one item per non-empty piece, decoded, blank values kept", q.multi_items(), want, text)
    invariant(c, q, want, c.str("any key", ex=KEYS), "query", asp)


def query_round_trip(c):
    """any items: encoded and parsed again"""
    query_loops(c)
    items = items_of(c)
    q = QueryParams(items)
    again = QueryParams(str(q))
    same_list(c, "re-encoding and parsing gives the same items", again.multi_items(), q.multi_items(), items)


def query_equal(c):
    """query parameters given in several ways are equal"""
    c.bound("one item")
    items = c.list("items", lambda c, n: (c.choose(n + ".key", ["a", "b c"]), c.choose(n + ".value", ["1", "&"])), max=1 if c.symbolic else 3, proof=False)
    q = QueryParams(items)
    c.check("a re-encoded query is an equal multi-dict", QueryParams(str(q)) == q, items)
    c.check("non-string values are stored as strings", QueryParams([("n", 5)])["n"] == "5" and QueryParams([("n", 5)]).multi_items() == [("n", "5")])
    other = c.list("other", lambda c, n: (c.choose(n + ".key", ["a", "b c"]), c.choose(n + ".value", ["1", "&"])), max=1 if c.symbolic else 3, proof=False)
    c.check("equality is equality of items", (MultiDict(items) == MultiDict(other)) == (sorted(items) == sorted(other)), (items, other))


HARNESSES = [construction, step, update, history, query_parsing, query_round_trip, query_equal]
OPTS = {"step": {"budget": 200}, "query_parsing": {"budget": 200}, "history": {"budget": 60}}
