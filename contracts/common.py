"""Shared vocabulary of the contracts: message recorders, scopes, input shapes."""
from __future__ import annotations

from urllib.parse import quote

from engine.contract import FirstMatch, Loop, cut_first, kept, mapped, mapping, same_list, seq_any, seq_first, seq_last

TOKEN = r"[!#$%&'*+.^_`|~0-9A-Za-z-]+"
LTOKEN = r"[!#$%&'*+.^_`|~0-9a-z-]+"       # header names as ASGI servers send them: lower-case
HOSTNAME = r"[A-Za-z0-9]([A-Za-z0-9.-]*[A-Za-z0-9])?"
PATH_TAIL = r"[!$&-.0-9:;=@A-Z_a-z~/%-]*"        # below a leading "/": no "?", "#", controls or spaces
QUERY = r"[!$&-.0-9:;=?@A-Z_a-z~/%+-]*"
URL_SAFE = ":/%#?=@[]!$&'()*+,;"


class Recorder:
    """the server's side of `send`: records every message"""

    def __init__(self):
        self.sent = []

    async def __call__(self, message):
        self.sent.append(message)


async def no_receive():
    raise AssertionError("receive() called")


class App:
    """an application that records its calls and optionally responds"""

    def __init__(self):
        self.calls = []

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive, send))


def hdr(headers, name):
    """all values of a raw header"""
    return [v for k, v in headers if k == name]


def one_response(c, label, sent, prefix=""):
    """exactly one start and one final body message -> (status, headers, body)"""
    c.check(f"{label}: exactly one start and one body message", len(sent) == 2, sent)
    c.check(f"{label}: start comes first", sent[0]["type"] == prefix + "http.response.start", sent)
    c.check(f"{label}: body comes second", sent[1]["type"] == prefix + "http.response.body", sent)
    c.check(f"{label}: body message is final", not sent[1].get("more_body", False), sent)
    return sent[0]["status"], sent[0]["headers"], sent[1].get("body", b"")


def implies(a, b):
    return (not a) or b


ASCII, LATIN1 = 0, 1


class Pairs:
    """a caller's mapping given by its list of items (names distinct)"""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return self.pairs

    def keys(self):
        return [k for k, v in self.pairs]

    def values(self):
        return [v for k, v in self.pairs]

    def __iter__(self):
        return iter(self.keys())

    def __getitem__(self, key):
        for k, v in self.pairs:
            if k == key:
                return v
        raise KeyError(key)

    def get(self, key, default=None):
        for k, v in self.pairs:
            if k == key:
                return v
        return default

    def __contains__(self, key):
        return any(k == key for k, v in self.pairs)


def caller_headers(c, name="headers"):
    """headers=... of a response: None or any mapping of Latin-1 texts -> (argument, list of pairs)"""
    if not c.bool(name + " given"):
        return None, []
    pairs = c.list(name, lambda c, n: (c.str(n + " name", re=TOKEN, alpha=ASCII, ex=["X-A", "x-a", "Content-Type", "content-length", "Vary", "ETag"]),
                                       c.str(n + " value", alpha=LATIN1, ex=["", "v", "text/x", "7"])))
    if c.mode == "concrete":
        d = dict(pairs)
        return d, list(d.items())
    return Pairs(pairs), pairs


# ---- headers: the contract of the mutable header list (proved of the real methods in c22, assumed by their callers' contracts)
def low(name):
    """a header name as it is stored"""
    return name.lower().encode("latin-1")


def raw_list(c, name="headers", names=None):
    """any raw header list: lower-case token names, arbitrary values"""
    return c.list(name, lambda c, n: (c.bytes(n + ".name", re=LTOKEN, ex=names or [b"a", b"x-a", b"vary", b"b"]),
                                      c.bytes(n + ".value", ex=[b"", b"1", b"2", b"Accept, x", b"\xe9"])))


def h_values(raw, name):
    return mapped(kept(raw, lambda p: p[0] == name), lambda p: p[1])


def h_set(raw, name, value):
    r = cut_first(raw, lambda p: p[0] == name)
    if r is None:
        return raw + [(name, value)]
    before, _, after = r
    return before + [(name, value)] + kept(after, lambda p: p[0] != name)


def h_del(raw, name):
    return kept(raw, lambda p: p[0] != name)


def first_header(raw, name):
    """text of the first header of this (stored) name, or None"""
    r = seq_first(raw, lambda p: p[0] == name)
    return None if r is None else r[1].decode("latin-1")


def headers_by_contract(c, ordered=True):
    """callers of the header mappings see the contracts of their methods (all proved of the real methods in c22); with
    ordered=False in the weaker form that says where a set header stands only relative to headers of its own name, for callers
    whose property does not observe the order between different names"""
    if c.mode != "proof":
        return
    DS = "starlette.datastructures:"

    def getitem(self, key):
        v = first_header(self.raw, low(key))
        if v is None:
            raise KeyError(key)
        return v

    def contains(self, key):
        return first_header(self.raw, low(key)) is not None

    def setitem(self, key, value):
        if ordered:
            self.raw[:] = h_set(list(self.raw), low(key), value.encode("latin-1"))
        else:
            self.raw[:] = h_del(list(self.raw), low(key)) + [(low(key), value.encode("latin-1"))]

    def delitem(self, key):
        self.raw[:] = h_del(list(self.raw), low(key))

    def setdefault(self, key, value):
        v = first_header(self.raw, low(key))
        if v is None:
            self.raw.append((low(key), value.encode("latin-1")))
            return value
        return v
    c.stub(DS + "Headers.__getitem__", getitem)
    c.stub(DS + "Headers.__contains__", contains)
    c.stub(DS + "MutableHeaders.__setitem__", setitem)
    c.stub(DS + "MutableHeaders.__delitem__", delitem)
    c.stub(DS + "MutableHeaders.setdefault", setdefault)


class Ghost:
    """an object made up by a contract in place of one of the code's own: the contract does not apply to code that uses more of it"""
    _ghost_ok = True

    def __getattr__(self, name):
        if name.startswith("_") or name in ("c", "log", "is_abstract"):
            raise AttributeError(name)
        (self.c if "c" in self.__dict__ else self.log.c).give_up(f"{type(self).__name__} is asked for {name}")


def aspect(c, *names):
    """what is judged on this path (each path of a proof judges one thing, for every input)"""
    return [c.choose("aspect", list(names))] if c.mode == "proof" else list(names)
