"""C28: setting, deleting and parsing cookies."""
import http.cookies
from datetime import datetime, timezone
from email.utils import format_datetime

from starlette.requests import HTTPConnection
from starlette.responses import Response

from contracts.common import *
from engine.contract import Loop, around

NAME = r"[!#$%&'*+.^_`|~0-9A-Za-z-]+"
ASCII, LATIN1 = 0, 1
ATTR = r"[!-:<-~]+"                    # printable, no blank, no ";"
RESERVED = ["expires", "path", "comment", "domain", "max-age", "secure", "httponly", "version", "samesite"]


def clock(c):
    """relative expiry dates are computed from the clock by the standard library"""
    def getdate(future=0, *a):
        return "date+" + str(future)
    c.stub("http.cookies:_getdate", getdate)


def cookie_name(c, n="name"):
    name = c.str(n, re=NAME, alpha=ASCII, ex=["a", "session", "X-y"])
    low = name.lower()
    for r in RESERVED:
        c.assume(low != r)
    return name


def attributes(header):
    """"name=value; A=1; Flag" -> (name, value), {a: 1, flag: None} and the number of attributes"""
    parts = header.split(";")
    first = parts[0].partition("=")
    attrs = {}
    for p in parts[1:]:
        k, eq, v = p.strip().partition("=")
        attrs[k.lower()] = v if eq else None
    return (first[0], first[2]), attrs, len(parts) - 1


def response(c):
    """a response with headers of its own"""
    r = Response("x")
    r.raw_headers = c.list("headers", lambda c, n: (c.bytes(n + ".name", re=LTOKEN, ex=[b"set-cookie", b"vary"]), c.bytes(n + ".value", ex=[b"", b"v"])))
    return r


def others_unchanged(c, r, before):
    n = c.length(before)
    c.check("exactly one header is added", c.length(r.raw_headers) == n + 1)
    k = c.int("any position", lo=0, ex=[0, 1, 2])
    if k < n:
        c.check("other headers are left alone", r.raw_headers[k] == before[k])
    last = r.raw_headers[n]
    c.check("it is a Set-Cookie header", last[0] == b"set-cookie", last)
    return last[1].decode("latin-1")


def setting(c):
    """any name, value and attributes"""
    clock(c)
    name = cookie_name(c)
    value = c.str("value", re="[ -~\u00a0-\u00ff]*", alpha=LATIN1, ex=["", "v", "a b", "x;y", "\"q\"", "caf\xe9", "a,b\\"])
    kw, want = {}, {}
    max_age = c.choose("max_age", [None, "some"])
    if max_age is not None:
        kw["max_age"] = c.int("max_age value", ex=[0, 5, -1])
        want["max-age"] = str(kw["max_age"])
    when = datetime(2031, 2, 3, 4, 5, 6, tzinfo=timezone.utc)
    exp = c.choose("expires", [None, "seconds", "text", "date"])
    if exp is not None:
        kw["expires"] = when
        if exp == "seconds":
            kw["expires"] = c.int("expires seconds", ex=[0, 3600])
            want["expires"] = "date+" + str(kw["expires"])
        elif exp == "text":
            kw["expires"] = c.str("expires text", re=ATTR, alpha=ASCII, ex=["soon"])
            want["expires"] = kw["expires"]
        elif exp == "date":
            want["expires"] = "Mon, 03 Feb 2031 04:05:06 GMT"
    for a in ("path", "domain"):
        mode = c.choose(a, ["absent", None, "some"] if a == "path" else ["absent", "some"])
        if mode != "absent":
            kw[a] = c.str(a + " value", re=ATTR, alpha=ASCII, ex=["/", "/a", "example.org"]) if mode == "some" else None
            if mode == "some":
                want[a] = kw[a]
        elif a == "path":
            want[a] = "/"
    for a in ("secure", "httponly"):
        if c.bool(a):
            kw[a] = True
            want[a] = None
    ss = c.choose("samesite", ["absent", None, "Strict", "none"])
    if ss != "absent":
        kw["samesite"] = ss
    if ss is not None:
        want["samesite"] = "lax" if ss == "absent" else ss.lower()
    r = response(c)
    before = list(r.raw_headers)
    r.set_cookie(name, value, **kw)
    header = others_unchanged(c, r, before)
    (k, v), attrs, count = attributes(header)
    c.check("the cookie's name", k == name, (header, name))
    c.check("the cookie's value", http.cookies._unquote(v) == value, (header, value))
    c.check("exactly the requested attributes", sorted(attrs) == sorted(want) and count == len(want), (header, want))
    for a in want:
        got = attrs[a]
        c.check(f"attribute {a}", got is None if want[a] is None else (got.lower() if a == "samesite" else got) == want[a], (got, want[a]))


def refused(c):
    """invalid samesite values"""
    ss = c.str("samesite", ex=["", "laxx", "true", "Lax ", "NONE;", "st"])
    for ok in ("lax", "strict", "none"):
        c.assume(ss.lower() != ok)
    r = Response("x")
    before = list(r.raw_headers)
    ok = False
    try:
        r.set_cookie("a", "b", samesite=ss)
    except (AssertionError, ValueError):
        ok = True
    c.check("an invalid samesite is refused", ok, ss)
    c.check("without setting a cookie", r.raw_headers == before, r.raw_headers)


def deleting(c):
    """deletion with any attributes"""
    clock(c)
    name = cookie_name(c)
    kw, want = {}, {"max-age": "0"}
    for a in ("path", "domain"):
        mode = c.choose(a, ["absent", "some"])
        if mode != "absent":
            kw[a] = want[a] = c.str(a + " value", re=ATTR, alpha=ASCII, ex=["/", "/a", "example.org"])
        elif a == "path":
            want[a] = "/"
    for a in ("secure", "httponly"):
        v = c.choose(a, ["absent", False, True])
        if v != "absent":
            kw[a] = v
            if v:
                want[a] = None
    ss = c.choose("samesite", ["absent", None, "lax", "Strict", "none"])
    if ss != "absent":
        kw["samesite"] = ss
    if ss is not None:
        want["samesite"] = "lax" if ss == "absent" else ss.lower()
    r = response(c)
    before = list(r.raw_headers)
    r.delete_cookie(name, **kw)
    header = others_unchanged(c, r, before)
    (k, v), attrs, count = attributes(header)
    c.check("the cookie's name", k == name, (header, name))
    attrs.pop("expires", None)
    c.check("exactly the scope attributes and max-age", sorted(attrs) == sorted(want), (header, want))
    for a in want:
        got = attrs[a]
        c.check(f"attribute {a}", got is None if want[a] is None else (got.lower() if a == "samesite" else got) == want[a], (got, want[a]))


def pair(chunk):
    """";"-separated chunk -> its (name, value), or None for a blank one"""
    name, eq, value = chunk.partition("=")
    if not eq:
        name, value = "", chunk
    name, value = name.strip(), value.strip()
    return None if name == "" and value == "" else (name, http.cookies._unquote(value))


class ChunkLoop(Loop):
    """for an arbitrary name: before chunk i the result holds, under that name, the value of its last pair among chunks 0..i-1"""

    def __init__(self, text, key):
        self.text, self.key, self.value, self.cut = text, key, None, False

    def init(self, L):
        chunks = self.text.split(";")
        if not (isinstance(L.seg.base, object) and len(chunks.parts) == 1 and chunks.parts[0].base is L.seg.base):
            self.c.give_up("the loop is not over the ';'-separated chunks")
        names = [k for k, v in L.vars.items() if isinstance(v, dict)]
        if len(names) != 1:
            self.c.give_up("the result is not a dictionary built by the loop")
        self.var = names[0]

    def gen(self, L, i):
        self.cut = True
        self.value = self.c.str("value so far") if self.c.bool("present so far") else None
        return {self.var: around(self.c, self.key, [] if self.value is None else [(self.key, self.value)])}

    def check(self, L, i):
        got = L.vars[self.var]
        if not self.cut:
            self.c.check("inv: empty at the start", len(got) == 0)
            return
        p = pair(L.seg.base.at(L.i))
        want = self.value
        if p is not None and p[0] == self.key:
            want = p[1]
        self.c.check("the last pair of a name wins", same(got.get(self.key), want), p)


def same(a, b):
    return b is None if a is None else (b is not None and a == b)


def parsing(c):
    """any Cookie header of any number of pairs"""
    text = c.str("cookie", alpha=LATIN1, ex=["a=1", "a=1; b=2", "", "a", "a=1;a=2", " a = 1 ;; b", "a=\"x\\073y\"; b", "=v", ";", "a=b=c"])
    key = c.str("any name", alpha=LATIN1, ex=["a", "b", "", "x"])
    loop = ChunkLoop(text, key)
    c.loop("starlette.requests:cookie_parser#0", loop)
    conn = HTTPConnection({"type": "http", "headers": [(b"host", b"x"), (b"cookie", text.encode("latin-1"))]})
    got = conn.cookies
    want = loop.value
    if not loop.cut:
        for chunk in text.split(";"):
            p = pair(chunk)
            if p is not None and p[0] == key:
                want = p[1]
    c.check("each name has the unquoted value of its last pair, other names are absent", same(got.get(key), want), (text, key))


def no_header(c):
    """no Cookie header"""
    conn = HTTPConnection({"type": "http", "headers": [(b"host", b"x")]})
    c.check("no Cookie header, no cookies", conn.cookies == {})


HARNESSES = [setting, refused, deleting, parsing, no_header]
OPTS = {"setting": {"weight": 5}}
