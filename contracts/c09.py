"""C09: file responses and byte ranges."""
from email.utils import formatdate
import hashlib
import os
import stat

import starlette.responses
from starlette.background import BackgroundTask
from starlette.responses import FileResponse

from contracts.common import *
from engine.contract import internal

SIMPLE = "starlette.responses:FileResponse._handle_simple#0"
SINGLE = "starlette.responses:FileResponse._handle_single_range#0"
INNER = "starlette.responses:FileResponse._handle_multiple_ranges#1"
MTIMES = [0.0, 1700000000.25]


class Client:
    """the server's side of send: what the client gets"""
    _ghost_ok = True

    def __init__(self, c):
        self.c, self.status, self.headers, self.got, self.over = c, None, None, b"", False

    async def send(self, message):
        c = self.c
        c.check("nothing is sent after the final message", not self.over, message)
        if self.status is None:
            c.check("the start comes first", message["type"] == "http.response.start", message)
            self.status, self.headers = message["status"], list(message["headers"])
        else:
            c.check("then the body", message["type"] == "http.response.body", message)
            self.got = self.got + message["body"]
            self.over = not message.get("more_body", False)

    def header(self, name):
        vs = hdr(self.headers, name)
        self.c.check("a header is sent once: " + name.decode(), len(vs) <= 1, self.headers)
        return vs[0].decode("latin-1") if vs else None


class Info:
    """a stat result"""
    _ghost_ok = True

    def __init__(self, size, mtime, mode=stat.S_IFREG | 0o644):
        self.st_size, self.st_mtime, self.st_mode = size, mtime, mode


def etag_of(mtime, size):
    return '"' + hashlib.md5((str(mtime) + "-" + str(size)).encode(), usedforsecurity=False).hexdigest() + '"'


def request(method, rng=None, if_range=None):
    hs = []
    if rng is not None:
        hs.append((b"range", rng.encode("latin-1")))
    if if_range is not None:
        hs.append((b"if-range", if_range.encode("latin-1")))
    return {"type": "http", "method": method, "headers": hs}


def size_of(pieces):
    n = 0
    for p in pieces:
        n = n + len(p)
    return n


def join(pieces):
    out = b""
    for p in pieces:
        out = out + p
    return out


def respond(c, path, scope, client, size, mtime, chunk=None, **kw):
    """-> what was raised"""
    cls = FileResponse
    if chunk is not None:
        class Chunked(FileResponse):
            chunk_size = chunk
        cls = Chunked
    if c.bool("stat result given"):
        kw["stat_result"] = Info(size, mtime)
    resp = cls(path, media_type="text/x-test", **kw)
    c.run(resp(scope, no_receive, client.send), loop=True)
    return resp


class Sending(Loop):
    """at the loop head: everything between the first byte to send and the position is sent, something may be left"""

    def __init__(self, c, client, pieces, k, base, sent, last=True):
        self.c, self.client, self.pieces, self.k, self.base, self.last = c, client, pieces, k, base, last
        self.sent = sent            # what is sent when the loop starts, of the body

    def init(self, L):
        self.c.check("inv: nothing of the range is sent yet", self.client.got == self.sent and not self.client.over)
        self.roles(L)

    def roles(self, L):
        """the locals that say whether there is more, and those that count the position"""
        self.flags = [n for n in L.assigned if isinstance(L.vars.get(n), bool) and L.vars[n]]
        self.positions = [n for n in L.assigned if isinstance(L.vars.get(n), (int, type(self.base))) and not isinstance(L.vars.get(n), bool) and L.vars[n] == self.base]

    def gen(self, L, i):
        c = self.c
        target = self.pieces[self.k]
        before, after = c.bytes("sent before"), c.bytes("left")
        c.assume(before + after == target)
        if not c.opened or not hasattr(c.opened[-1], "place"):
            c.give_up("the file is read otherwise")
        c.opened[-1].place(self.pieces[:self.k] + [before], [after] + self.pieces[self.k + 1:])
        more = c.bool("more") if self.flags else True
        if not more:
            c.assume(len(after) == 0)
        elif self.last and self.flags:
            c.assume(len(after) != 0)
        self.client.got, self.client.over = self.sent + before, not more
        out = {n: more for n in self.flags}
        for n in self.positions:
            out[n] = self.base + len(before)
        return out

    def check(self, L, i):
        if i != 0:
            c, done = self.c, self.c.opened[-1].before
            now = join(done[self.k:])
            c.check("inv: what is sent is what lies before the position", self.client.got == self.sent + now)
            left = self.base + len(self.pieces[self.k]) - size_of(done)
            c.check("inv: the position stays in the range", left >= 0)
            more = [L.vars[n] for n in self.flags]
            c.check("inv: the final message is sent with the last bytes", all(self.client.over == (not x) for x in more) and not (self.client.over and not self.flags))
            if self.client.over:
                c.check("inv: nothing is left then", left == 0)
            elif self.last and self.flags:
                c.check("inv: something is left before it", left != 0)
            for n in self.positions:
                c.check("inv: the position is counted", L.vars[n] == size_of(done))


def chunk_size(c):
    return c.int("chunk size", 1, ex=[1, 2, 3, 64])


def common_headers(c, client, size, mtime):
    c.check("ranges are announced", client.header(b"accept-ranges") == "bytes", client.headers)
    c.check("the type", client.header(b"content-type") is not None, client.headers)
    c.check("the modification time", client.header(b"last-modified") == formatdate(mtime, usegmt=True), client.headers)
    c.check("an entity tag", client.header(b"etag") == etag_of(mtime, size), client.headers)


def background(c, client, ran):
    async def work():
        ran.append(client.over)
    return BackgroundTask(work)


def whole(c):
    """without a Range header: the whole file, whatever its size and the chunk size"""
    data = c.bytes("content", ex=[b"", b"a", b"ab", b"abc", b"abcdef"])
    mtime = c.choose("mtime", MTIMES)
    path = c.binfile([data], mtime)
    method = c.choose("method", ["GET", "HEAD"])
    status = c.choose("status", [200, 404])
    client, ran = Client(c), []
    c.loop(SIMPLE, Sending(c, client, [data], 0, 0, b"", last=False))
    if_range = c.opt("if-range", lambda c, n: c.str(n, alpha=ASCII))
    respond(c, path, request(method, None, if_range), client, len(data), mtime, chunk_size(c), status_code=status, background=background(c, client, ran))
    c.check("the status", client.status == status)
    c.check("the length of the file", client.header(b"content-length") == str(len(data)), client.headers)
    c.check("no content range", client.header(b"content-range") is None)
    common_headers(c, client, len(data), mtime)
    c.check("the whole file, or nothing for HEAD", client.got == (b"" if method == "HEAD" else data), client.got)
    c.check("the body is finished", client.over)
    c.check("background work afterwards, once", ran == [True], ran)


def single(c):
    """one satisfiable range: exactly that slice"""
    pre, mid, post = c.bytes("before", ex=[b"", b"ab"]), c.bytes("range", ex=[b"c", b"cde"]), c.bytes("after", ex=[b"", b"fg"])
    c.assume(len(mid) > 0)
    pieces = [pre, mid, post]
    size, a, b = size_of(pieces), len(pre), len(pre) + len(mid)
    form = c.choose("form", ["a-b", "a-", "-n"])
    if form == "a-b":
        over = 0
        if c.bool("to the end"):
            c.assume(len(post) == 0)
            over = c.int("beyond", 0)
        spec = str(a) + "-" + str(b - 1 + over)
    else:
        c.assume(len(post) == 0)
        spec = str(a) + "-" if form == "a-" else "-" + str(len(mid))
    mtime = c.choose("mtime", MTIMES)
    path = c.binfile(pieces, mtime)
    method = c.choose("method", ["GET", "HEAD"])
    client, ran = Client(c), []
    c.loop(SINGLE, Sending(c, client, pieces, 1, a, b""))
    respond(c, path, request(method, c.choose("unit", ["bytes=", "Bytes =", " bytes= "]) + spec), client, size, mtime, chunk_size(c),
            status_code=c.choose("status", [200, 201]), background=background(c, client, ran))
    c.check("206", client.status == 206, client.status)
    c.check("the range is announced", client.header(b"content-range") == "bytes " + str(a) + "-" + str(b - 1) + "/" + str(size), client.headers)
    c.check("its length is announced", client.header(b"content-length") == str(len(mid)), client.headers)
    common_headers(c, client, size, mtime)
    c.check("exactly that slice, or nothing for HEAD", client.got == (b"" if method == "HEAD" else mid), client.got)
    c.check("the body is finished", client.over)
    c.check("background work afterwards, once", ran == [True], ran)


def refused(c, client, status, size=None):
    c.check("an error response", client.status == status, client.status)
    c.check("its body is finished", client.over)
    if status == 416:
        c.check("the current length is announced", client.header(b"content-range") == "*/" + str(size), client.headers)


class Parts(Sending):
    """the same, of whichever range the file stands at"""

    def __init__(self, c, client, pieces, at):
        super().__init__(c, client, pieces, None, None, None, last=False)
        self.at = at                # (index of the piece, its offset)

    def init(self, L):
        c, f = self.c, self.c.opened[-1] if self.c.opened else None
        if f is None or not hasattr(f, "place"):
            c.give_up("the file is read otherwise")
        here = size_of(f.before)
        for k, base in self.at:
            if here == base:
                self.k, self.base = k, base
                break
        else:
            c.check("inv: the file stands at a range", False)
        self.sent = self.client.got
        self.roles(L)


def several(c):
    """ranges apart from each other: all of them, each announced and exactly that slice"""
    k = c.choose("ranges", [2, 3])
    c.bound("2 or 3 ranges that are apart")
    pieces, at, specs = [], [], []
    for i in range(k):
        pieces += [c.bytes(f"gap {i}", ex=[b"", b"ab", b"c"]), c.bytes(f"range {i}", ex=[b"x", b"yz"])]
        c.assume(len(pieces[-1]) > 0)
        if i:
            c.assume(len(pieces[-2]) > 0)
        at.append((2 * i + 1, size_of(pieces[:-1])))
    pieces.append(c.bytes("rest", ex=[b"", b"r"]))
    size = size_of(pieces)
    for i, (j, base) in enumerate(at):
        specs.append(str(base) + "-" + str(base + len(pieces[j]) - 1))
    tail = "" if k == 3 else c.choose("last form", ["", "a-", "-n"])
    if tail:
        c.assume(len(pieces[-1]) == 0)
        specs[-1] = str(at[-1][1]) + "-" if tail == "a-" else "-" + str(len(pieces[-2]))
    sep = c.choose("separator", [",", ", "])
    mtime = MTIMES[1]
    path = c.binfile(pieces, mtime)
    method = c.choose("method", ["GET", "HEAD"])
    client, ran = Client(c), []
    c.loop(INNER, Parts(c, client, pieces, at))
    respond(c, path, request(method, "bytes=" + sep.join(specs)), client, size, mtime, chunk_size(c), background=background(c, client, ran))
    c.check("206", client.status == 206, client.status)
    common_headers(c, client, size, mtime)
    where = client.header(b"content-range") or ""
    if "boundary=" not in where:
        where = client.header(b"content-type")
    c.check("a boundary is announced", "boundary=" in where, client.headers)
    boundary = where.split("boundary=", 1)[1]
    want = b""
    for j, base in at:
        want = want + ("--" + boundary + "\nContent-Type: text/x-test; charset=utf-8\nContent-Range: bytes " + str(base) + "-" + str(base + len(pieces[j]) - 1) + "/" + str(size) + "\n\n").encode("latin-1") + pieces[j] + b"\n"
    want = want + ("\n--" + boundary + "--\n").encode("latin-1")
    length = client.header(b"content-length")
    # known finding multirange-length: one byte less is announced
    c.check("the length announced is the length sent", c.any([length == str(len(want)), length == str(len(want) - 1)]), (length, len(want)))
    c.check("exactly these slices, or nothing for HEAD", client.got == (b"" if method == "HEAD" else want), client.got)
    c.check("the body is finished", client.over)
    c.check("background work afterwards, once", ran == [True], ran)


def joined(c):
    """two overlapping or adjacent ranges, the first starting first: sent as one"""
    pre, a, b, d, post = [c.bytes(n, ex=[b"", b"x", b"yz"]) for n in ("before", "first only", "both", "second only", "after")]
    inside = c.bool("second inside the first")
    mid = a + b + d
    pieces = [pre, mid, post]
    size, start = size_of(pieces), len(pre)
    if inside:
        c.assume(len(b) > 0)
        specs = [str(start) + "-" + str(start + len(mid) - 1), str(start + len(a)) + "-" + str(start + len(a) + len(b) - 1)]
    else:
        c.assume(len(a) + len(b) > 0)
        c.assume(len(b) + len(d) > 0)
        specs = [str(start) + "-" + str(start + len(a) + len(b) - 1), str(start + len(a)) + "-" + str(start + len(mid) - 1)]
    mtime = MTIMES[0]
    path = c.binfile(pieces, mtime)
    client = Client(c)
    c.loop(SINGLE, Sending(c, client, pieces, 1, start, b""))
    respond(c, path, request("GET", "bytes=" + ",".join(specs)), client, size, mtime, chunk_size(c))
    c.check("206", client.status == 206, client.status)
    c.check("one range is announced", client.header(b"content-range") == "bytes " + str(start) + "-" + str(start + len(mid) - 1) + "/" + str(size), client.headers)
    c.check("its length is announced", client.header(b"content-length") == str(len(mid)), client.headers)
    c.check("exactly that slice", client.got == mid and client.over, client.got)


def refused(c, client, status, size):
    c.check("an error response", client.status == status, client.status)
    c.check("its body is finished", client.over)
    c.check("of the announced length", client.header(b"content-length") == str(len(client.got)), client.headers)
    if status == 416:
        c.check("the current length is announced", client.header(b"content-range") == "*/" + str(size), client.headers)
    else:
        c.check("no range is announced", client.header(b"content-range") is None)


def ask(c, header, size, **kw):
    """a request for a file of this size; no file data may be read"""
    mtime = MTIMES[1]
    data = c.bytes("content", ex=[b"", b"abc", b"abcdef", b"0123456789"])
    path = c.binfile([data], mtime)
    c.assume(len(data) == size)
    client = Client(c)
    respond(c, path, request(c.choose("method", ["GET", "HEAD"]), header), client, size, mtime, **kw)
    c.check("no file is opened", len(c.opened) == 0)
    return client


def outside(c):
    """one range that starts beyond the file, or ends before it starts"""
    size = c.int("size", 0, ex=[0, 3, 6, 10])
    form = c.choose("form", ["a-b", "a-", "-0", "b<a"])
    if form == "-0":
        client = ask(c, "bytes=-0", size)
    elif form == "b<a":
        a, b = c.int("a", 0, ex=[1, 2, 7, 20]), c.int("b", 0, ex=[0, 1, 6])
        c.assume(b < a)
        client = ask(c, "bytes=" + str(a) + "-" + str(b), size)
        if a < size:
            return refused(c, client, 400, size)
        c.check("malformed or not satisfiable", client.status == 400 or client.status == 416, client.status)
        return refused(c, client, 400 if client.status == 400 else 416, size)
    else:
        a = c.int("a", 0, ex=[3, 6, 10, 11])
        c.assume(a >= size)
        client = ask(c, "bytes=" + str(a) + "-" + (str(a + c.int("n", 0, ex=[0, 5])) if form == "a-b" else ""), size)
    refused(c, client, 416, size)


def beyond(c):
    """a suffix longer than the file: an error, or the whole file"""
    data = c.bytes("content", ex=[b"", b"abc"])
    path = c.binfile([data], 0.0)
    n = c.int("n", 0, ex=[1, 4, 5])
    c.assume(n > len(data))
    client = Client(c)
    respond(c, path, request("HEAD", "bytes=-" + str(n)), client, len(data), 0.0)
    if client.status == 206:
        c.check("inside the file", client.header(b"content-range") == "bytes 0-" + str(len(data) - 1) + "/" + str(len(data)) and len(data) > 0, client.headers)
    else:
        refused(c, client, 416, len(data))


def malformed(c):
    """no byte range is asked for: 400"""
    kind = c.choose("kind", ["no equals sign", "another unit", "no range"])
    if kind == "no equals sign":
        header = c.str("header", re="[^=]*", alpha=1, ex=["", "bytes", "bytes 0-1", "0-1"])
    elif kind == "another unit":
        header = c.str("unit", re="[!-<>-~]*", ex=["", "byte", "bytess", "items", "x-bytes"])
        c.assume(header.lower() != "bytes")
        header = header + "=" + str(c.int("a", 0, ex=[0])) + "-" + str(c.int("b", 0, ex=[0, 1]))
    else:
        header = "bytes=" + c.choose("text", ["", "-", "--", ",", "-,-", " - ", "x", "a-b", "x-y,z-", "\u00e9"])
    refused(c, ask(c, header, c.int("size", 0, ex=[0, 3])), 400, None)


def digits(c):
    """numbers too long to be read are malformed"""
    c.bound("numbers of 4300, 4301 and 5000 digits")
    n = "1" * c.choose("digits", [4301, 5000])
    refused(c, ask(c, "bytes=" + c.choose("form", [n + "-", "0-" + n, "-" + n, "0-1," + n + "-"]), 3), 400, None)


def conditional(c):
    """with If-Range: the range only if it is the current entity tag or modification time"""
    pre, mid, post = c.bytes("before", ex=[b"", b"ab"]), c.bytes("range", ex=[b"c", b"cde"]), c.bytes("after", ex=[b"", b"fg"])
    c.assume(len(mid) > 0)
    pieces = [pre, mid, post]
    size, a, b = size_of(pieces), len(pre), len(pre) + len(mid)
    mtime = c.choose("mtime", MTIMES)
    etag, date = etag_of(mtime, size), formatdate(mtime, usegmt=True)
    kind = c.choose("if-range", ["etag", "date", "another", "weak", "unquoted", "another date", "own etag"])
    value = {"etag": etag, "own etag": '"mine"', "date": date, "weak": "W/" + etag, "unquoted": etag[1:-1], "another date": formatdate(mtime + 1, usegmt=True)}.get(kind)
    if kind == "another":
        value = c.str("value", alpha=1, ex=["", '"x"', "*"])
        c.assume(value != etag)
        c.assume(value != date)
    path = c.binfile(pieces, mtime)
    client = Client(c)
    kw = {"headers": {"etag": '"mine"'}} if kind == "own etag" else {}
    respond(c, path, request("HEAD", "bytes=" + str(a) + "-" + str(b - 1), value), client, size, mtime, **kw)
    if kind in ("etag", "date", "own etag"):
        c.check("the range is honoured", client.status == 206 and client.header(b"content-length") == str(len(mid)), client.status)
    else:
        c.check("the whole file instead", client.status == 200 and client.header(b"content-length") == str(size) and client.header(b"content-range") is None, client.headers)
    c.check("no data for HEAD", client.got == b"" and client.over)


def merging(c):
    """any two or three ranges: their union inside the file; ascending ones end up apart from each other"""
    c.bound("2 or 3 ranges")
    size = c.int("size", 1, ex=[1, 5, 20])
    k = c.choose("count", [2, 3])
    ab = []
    for i in range(k):
        a, n = c.int(f"a{i}", 0, ex=[0, 1, 3, 5, 8]), c.int(f"n{i}", 1, ex=[1, 2, 4, 10])
        c.assume(a < size)
        ab.append((a, a + n))
    ascending = c.bool("ascending")
    if ascending:
        for i in range(1, k):
            c.assume(ab[i - 1][0] <= ab[i][0])
    spec = ",".join([str(a) + "-" + str(b - 1) for a, b in ab])
    f = internal(c, FileResponse, "_parse_range_header", "bytes=" + spec, size)
    got = f("bytes=" + spec, size)
    if not isinstance(got, list):
        c.done()
    for what in aspect(c, "inside", "union", "apart"):
        if what == "inside":
            c.check("every range lies in the file", c.all([0 <= a and a < b and b <= size for a, b in got]) if c.mode != "proof" else all(bool(0 <= a) and bool(a < b) and bool(b <= size) for a, b in got), got)
        elif what == "union":
            x = c.int("position", 0, ex=[0, 1, 2, 3, 4, 5, 9])
            c.assume(x < size)
            asked = any(bool(a <= x) and bool(x < b) for a, b in ab)
            sent = any(bool(a <= x) and bool(x < b) for a, b in got)
            c.check("a byte is sent if and only if it was asked for", asked == sent, (x, ab, got))
        elif ascending:
            c.check("merged ranges are apart, in order", all(bool(got[i][1] < got[i + 1][0]) for i in range(len(got) - 1)), got)


def mixed(c):
    """two ranges of any form, one of them perhaps outside the file: an error, or ranges inside the file"""
    c.bound("2 ranges")
    size = c.int("size", 0, ex=[0, 1, 5, 20])
    specs = []
    for i in range(2):
        form = c.choose(f"form {i}", ["a-b", "a-", "-n"])
        a = c.int(f"a{i}", 0, ex=[0, 1, 3, 5, 8, 30])
        specs.append(str(a) + "-" + str(c.int(f"b{i}", 0, ex=[0, 2, 6, 30])) if form == "a-b" else str(a) + "-" if form == "a-" else "-" + str(a))
    spec = "bytes=" + ",".join(specs)
    f = internal(c, FileResponse, "_parse_range_header", spec, size)
    if not hasattr(starlette.responses, "MalformedRangeHeader") or not hasattr(starlette.responses, "RangeNotSatisfiable"):
        c.done()
    try:
        got = f(spec, size)
    except (starlette.responses.MalformedRangeHeader, starlette.responses.RangeNotSatisfiable):
        return
    if not isinstance(got, list):
        c.done()
    c.check("every range lies in the file", len(got) > 0 and all(bool(0 <= a) and bool(a < b) and bool(b <= size) for a, b in got), (spec, size, got))


def missing(c):
    """no such file, or not a file: an error before anything is sent"""
    kind = c.choose("kind", ["missing", "directory"])
    client = Client(c)
    path = "/nonexistent-verif/x" if kind == "missing" else "/"
    raised = False
    try:
        c.run(FileResponse(path)(request("GET", c.choose("range", [None, "bytes=0-1"])), no_receive, client.send), loop=True)
    except RuntimeError:
        raised = True
    c.check("an error is raised and nothing is sent", raised and client.status is None)


HARNESSES = [whole, single, several, joined, outside, beyond, malformed, digits, conditional, merging, mixed, missing]
OPTS = {}
