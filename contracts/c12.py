"""C12: multipart forms."""
import types

from starlette.datastructures import FormData, Headers, UploadFile
from starlette.exceptions import HTTPException
from starlette.formparsers import MultiPartException, MultiPartParser
from starlette.requests import Request

from contracts.common import *
from engine.contract import internal

CHUNKS = "starlette.formparsers:MultiPartParser.parse#0"
WRITES = "starlette.formparsers:MultiPartParser.parse#1"
SEEKS = "starlette.formparsers:MultiPartParser.parse#2"
CLOSES = "starlette.formparsers:MultiPartParser.parse#3"
MB = 1024 * 1024


class Err(Exception):
    pass


def safe(data, charset):
    """how texts are decoded: in the charset, or else as Latin-1"""
    try:
        return data.decode(charset)
    except (UnicodeDecodeError, LookupError):
        return data.decode("latin-1")


class Lib:
    """python_multipart (assumed contract): the parser makes, for every chunk, the callbacks of the events in it; header parameters
    are those of the part. Here a chunk is a list of events, and the parameters are given"""
    _ghost_ok = True

    def __init__(self, c, charset=None, before=None):
        self.c, self.charset, self.before, self.options, self.final = c, charset, before, [], None
        c.stub("starlette.formparsers:parse_options_header", self.parse_options_header)
        c.stub("starlette.formparsers:multipart", types.SimpleNamespace(MultipartParser=self.MultipartParser))

    def parse_options_header(self, value):
        if value is None:
            return b"", {}
        if isinstance(value, str):
            self.c.check("the request's content type is parsed", value == "multipart/form-data; boundary=B")
            return b"multipart/form-data", {b"boundary": b"B", **({b"charset": self.charset} if self.charset is not None else {})}
        for disposition, options in self.options:
            if value == disposition:
                return b"form-data", dict(options)
        self.c.fail("some other header is parsed")

    def MultipartParser(self, boundary, callbacks):
        self.c.check("the parser is given the boundary", boundary == b"B")
        self.callbacks = callbacks
        if self.before is not None:
            self.before()
        return self

    def write(self, chunk):
        for name, *args in chunk:
            self.fire(name, *args)

    def finalize(self):
        if self.final is not None:
            raise self.final

    def fire(self, name, *args):
        if name == "raise":
            raise args[0]
        if args:
            # a callback with data gets a buffer and the range in it; empty ranges are not reported
            before, data, after = args
            if data == b"":
                return
            self.callbacks[name](before + data + after, len(before), len(before) + len(data))
        else:
            self.callbacks[name]()


CT = {"Content-Type": "multipart/form-data; boundary=B"}


def header(c, lib, name, value, where, split=True):
    """events of one header line"""
    out = []
    for kind, text in (("on_header_field", name), ("on_header_value", value)):
        if split and c.bool(f"{where} {kind} split"):
            k = c.int(f"{where} {kind} split at", 0, 40)
            out += [(kind, b"xx", text[:k], b"yy"), (kind, b"", text[k:], b"z")]
        else:
            out.append((kind, b"p", text, b"q"))
    return out + [("on_header_end",)]


def the_content(c, f):
    """what an upload holds, and where it stands"""
    if c.symbolic and hasattr(f.file, "_rolled") and hasattr(f.file, "data"):
        return f.file.data, f.file.pos
    at = f.file.tell()
    f.file.seek(0)
    data = f.file.read()
    f.file.seek(at)
    return data, at


class Part:
    """a part under observation"""

    def __init__(self, c, lib, where, is_file, headers=None, split=True, simple=False):
        self.c, self.lib, self.is_file, self.where = c, lib, is_file, where
        self.name = c.bytes(where + " name", ex=[b"n", b"\xc3\xa9", b"\xff", b""])
        self.filename = c.bytes(where + " filename", ex=[b"f.txt", b"", b"\xe9"]) if is_file else None
        self.disposition = b"form-data; of " + where.encode()
        self.extra = headers if headers is not None else []
        lib.options.append((self.disposition, {b"name": self.name, **({b"filename": self.filename} if is_file else {})}))
        self.given = []
        self.events = [("on_part_begin",)]
        cd = (b"Content-Disposition", self.disposition)
        order = self.extra + [cd] if simple or c.bool(where + " disposition last") else [cd] + self.extra
        for i, (n, v) in enumerate(order):
            self.events += header(c, lib, n, v, f"{where} header {i}", split)
            self.given.append((n.lower(), v))
        self.events.append(("on_headers_finished",))

    def judge(self, item, total, charset):
        c = self.c
        name, value = item
        c.check("under its own name", name == safe(self.name, charset), name)
        if not self.is_file:
            c.check("a text part is a string", isinstance(value, str), value)
            c.check("of its data", value == safe(total, charset), value)
            return
        c.check("a file part is an upload", isinstance(value, UploadFile), value)
        data, at = the_content(c, value)
        c.check("of its data", data == total, data)
        c.check("positioned at the start", at == 0, at)
        c.check("open", not value.file.closed)
        c.check("with its size", value.size == len(total), value.size)
        c.check("with its file name", value.filename == safe(self.filename, charset), value.filename)
        same_list(c, "with its headers", list(value.headers.raw), self.given)


class DataChunks(Loop):
    """a part's data: i chunks of it are read; after the last chunk the part is complete"""

    def __init__(self, c, parser, part, n, g, prior, maximum, charset):
        self.parser, self.part, self.n, self.g, self.prior, self.maximum, self.charset = parser, part, n, g, prior, maximum, charset

    def init(self, L):
        p = getattr(self.parser, "_current_part", None)
        if p is None or not hasattr(p, "data") or not hasattr(p, "file") or not isinstance(p.data, bytearray) or not hasattr(self.parser, "items"):
            self.c.give_up("the state of a part is kept otherwise")
        self.state = p
        self.items = self.parser.items

    def gen(self, L, i):
        c, p, g = self.c, self.state, self.g
        g.total = c.bytes("total so far")
        L.allow(self.parser)
        L.allow(p)
        if self.part.is_file:
            f = p.file
            L.allow(f)
            L.allow(f.file)
            f.size = len(g.total)
            f.file.data, f.file.pos = g.total, len(g.total)
            f.file._rolled = c.bool("rolled over")
        else:
            p.data = bytearray(g.total)
            L.allow(p.data)
            c.assume(len(g.total) <= self.maximum)
        for q in ("_file_parts_to_write", "_file_parts_to_finish", "items"):
            if hasattr(self.parser, q):
                L.allow(getattr(self.parser, q))
        if not L.generic:
            if self.part.is_file:
                f.file.pos = 0
                self.items.append((safe(self.part.name, self.charset), f))
            else:
                self.items.append((safe(self.part.name, self.charset), safe(g.total, self.charset)))
        return {}

    def check(self, L, i):
        c, p, g = self.c, self.state, self.g
        queues = [list(getattr(self.parser, q)) for q in ("_file_parts_to_write", "_file_parts_to_finish") if hasattr(self.parser, q)]
        c.check("inv: nothing is left to be written or rewound", all([len(q) == 0 for q in queues]), queues)
        if i == 0 or i <= self.n:
            c.check("inv: the part goes on", self.parser._current_part is p and (p.file is not None) == self.part.is_file)
            same_list(c, "inv: no item yet", list(self.parser.items), self.prior)
            if self.part.is_file:
                data, at = the_content(c, p.file)
                c.check("inv: everything so far is in the file", data == g.total and at == len(g.total) and p.file.size == len(g.total), data)
            else:
                c.check("inv: everything so far is kept", p.data == g.total and len(g.total) <= self.maximum, p.data)
            return
        items = list(self.parser.items)
        same_list(c, "one item is added", items[:-1], self.prior)
        self.part.judge(items[-1], g.total, self.charset)


class G:
    _ghost_ok = True


class Events:
    """a chunk: events, adding their data to the ghost total"""

    def __init__(self, g, events):
        self.g, self.events = g, events

    def __iter__(self):
        for e in self.events:
            if e[0] == "on_part_data":
                self.g.total = self.g.total + e[2]
            yield e


def data_event(c, n):
    return ("on_part_data", c.bytes(n + " before", ex=[b"", b"\r\n"]), c.bytes(n + " data", ex=[b"a", b"bc", b"\xff" * 3, b"x" * 10]), c.bytes(n + " after", ex=[b"", b"--B"]))


def one_part(c):
    """one part after any others, its data arriving in any number of chunks, against any limits"""
    charset_given = c.choose("charset", [None, b"latin-1", b"bogus"])
    charset = "utf-8" if charset_given is None else charset_given.decode()
    is_file = c.bool("file")
    max_files, max_fields = c.int("max files", 0, ex=[0, 1, 2]), c.int("max fields", 0, ex=[0, 1, 2])
    maximum = c.int("max part size", 0, ex=[0, 3, 10])
    prior = c.list("parts before", lambda c, n: (c.str(n + " name"), c.str(n + " value"))) if c.mode == "proof" else []
    files, fields = (c.int("files before", 0), c.int("fields before", 0)) if c.mode == "proof" else (0, 0)
    g = G()
    g.total = b""
    made = c.tempfiles
    g.over = False

    def start():
        for e in part.events:
            lib.fire(*e)
    lib = Lib(c, charset_given, before=None)
    part = Part(c, lib, "part", is_file, [(b"X-Header", c.bytes("header value"))] if c.bool("another header") else [], split=False)
    chunks = c.list("data chunks", lambda c, n: Events(g, [data_event(c, n)] + ([data_event(c, n + "'")] if c.bool(n + " two events") else [])))
    n = c.length(chunks)
    first, last = part.events, [("on_part_end",), ("on_end",)]

    async def stream():
        yield first
        for x in chunks:
            yield x
        yield last
    if c.mode == "proof":
        lib.before = start
        source = c.stream(list(chunks) + [last])
    else:
        source = stream()
    parser = MultiPartParser(Headers(CT), source, max_files=max_files, max_fields=max_fields, max_part_size=maximum)
    if c.mode == "proof":
        if not (hasattr(parser, "items") and hasattr(parser, "_current_files") and hasattr(parser, "_current_fields")):
            c.give_up("limits are kept otherwise")
        parser.items = list(prior)
        parser._current_files, parser._current_fields = files, fields
        c.loop(CHUNKS, DataChunks(c, parser, part, n, g, prior, maximum, charset))
    raised = form = None
    try:
        form = c.run(parser.parse())
    except MultiPartException as e:
        raised = e
    too_many = (files + 1 > max_files) if is_file else (fields + 1 > max_fields)
    too_long = not is_file and len(g.total) > maximum
    if raised is not None:
        c.check("rejected only beyond a limit", c.any([too_many, too_long]), (g.total, raised.message))
        c.check("its temporary files are closed", all([f.closed for f in made]))
        return
    c.check("accepted only within the limits", not too_many and not too_long, g.total)
    items = form.multi_items()
    c.check("one item for the part", len(items) == c.length(prior) + 1)
    part.judge(items[-1], g.total, charset)



def heading(c):
    """header lines, in any number of pieces, after any others of the part"""
    lib = Lib(c)
    parser = MultiPartParser(Headers(CT), c.stream([]))
    prior = c.list("lines before", lambda c, n: (c.bytes(n + " name"), c.bytes(n + " value")))
    name, value = c.bytes("name so far"), c.bytes("value so far")
    which = c.choose("line", ["Content-Disposition", "any"])
    n2, v2 = c.bytes("name, next piece", ex=[b"X"]), c.bytes("value, next piece", ex=[b"y"])
    if which != "any":
        name, n2 = b"Content-", b"DISposition"
    old = c.bytes("disposition before", ex=[b"d"]) if c.bool("after a disposition") else None

    def start():
        lib.fire("on_part_begin")
        p = getattr(parser, "_current_part", None)
        if p is None or not hasattr(p, "item_headers") or not hasattr(p, "content_disposition") or not hasattr(parser, "_current_partial_header_name") \
                or not hasattr(parser, "_current_partial_header_value"):
            c.done()
        c.check("a part begins without headers and data", list(p.item_headers) == [] and p.content_disposition is None and len(p.data) == 0 and p.file is None, p)
        c.check("no line is begun", parser._current_partial_header_name == b"" and parser._current_partial_header_value == b"")
        p.item_headers = list(prior)
        p.content_disposition = old
        if c.bool("two pieces"):
            parser._current_partial_header_name, parser._current_partial_header_value = name, value
        else:
            lib.fire("on_header_field", b"", name, b"")
        lib.fire("on_header_field", b"a", n2, b"b")
        if parser._current_partial_header_value != value:
            lib.fire("on_header_value", b"", value, b"xy")
        lib.fire("on_header_value", b"c", v2, b"")
        whole, text = (name + n2).lower(), value + v2
        c.check("pieces are put together", parser._current_partial_header_name.lower() == whole and parser._current_partial_header_value == text)
        lib.fire("on_header_end")
        same_list(c, "the line is added to the part's headers", list(p.item_headers), list(prior) + [(whole, text)])
        c.check("the disposition is remembered", p.content_disposition == (text if whole == b"content-disposition" else old), p.content_disposition)
        c.check("the next line begins empty", parser._current_partial_header_name == b"" and parser._current_partial_header_value == b"")
    lib.before = start
    c.run(parser.parse())


class Sink(Ghost):
    """an upload that is only told of writes and rewinds; the uploads share a log"""

    def __init__(self, log, key):
        self.log, self.key = log, key

    async def write(self, data):
        self.log.c.check("writes in order, each once, before any rewinding", self.log.wrote < self.log.c.length(self.log.writes) and self.log.rewound == 0)
        part, expected = self.log.writes[self.log.wrote]
        self.log.c.check("to the file of the part", part.file.key == self.key)
        self.log.c.check("the part's data", data == expected, data)
        self.log.wrote = self.log.wrote + 1

    async def seek(self, offset):
        self.log.c.check("rewinding after all writes, each once", self.log.wrote == self.log.c.length(self.log.writes) and self.log.rewound < self.log.c.length(self.log.ends))
        self.log.c.check("the file of the part", self.log.ends[self.log.rewound].file.key == self.key)
        self.log.c.check("to the start", offset == 0)
        self.log.rewound = self.log.rewound + 1


class Holder(Ghost):
    def __init__(self, log, file):
        self.log, self.file = log, file


class Counting(Loop):
    """the loop's calls so far are counted in one attribute"""

    def __init__(self, log, name):
        self.log, self.name = log, name

    def gen(self, L, i):
        self.log.__dict__[self.name] = i
        return {}

    def check(self, L, i):
        self.c.check("inv: one call per element", getattr(self.log, self.name) == i)


def flush(c):
    """after each chunk: whatever is to be written is written, then the finished files are rewound"""
    log = G()
    log.c, log.wrote, log.rewound = c, 0, 0
    lib = Lib(c)
    parser = MultiPartParser(Headers(CT), c.stream([[]]))
    if not isinstance(getattr(parser, "_file_parts_to_write", None), list) or not isinstance(getattr(parser, "_file_parts_to_finish", None), list):
        c.done()
    log.writes = c.list("writes", lambda c, n: (Holder(log, Sink(log, c.int(n + " key"))), c.bytes(n + " data")))
    log.ends = c.list("finished", lambda c, n: Holder(log, Sink(log, c.int(n + " key"))))

    def fill():
        parser._file_parts_to_write = list(log.writes)
        parser._file_parts_to_finish = list(log.ends)
    lib.before = fill
    c.loop(WRITES, Counting(log, "wrote"))
    c.loop(SEEKS, Counting(log, "rewound"))
    c.run(parser.parse())
    c.check("everything is written", log.wrote == c.length(log.writes))
    c.check("and rewound", log.rewound == c.length(log.ends))
    c.check("once", len(parser._file_parts_to_write) == 0 and len(parser._file_parts_to_finish) == 0)


class Temp(Ghost):
    """a temporary file that is to be closed"""

    def __init__(self, log, key):
        self.log, self.key = log, key

    def close(self):
        self.log.c.check("each file is closed once", self.log.closed < self.log.c.length(self.log.files) and self.log.files[self.log.closed].key == self.key)
        self.log.closed = self.log.closed + 1


FAILURES = [MultiPartException("x"), Err(), OSError("disk full"), KeyboardInterrupt()]


def closing(c):
    """on any failure every file made so far is closed"""
    log = G()
    log.c, log.closed = c, 0
    lib = Lib(c)
    err = c.choose("failure", FAILURES)
    where = c.choose("in", ["the parser", "the stream", "the end of the parser"])
    if where == "the end of the parser":
        lib.final = err
    parser = MultiPartParser(Headers(CT), c.stream([[("raise", err)]] if where == "the parser" else [], err if where == "the stream" else None))
    if not isinstance(getattr(parser, "_files_to_close_on_error", None), list):
        c.done()
    log.files = c.list("files made", lambda c, n: Temp(log, c.int(n + " key")))

    def made():
        parser._files_to_close_on_error = list(log.files)
    lib.before = made
    c.loop(CLOSES, Counting(log, "closed"))
    raised = None
    try:
        c.run(parser.parse())
    except (MultiPartException, Err, OSError, KeyboardInterrupt) as e:
        raised = e
    c.check("the failure is raised", raised is err, raised)
    c.check("every file is closed", log.closed == c.length(log.files))


class File(Ghost):
    """a file with or without a memory part"""

    def __init__(self, c, rolled, content):
        self.c = c
        self.calls, self.content = [], content
        if rolled is not None:
            self._rolled = rolled

    def write(self, data):
        self.calls.append(("write", data))
        return len(data)

    def read(self, size):
        self.calls.append(("read", size))
        return self.content

    def seek(self, offset):
        self.calls.append(("seek", offset))
        return offset

    def close(self):
        self.calls.append(("close", None))


def upload(c):
    """an upload's operations are those of its file, and it keeps its size"""
    content = c.bytes("content")
    f = File(c, c.choose("rolled", [None, False, True]), content)
    size = c.int("size", 0) if c.bool("size known") else None
    given = c.choose("headers", [None, Headers({"content-type": "text/x"})])
    u = UploadFile(f, size=size, filename=c.choose("filename", [None, "a"]), headers=given)
    op = c.choose("operation", ["write", "read", "read all", "seek", "close"])
    data, n = c.bytes("data", ex=[b"", b"ab"]), c.int("n", 0)
    r = c.run({"write": lambda: u.write(data), "read": lambda: u.read(n), "read all": lambda: u.read(), "seek": lambda: u.seek(n), "close": lambda: u.close()}[op]())
    if op.startswith("read"):
        c.check("it returns what the file does", r == content)
    expected = {"write": ("write", data), "read": ("read", n), "read all": ("read", -1), "seek": ("seek", n), "close": ("close", None)}[op]
    c.check("one operation on the file", len(f.calls) == 1 and f.calls[0][0] == expected[0] and f.calls[0][1] == expected[1], f.calls)
    if size is None:
        c.check("an unknown size stays unknown", u.size is None)
    else:
        c.check("the size counts what is written", u.size == (size + len(data) if op == "write" else size), u.size)
    c.check("the content type is the header's", u.content_type == (None if given is None else "text/x"))


def wire(parts):
    body = b""
    for name, filename, headers, data in parts:
        body += b"--B\r\nContent-Disposition: form-data; name=\"" + name + b"\""
        if filename is not None:
            body += b"; filename=\"" + filename + b"\""
        body += b"\r\n"
        for n, v in headers:
            body += n + b": " + v + b"\r\n"
        body += b"\r\n" + data + b"\r\n"
    return body + b"--B--\r\n"


class Body:
    """the request's receive channel: chunks of a body, then perhaps a failure"""

    def __init__(self, chunks, fail=None):
        self.chunks, self.fail, self.n = chunks, fail, 0

    async def __call__(self):
        self.n += 1
        if self.n <= len(self.chunks):
            return {"type": "http.request", "body": self.chunks[self.n - 1], "more_body": self.n < len(self.chunks) or self.fail is not None}
        if self.fail is None:
            return {"type": "http.request", "body": b"", "more_body": False}
        raise self.fail


def on_the_wire(c):
    """whole requests, the real parser of the library: every split of the body, against limits, and failures at any point"""
    c.bound("up to 3 parts of at most 9 bytes of data (the events between them: contracts one_part, heading, flush, closing)")
    if c.symbolic:
        c.done()
    parts = []
    for i in range(c.choose("parts", [0, 1, 2, 3])):
        is_file = c.bool(f"{i} is a file")
        parts.append((c.bytes(f"name {i}", re="[a-z \xe9]{0,5}"), c.bytes(f"filename {i}", re="[a-z.\xe9]{0,5}") if is_file else None,
                      [(b"X-A", c.bytes(f"header {i}", re="[a-z]{1,5}"))] if c.bool(f"header of {i}") else [],
                      c.bytes(f"data {i}", re="[a-c\r\n\x00\xff-]{0,9}", ex=[b"", b"\r\n", b"\r\n--", b"\r\n-", b"--B"])))
    for p in parts:
        c.assume(b"\r\n--B" not in b"\r\n" + p[3] + b"\r\n")
    body = wire(parts)
    cuts = sorted([c.int(f"cut {i}", 0, len(body)) for i in range(c.choose("cuts", [0, 1, 2, 5]))])
    if c.bool("byte by byte"):
        cuts = list(range(1, len(body)))
    pieces = [body[a:b] for a, b in zip([0] + cuts, cuts + [len(body)])]
    nf, nt = len([p for p in parts if p[1] is not None]), len([p for p in parts if p[1] is None])
    limits = {}
    if c.bool("limits"):
        limits = {"max_files": c.int("max files", 0, 3), "max_fields": c.int("max fields", 0, 3), "max_part_size": c.int("max part size", 0, 9)}
    made = c.tempfiles
    fail = c.choose("failure", [None, None, "stream", "write"])
    err = Err()
    in_app = c.bool("in an application")
    writes = [0]
    if fail == "write":
        at = c.choose("write", [1, 2])
        import tempfile
        real = tempfile.SpooledTemporaryFile.write

        def write(self, data):
            writes[0] += 1
            if writes[0] == at:
                raise err
            return real(self, data)
        c.stub("tempfile:SpooledTemporaryFile.write", write)
    source = Body(pieces[:-1] if fail == "stream" else pieces, err if fail == "stream" else None)
    scope = {"type": "http", "method": "POST", "path": "/", "query_string": b"", "headers": [(b"content-type", b"multipart/form-data; boundary=B")], **({"app": None} if in_app else {})}
    request = Request(scope, source)
    raised = form = None
    try:
        form = c.run(await_form(request, limits))
    except (MultiPartException, HTTPException, Err) as e:
        raised = e
    beyond = limits and (nf > limits["max_files"] or nt > limits["max_fields"] or any(p[1] is None and len(p[3]) > limits["max_part_size"] for p in parts))
    if raised is not None:
        c.check("refused for a reason", fail is not None or beyond, raised)
        c.check("every temporary file is closed", all([f.closed for f in made]), made)
        if not isinstance(raised, Err):
            c.check("as a bad request within an application", isinstance(raised, HTTPException) == in_app and (not in_app or raised.status_code == 400), raised)
        return
    c.check("accepted within the limits only", not beyond, parts)
    c.check("a failure is not lost", fail != "stream" and (fail is None or writes[0] == 0 or writes[0] < at), fail)
    items = form.multi_items()
    c.check("one item per part", len(items) == len(parts), items)
    for (name, filename, headers, data), (k, v) in zip(parts, items):
        c.check("under its name", k == safe(name, "utf-8"), (k, name))
        if filename is None:
            c.check("the text", v == safe(data, "utf-8"), (v, data))
            continue
        got, at = the_content(c, v)
        c.check("the file", got == data and at == 0 and v.size == len(data) and v.filename == safe(filename, "utf-8"), (got, at, v))
        c.check("its headers", list(v.headers.raw)[1:] == [(n.lower(), x) for n, x in headers], v.headers)
    c.check("the form is read once", c.run(await_form(request, {})) is form)
    c.run(request.close())
    c.check("closing the request closes the files", all([f.closed for f in made]))


async def await_form(request, limits):
    return await request.form(**limits)


HARNESSES = [one_part, heading, flush, closing, upload, on_the_wire]
OPTS = {"on_the_wire": {"rand_n": 6000}}
