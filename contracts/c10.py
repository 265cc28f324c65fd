"""C10: static files."""
import errno
import os
import pathlib
import posixpath
import stat

import starlette.staticfiles
from starlette.exceptions import HTTPException
from starlette.staticfiles import StaticFiles

from contracts.common import *
from engine.contract import internal

LOOKUP = "starlette.staticfiles:StaticFiles.lookup_path#0"
FOUND = ["file", "no such file", "part of it is a file", "not permitted", "name too long", "other failure"]


class Info:
    _ghost_ok = True

    def __init__(self, mode=stat.S_IFREG | 0o644, size=0, mtime=0.0):
        self.st_mode, self.st_size, self.st_mtime = mode, size, mtime


class Dir(Ghost):
    """one configured directory, and what becomes of the path looked up in it"""

    def __init__(self, c, n, names):
        self.c, self.key = c, c.int(n + " key")
        self.base = c.str(n + " resolved", re="(/[^/]+)+", ex=["/srv/static", "/srv/a"])
        self.target = c.str(n + " target", re="/.*", ex=["/srv/static/x", "/srv/static", "/srv/static-secret/x", "/etc/passwd", "/srv/a/x"])
        self.found = c.choose(n + " found", FOUND)

    def __fspath__(self):
        self.c.give_up("a directory is resolved otherwise")


def inside(d):
    return d.target == d.base or d.target.startswith(d.base + "/")


class Joined(Ghost):
    def __init__(self, c, d):
        self.c, self.d = c, d

    def __fspath__(self):
        self.c.give_up("a path is resolved otherwise")


class Err(OSError):
    pass


ERRORS = {"no such file": FileNotFoundError, "part of it is a file": NotADirectoryError, "not permitted": PermissionError}


def failure(found):
    if found in ERRORS:
        return ERRORS[found]()
    return Err(errno.ENAMETOOLONG if found == "name too long" else errno.EIO, "failed")


class Paths(Ghost):
    """os.path, over directories that are not spelled out (assumed: realpath and abspath give absolute paths without symbolic links,
    "." or ".."; commonpath([p, d]) is d if and only if p is d or below d)"""

    def __init__(self, os_, resolve):
        self.c, self.os, self.resolve = os_.c, os_, resolve

    def join(self, d, *more):
        if isinstance(d, str):
            return posixpath.join(d, *more)
        if not isinstance(d, Dir) or len(more) != 1 or not bool(more[0] == self.os.asked):
            self.c.give_up("paths are joined otherwise")
        return Joined(self.c, d)

    def resolved(self, p, how):
        if how != self.resolve or not isinstance(p, (Dir, Joined)):
            self.c.give_up("paths are resolved otherwise")
        if isinstance(p, Dir):
            return p.base
        self.os.current = p.d
        return p.d.target

    def realpath(self, p, *a, **k):
        if a or k:
            self.c.give_up("paths are resolved otherwise")
        return self.resolved(p, "realpath")

    def abspath(self, p):
        return self.resolved(p, "abspath")

    def commonpath(self, ps):
        c, d = self.c, self.os.current
        if len(ps) != 2 or d is None:
            c.give_up("paths are compared otherwise")
        for x, y in ((ps[0], ps[1]), (ps[1], ps[0])):
            if x == d.target and y == d.base:
                if inside(d):
                    return d.base
                if not c.symbolic:
                    return posixpath.commonpath([d.target, d.base])
                shared = c.str(f"shared {self.os.n}", re="/.*")
                self.os.n = self.os.n + 1
                c.assume(shared != d.base)
                c.assume(d.base.startswith(shared))
                return shared
        c.give_up("paths are compared otherwise")


class Os(Ghost):
    def __init__(self, c, asked, follow):
        self.c, self.asked, self.current, self.n = c, asked, None, 0
        self.path = Paths(self, "abspath" if follow else "realpath")
        self.stats = 0

    def stat(self, p):
        c, d = self.c, self.current
        if d is None:
            c.give_up("files are looked at otherwise")
        c.check("only files inside the directory are looked at", p == d.target and bool(inside(d)), p)
        if d.found != "file":
            raise failure(d.found)
        return Info()


def gone(d):
    """the directory does not have the file"""
    return not inside(d) or d.found == "no such file" or d.found == "part of it is a file"


class Looking(Loop):
    """the directories before the i-th do not have the file"""

    def __init__(self, dirs, os_):
        self.dirs, self.os = dirs, os_

    def gen(self, L, i):
        self.os.current = None
        L.none(lambda d: not gone(d), i)
        return {}

    def check(self, L, i):
        if i != 0:
            self.c.check("inv: the directory does not have the file", gone(self.dirs[i - 1]))


def with_dirs(dirs):
    class Configured(StaticFiles):
        def get_directories(self, directory=None, packages=None):
            return dirs
    return Configured


def lookup(c):
    """any number of directories: the first that has the file inside it"""
    follow = c.bool("follow symlinks")
    asked = c.str("path", ex=["x", "../x", "."])
    dirs = c.list("dirs", lambda c, n: Dir(c, n, None))
    if getattr(starlette.staticfiles, "os", None) is not os:
        c.give_up("the file system is used otherwise")
    app = with_dirs(dirs)(directory=None, check_dir=False, follow_symlink=follow)
    fake = Os(c, asked, follow)
    c.loop(LOOKUP, Looking(dirs, fake))
    c.stub("starlette.staticfiles:os", fake)
    first = seq_first(dirs, lambda d: not gone(d))
    raised = got = None
    try:
        got = app.lookup_path(asked)
    except OSError as e:
        raised = e
    if first is None:
        c.check("no directory has it: nothing is found", raised is None and got[1] is None, got)
    elif first.found == "file":
        c.check("the first directory that has it is used", raised is None and got[1] is not None and got[0] == first.target, got)
    else:
        c.check("a failure of the first directory that does not lack it is raised", raised is not None and type(raised) is type(failure(first.found)), raised)


class Looked(StaticFiles):
    """lookups with given results"""

    def expect(self, c, results):
        self.c, self.results, self.looked = c, results, []

    def lookup_path(self, path):
        self.looked.append(path)
        for p, r in self.results:
            if p == path:
                if isinstance(r, BaseException):
                    raise r
                return r
        self.c.check("the file asked for, its index page or the error page is looked up", False, path)


class Client:
    _ghost_ok = True

    def __init__(self):
        self.sent = []

    async def send(self, m):
        self.sent.append(m)


def serve(c, app, scope):
    """-> (status, header names and values, body) or the exception raised"""
    client = Client()
    try:
        c.run(app(scope, no_receive, client.send), loop=True)
    except HTTPException as e:
        c.check("nothing is sent before an error", client.sent == [])
        return e.status_code, None, None
    except OSError as e:
        c.check("nothing is sent before an error", client.sent == [])
        return e, None, None
    sent = client.sent
    c.check("one start, then the body", sent[0]["type"] == "http.response.start" and all(m["type"] == "http.response.body" for m in sent[1:]) and not sent[-1].get("more_body", False), sent)
    body = b""
    for m in sent[1:]:
        body = body + m.get("body", b"")
    return sent[0]["status"], list(sent[0]["headers"]), body


def one(c, headers, name):
    vs = hdr(headers, name)
    c.check("a header is sent once: " + name.decode(), len(vs) <= 1, headers)
    return vs[0].decode("latin-1") if vs else None


def a_file(c, name, kind):
    """-> (path, stat result or error, content)"""
    if kind == "file":
        data = name.encode()
        path = c.binfile([data], 1700000000.0)
        return (path, Info(size=len(data), mtime=1700000000.0)), data
    if kind == "directory":
        return ("/srv/dir", Info(stat.S_IFDIR | 0o755)), None
    if kind == "socket":
        return ("/srv/sock", Info(stat.S_IFSOCK | 0o755)), None
    if kind == "nothing":
        return ("", None), None
    if kind == "value error":
        return ValueError("embedded null byte"), None
    return failure(kind), None


KINDS = ["file", "directory", "socket", "nothing", "not permitted", "name too long", "other failure", "value error"]


def outcome(c):
    """what is answered, for every outcome of the lookups"""
    html = c.bool("html")
    method = c.choose("method", ["GET", "HEAD", "POST", "PUT", "OPTIONS", "get"])
    main_kind = c.choose("the path is", KINDS)
    index_kind = c.choose("the index page is", ["file", "directory", "nothing", "not permitted", "name too long"]) if html and main_kind == "directory" else "nothing"
    page_kind = c.choose("the error page is", ["file", "directory", "nothing"]) if html else "nothing"
    main, data = a_file(c, "file", main_kind)
    index, index_data = a_file(c, "index", index_kind)
    page, page_data = a_file(c, "error page", page_kind)
    if html and index_kind == "file":
        rel = c.str("path", re="[a-z0-9_-]+", ex=["a", "sub"])
    else:
        rel = c.choose("path", ["a", "a/b", "."])
    slash = c.bool("trailing slash")
    path = "/" + rel + ("/" if slash else "")
    app = Looked(directory=None, check_dir=False, html=html)
    app.get_path = lambda scope: rel
    app.expect(c, [(rel, main), (rel + "/index.html", index), ("404.html", page)])
    scope = {"type": "http", "method": method, "path": path, "query_string": b"", "headers": [(b"host", b"example.org")], "scheme": "http"}
    status, headers, body = serve(c, app, scope)
    shown = (lambda d: b"") if method == "HEAD" else (lambda d: d)
    if method not in ("GET", "HEAD"):
        c.check("other methods are 405", status == 405, status)
        c.check("and nothing is looked up", app.looked == [], app.looked)
        return
    if main_kind == "not permitted" or index_kind == "not permitted":
        return c.check("permission failures are 401", status == 401, status)
    if main_kind == "other failure":
        return c.check("other failures are raised", status is main, status)
    if main_kind == "file":
        c.check("the file is served", status == 200 and one(c, headers, b"content-length") == str(len(data)) and body == shown(data), (status, headers, body))
        c.check("it is the only one looked up", app.looked == [rel], app.looked)
    elif html and index_kind == "file" and not slash:
        c.check("a directory without a slash is redirected", status == 307 and one(c, headers, b"location") == "http://example.org" + path + "/", (status, headers))
    elif html and index_kind == "file":
        c.check("a directory's index page is served", status == 200 and one(c, headers, b"content-length") == str(len(index_data)) and body == shown(index_data), (status, headers, body))
    elif page_kind == "file" and main_kind not in ("name too long", "value error") and index_kind != "name too long":
        c.check("the error page is served with 404", status == 404 and headers is not None and body == shown(page_data), (status, headers, body))
    else:
        c.check("anything else is 404", status == 404 and (headers is None or page_kind == "file"), (status, headers))


def not_modified(c):
    """304 only for a listed entity tag or a date not older than the file, without a body"""
    data, mtime = b"abc", 1700000000.25
    path = c.binfile([data], mtime)
    app = Looked(directory=None, check_dir=False)
    app.get_path = lambda scope: "x"
    app.expect(c, [("x", (path, Info(size=len(data), mtime=mtime)))])
    method = c.choose("method", ["GET", "HEAD"])
    base = {"type": "http", "method": method, "path": "/x", "query_string": b""}
    status, headers, body = serve(c, app, dict(base, headers=[]))
    c.check("without conditions the file is sent", status == 200, status)
    etag, date = one(c, headers, b"etag"), one(c, headers, b"last-modified")
    hs, listed, fresh = [], False, False
    [about] = aspect(c, "tags", "dates") if c.mode == "proof" else ["both"]
    kind = c.choose("if-none-match", ["absent", "listed", "listed weak", "others"] if about != "dates" else ["absent", "others"])
    if kind != "absent":
        tags = []
        for i in range(c.choose("other tags", [0, 1, 2] if about != "dates" else [1])):
            t = '"' + c.str(f"tag {i}", re=r"[!#-+.-~-]*", ex=["", "x", "W/"]) + '"'
            c.assume(t != etag)
            tags.append((c.choose(f"weak {i}", ["", "W/"])) + t)
        if kind != "others":
            tags.insert(c.choose("at", [0, 1, 2]) if len(tags) == 2 else 0, ("W/" if kind == "listed weak" else "") + etag)
            listed = True
        hs.append((b"if-none-match", c.choose("separator", [",", ", ", " , "]).join(tags).encode("latin-1")))
    since = c.choose("if-modified-since", ["absent", "older"] if about == "tags" else ["absent", "older", "equal", "newer", "no date"])
    if since != "absent":
        if getattr(starlette.staticfiles, "parsedate", None) is None:
            c.give_up("dates are read otherwise")
        # assumed: parsedate maps dates to values that are ordered as the dates are, and anything else to None
        mine = c.int("date of the file", 0, ex=[5])
        other = {"older": mine - c.int("older by", 1, ex=[1]), "equal": mine, "newer": mine + c.int("newer by", 1, ex=[1]), "no date": None}[since]

        def parsedate(text):
            if text == "asked":
                return None if other is None else (other,)
            c.check("the file's date is what it is compared with", text == date, text)
            return (mine,)
        c.stub("starlette.staticfiles:parsedate", parsedate)
        hs.append((b"if-modified-since", b"asked"))
        fresh = since in ("equal", "newer")
    app.looked = []
    status2, headers2, body2 = serve(c, app, dict(base, headers=hs))
    if status2 == 304:
        c.check("only if the tag is listed or the date not older", listed or fresh, (kind, since))
        c.check("without a body", body2 == b"" and one(c, headers2, b"content-length") is None, (headers2, body2))
        c.check("with the tag", one(c, headers2, b"etag") == etag, headers2)
    else:
        c.check("a listed tag is enough", not listed, (kind, since))
        c.check("a date not older is enough, without tags", not (fresh and kind == "absent"), (kind, since))
        c.check("otherwise the file is sent", status2 == 200 and body2 == (b"" if method == "HEAD" else data), (status2, body2))


def requested(c):
    """the path looked up: the request's path below the application, with "." and ".." removed"""
    c.bound("up to 4 path segments")
    parts, want = [], []
    for i in range(c.choose("segments", [1, 2, 3, 4])):
        kind = c.choose(f"segment {i}", ["name", "", ".", ".."])
        if kind == "name":
            name = c.str(f"name {i}", re="[^/.]+", ex=["a", "b c", "~", "\\u20ac"])
            parts.append(name)
            want.append(name)
        else:
            parts.append(kind)
            if kind == "..":
                if want and want[-1] is not None:
                    want.pop()
                else:
                    want.append(None)
    want = [".." if x is None else x for x in want]
    root = c.choose("mounted at", ["", "/static"])
    path = root + "/" + "/".join(parts)
    f = StaticFiles(directory=None, check_dir=False).get_path
    got = f({"type": "http", "path": path, "root_path": root, "app_root_path": "", "headers": []})
    c.check("the normalised path below the application", got == ("/".join(want) or "."), (path, got))


TREE = {"static/a.txt": "A", "static/sub/b.txt": "B", "static/sub/index.html": "SI", "static/empty/x/y": "Y", "static/404.html": "E",
        "static2/a.txt": "A2", "static2/c.txt": "C", "static2/sub/d.txt": "D", "static-secret/f.txt": "S", "secret.txt": "T", "outside/g.txt": "G", "outside/index.html": "OI"}
LINKS = {"static/out": "../secret.txt", "static/outdir": "../outside", "static/in": "a.txt", "static/indir": "sub", "static/sibling": "../static-secret", "static2/back": "../static/a.txt",
         "static2/top": ".."}
NAMES = ["", ".", "..", "a.txt", "sub", "b.txt", "index.html", "empty", "x", "y", "c.txt", "d.txt", "static", "static2", "static-secret", "f.txt", "secret.txt", "outside", "g.txt",
         "out", "outdir", "in", "indir", "sibling", "back", "top", "404.html", "nul\0byte", "n" * 300, "~", "\\", "..\\secret.txt", "%2e%2e", "etc"]


def tree(c):
    """a real directory tree with symbolic links: only what lies inside is ever served"""
    top = c.scratch()
    for name, text in TREE.items():
        p = pathlib.Path(top, name)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
    for name, to in LINKS.items():
        os.symlink(to, os.path.join(top, name))
    if c.bool("base directory is itself a link"):
        os.symlink("static", os.path.join(top, "alias"))
        names = ["alias"]
    else:
        names = c.choose("directories", [["static"], ["static2"], ["static", "static2"], ["static2", "static"], ["static2/../static"]])
    bases = [os.path.join(top, n) for n in names]
    if c.bool("as path objects"):
        bases = [pathlib.Path(b) for b in bases]
    html, follow = c.bool("html"), c.bool("follow symlinks")
    app = with_dirs(bases)(directory=bases[0], html=html, follow_symlink=follow)
    words = [c.choose(f"segment {i}", NAMES) for i in range(c.choose("segments", [1, 2, 3, 4, 5]))]
    path = "/" + "/".join(words)
    root = c.choose("mounted at", ["", "/m"])
    scope = {"type": "http", "method": "GET", "path": root + path, "root_path": root, "app_root_path": "", "query_string": b"", "headers": [(b"host", b"h")], "scheme": "http"}
    client = Client()
    try:
        c.run(app(scope, no_receive, client.send))
        status, body = client.sent[0]["status"], b"".join(m.get("body", b"") for m in client.sent[1:])
    except HTTPException as e:
        status, body = e.status_code, b""

    def find(rel):
        """independently: walk down, one component at a time"""
        for base in bases:
            at = os.path.abspath(base) if follow else str(pathlib.Path(base).resolve())
            p = os.path.normpath(at + "/" + rel) if follow else str(pathlib.Path(at + "/" + rel).resolve())
            if pathlib.PurePath(p).parts[:len(pathlib.PurePath(at).parts)] != pathlib.PurePath(at).parts:
                continue
            if os.path.exists(p):
                return p
        return None
    stack = []
    for w in words:
        if w == "..":
            if stack and stack[-1] != "..":
                stack.pop()
            else:
                stack.append("..")
        elif w not in ("", "."):
            stack.append(w)
    rel = "/".join(stack)
    bad = any("\0" in w or len(w) > 255 for w in stack)
    main = None if bad else find(rel)
    want, code = b"", 404
    if main is not None and os.path.isfile(main):
        want, code = pathlib.Path(main).read_bytes(), 200
    elif not bad and html:
        index = find(rel + "/index.html") if main is not None else None
        page = find("404.html")
        if index is not None and os.path.isfile(index):
            code, want = (200, pathlib.Path(index).read_bytes()) if (root + path).endswith("/") else (307, b"")
        elif page is not None:
            code, want = 404, pathlib.Path(page).read_bytes()
    c.check("the answer is that of the file system", status == code, (path, status, code))
    if bad and html and body == b"E" and find("404.html"):
        return
    c.check("and serves that file only", body == want, (path, body, want))


HARNESSES = [lookup, outcome, not_modified, requested, tree]
BOUNDED = {"tree": "a real directory tree and the real os module; requests of up to 5 listed segments"}
OPTS = {"tree": {"rand_n": 2500}}
