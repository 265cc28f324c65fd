"""Concrete context: the same contracts run on the real, uninstrumented code under plain CPython
(replay of counterexamples and of per-path models; random cross-check)."""
from __future__ import annotations

import asyncio
import importlib
import os
import random
import traceback

ANY, LATIN1, ASCII = 2, 1, 0


class Discard(BaseException):
    pass


class CheckFailed(BaseException):
    def __init__(self, label, info=""):
        self.label, self.info = label, info


_MISSING = object()
BASE_STR = ["", "a", "b", "/", "foo", "Foo", "a b", "é", "x-y", "1", "10", "-1", " ", "a,b", "ab", "Ā", "%2F", "\u20ac", "A",
            "a=b", "a;b", "*", "\n", "日本", ".", "..", "0", "☃", "aa", "\"", "<b>", "&", "?", "#", ":", "@"]


class ConcCtx:
    symbolic = False
    thorough = os.environ.get("VERIF_TIER_USED") == "thorough"
    mode = "concrete"

    def __init__(self, values=None, rng=None, pool=None, list_max=5):
        self.values = values
        self.rng = rng or random.Random(0)
        self.names = {}
        self.drawn = []
        self.drawn_b = []
        self.inputs = {}
        self.pool = pool or BASE_STR
        self.cleanup = []
        self.labels = {}
        self.list_max = list_max
        self.loop_ = None
        self.misses = 0

    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else f"{n}#{k}"

    def _given(self, name):
        if self.values is not None and name in self.values:
            return True, self.values[name]
        if self.values is not None:
            self.misses += 1
        return False, None

    # -- inputs
    def str(self, name, re=None, alpha=ANY, ex=None, lo=None, hi=None):
        name = self._name(name)
        ok, v = self._given(name)
        if not ok:
            v = self._gen(re, alpha, ex, lo, hi, self.drawn)
        self.inputs[name] = v
        self.drawn.append(v)
        if re is not None:
            import re as _re
            self.assume(_re.fullmatch(re, v, _re.S) is not None)
        if lo is not None:
            self.assume(len(v) >= lo)
        if hi is not None:
            self.assume(len(v) <= hi)
        return v

    def bytes(self, name, re=None, ex=None, lo=None, hi=None, alpha=LATIN1):
        name = self._name(name)
        ok, v = self._given(name)
        if ok:
            v = v["bytes"] if isinstance(v, dict) else v
            b = v.encode("latin-1")
        else:
            if ex is not None and not callable(ex):
                ex = [e.decode("latin-1") if isinstance(e, bytes) else e for e in ex]
            v = self._gen(re if not isinstance(re, bytes) else re.decode("latin-1"), min(alpha, LATIN1), ex, lo, hi, self.drawn_b)
            b = v.encode("latin-1")
        self.inputs[name] = {"bytes": v}
        self.drawn_b.append(v)
        if re is not None:
            import re as _re
            self.assume(_re.fullmatch(re if isinstance(re, str) else re.decode("latin-1"), v, _re.S) is not None)
        if lo is not None:
            self.assume(len(b) >= lo)
        if hi is not None:
            self.assume(len(b) <= hi)
        return b

    def _gen(self, re, alpha, ex, lo, hi, drawn):
        r = self.rng
        lim = (127, 255, 0x10ffff)[alpha]

        def okc(s):
            return all(ord(c) <= lim for c in s)
        for _ in range(20):
            x = r.random()
            if ex is not None and x < 0.55:
                s = ex(r) if callable(ex) else r.choice(list(ex))
            elif re is not None:
                from .regexgen import gen_regex
                s = gen_regex(re, r)
            elif drawn and x < 0.7:
                s = r.choice(drawn)
                if r.random() < 0.3:
                    s = r.choice([s.upper(), s.lower(), s + r.choice(self.pool), s[:-1], s.title(), s[1:], " " + s])
            elif x < 0.95:
                s = r.choice(self.pool)
                if r.random() < 0.25:
                    s = s + r.choice(self.pool)
            else:
                s = "".join(chr(r.randrange(0, min(lim, 0x2fff) + 1)) for _ in range(r.randrange(0, 6)))
            if lo is not None:
                while len(s) < lo:
                    s += r.choice(["a", "/", "b"])
            if hi is not None:
                s = s[:hi]
            if okc(s):
                return s
        return "a" * (lo or 0)

    def int(self, name, lo=None, hi=None, ex=None):
        name = self._name(name)
        ok, v = self._given(name)
        if not ok:
            r = self.rng
            if ex is not None and r.random() < 0.5:
                v = ex(r) if callable(ex) else r.choice(list(ex))
            else:
                a = lo if lo is not None else -20
                b = hi if hi is not None else max(a + 30, 20)
                v = r.randint(a, b) if r.random() < 0.6 else r.randint(a, min(b, a + 8))
                if hi is None and r.random() < 0.1:
                    v = r.choice([255, 256, 1000, 65535, 10 ** 6])
        self.inputs[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        name = self._name(name)
        ok, v = self._given(name)
        if not ok:
            v = self.rng.random() < 0.5
        self.inputs[name] = bool(v)
        return bool(v)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        name = self._name(name)
        ok, v = self._given(name)
        if not ok or not (0 <= v < len(options)):
            v = self.rng.randrange(len(options))
        self.inputs[name] = v
        return options[v]

    def opt(self, name, mk):
        if self.bool(name + "?"):
            return mk(self, name)
        return None

    def list(self, name, mk, max=None, min=0, proof=True):
        nm = self._name(name)
        ok, v = self._given(nm)
        if not ok:
            m = max if max is not None else self.list_max
            v = self.rng.randint(min, m) if self.rng.random() < 0.8 else min
        self.inputs[nm] = v
        return [mk(self, f"{nm}[{i}]") for i in range(v)]

    def index(self, n):
        return int(n.rsplit("[", 1)[1].rstrip("]"))

    def length(self, xs):
        return len(xs)

    # -- outputs
    def assume(self, cond):
        if not cond:
            raise Discard()

    def stream(self, items, end=None):
        async def g():
            for e in items:
                yield e
            if end is not None:
                raise end
        return g()

    def give_up(self, why):
        self.done()

    def done(self):
        raise Discard()

    def check(self, label, cond, info=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise CheckFailed(label, info)

    def fail(self, label, info=""):
        self.check(label, False, info)

    def bound(self, what):
        pass

    def cover(self, label):
        pass

    def note(self, s):
        pass

    def matches(self, text, pattern):
        import re as _re
        return _re.fullmatch(pattern, text if isinstance(text, str) else text.decode("latin-1"), _re.S) is not None

    def all(self, conds):
        return all([bool(c) for c in conds])

    def any(self, conds):
        return any([bool(c) for c in conds])

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def run(self, coro, loop=False):
        from . import aloop
        try:
            return aloop.run(coro, loop == "strict", 10)
        except BaseException as e:
            for x in aloop.leaves(e):
                if isinstance(x, (Discard, CheckFailed)):
                    raise x
            raise

    def scratch(self):
        """a directory of this run's own"""
        import shutil
        import tempfile
        d = tempfile.mkdtemp(prefix="verif-")
        self.cleanup.append((None, shutil.rmtree, d))
        return d

    def binfile(self, pieces, mtime=0.0):
        path = os.path.join(self.scratch(), "file.bin")
        with open(path, "wb") as f:
            f.write(b"".join(pieces))
        os.utime(path, (mtime, mtime))
        return path

    opened = ()

    def textfile(self, lines):
        path = os.path.join(self.scratch(), "file.txt")
        with open(path, "w", encoding="utf-8") as f:
            f.write("".join(x + "\n" for x in lines))
        return path

    def stub(self, target, value):
        mod, _, path = target.partition(":")
        obj = importlib.import_module(mod)
        parts = path.split(".")
        for p in parts[:-1]:
            obj = getattr(obj, p)
        old = obj.__dict__.get(parts[-1], _MISSING) if hasattr(obj, "__dict__") else getattr(obj, parts[-1])
        setattr(obj, parts[-1], value)
        self.cleanup.append((obj, parts[-1], old))

    @property
    def tempfiles(self):
        """every temporary file made since the first use"""
        if self._tempfiles is None:
            import tempfile
            made = self._tempfiles = []
            init = tempfile.SpooledTemporaryFile.__init__

            def recorded(self, *a, **k):
                init(self, *a, **k)
                made.append(self)
            self.stub("tempfile:SpooledTemporaryFile.__init__", recorded)
        return self._tempfiles

    _tempfiles = None

    def loop(self, site, contract):
        pass

    def _cleanup(self):
        for obj, name, old in reversed(self.cleanup):
            if obj is None:
                name(old, ignore_errors=True)
            elif old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanup = []


def run_concrete(harness, values=None, rng=None, pool=None):
    """-> ('ok'|'discard'|'fail', label, info, inputs, labels)"""
    c = ConcCtx(values, rng, pool)
    try:
        harness(c)
        return ("ok", None, None, c.inputs, c.labels)
    except Discard:
        return ("discard", None, None, c.inputs, c.labels)
    except CheckFailed as e:
        return ("fail", e.label, str(e.info)[:1500], c.inputs, c.labels)
    except Exception as e:
        return ("fail", "no unexpected exception", "".join(traceback.format_exception(e)[-6:])[-2000:], c.inputs, c.labels)
    finally:
        c._cleanup()
