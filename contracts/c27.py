"""C27: configuration values and the guarded environment."""
import warnings

from starlette.config import Config, Environ, EnvironError

from contracts.common import *
from engine.contract import around, raises

KEY = "[A-Za-z_][A-Za-z0-9_]*"


class Env:
    """an environment of arbitrary content, of which only some names matter"""

    def __init__(self, pairs):
        self.pairs = pairs

    def __contains__(self, key):
        return any(k == key for k, v in self.pairs)

    def __getitem__(self, key):
        for k, v in self.pairs:
            if k == key:
                return v
        raise KeyError(key)

    def get(self, key, default=None):
        for k, v in self.pairs:
            if k == key:
                return v
        return default


class Cast:
    """a cast function: converts, or fails"""
    __name__ = "Cast"

    def __init__(self, fails):
        self.fails, self.given = fails, []

    def __call__(self, value):
        self.given.append(value)
        if self.fails is not None:
            raise self.fails
        return ("cast", value)


def lookup(c):
    """environment, file, default, missing; prefix and cast apply to all"""
    file = c.bool("with a file")
    if file:
        prefix, key = c.choose("prefix", ["", "APP_"]), c.choose("key", ["DEBUG", "A"])
        other = c.choose("other key", ["B", key if prefix != "" else "APP_" + key])         # also: the key without its prefix
    else:
        prefix = c.str("prefix", re=f"({KEY})?", alpha=ASCII, ex=["", "APP_", "X"])
        key = c.str("key", re=KEY, alpha=ASCII, ex=["DEBUG", "A"])
        other = c.str("other key", re=KEY, alpha=ASCII, ex=["B", "DEBUG"])
    full = prefix + key
    c.assume(other != full)
    in_env, in_file = c.bool("in environment"), c.bool("in file") if file else False
    env_value, other_value = c.str("env value", ex=["true", "1", ""]), c.str("other value")
    file_value = c.str("file value", re="[a-zA-Z0-9:/.-]+", alpha=ASCII, ex=["1", "f"]) if file else ""
    env = [(other, other_value)] + ([(full, env_value)] if in_env else [])
    path = c.textfile([other + "=o"] + ([full + "=" + file_value] if in_file else [])) if file else None
    config = Config(path, environ=Env(env), env_prefix=prefix)
    how_default = c.choose("default", ["none given", "None", "text", "number"])
    has_default = how_default != "none given"
    default = {"none given": None, "None": None, "text": "d", "number": 5}[how_default]
    kind = c.choose("cast", [None, "fine", "TypeError", "ValueError", "KeyError"])
    err = {"TypeError": TypeError("t"), "ValueError": ValueError("v"), "KeyError": KeyError("k")}.get(kind)
    cast = None if kind is None else Cast(err)
    way = c.choose("way", ["call", "get"])
    f = config if way == "call" else config.get
    more = {"default": default} if has_default else {}
    raised, got = raises(lambda: f(key, cast=cast, **more) if cast is not None else f(key, **more), KeyError, ValueError, TypeError)
    if not in_env and not in_file and not has_default:
        c.check("a missing key is an error", raised and isinstance(got, KeyError), got)
        return
    value = env_value if in_env else file_value if in_file else default
    if cast is None or value is None:
        c.check("the value of the first source that has it", not raised and got == value, (got, value))
        c.check("None is not cast", cast is None or cast.given == [])
        return
    c.check("the cast sees the value once", len(cast.given) == 1 and cast.given[0] == value, (cast.given, value))
    if kind == "fine":
        c.check("the cast value", not raised and got == ("cast", value), got)
    elif kind == "KeyError":
        c.check("other errors of a cast are its own", raised and got is err, got)
    else:
        c.check("a failing cast is a value error", raised and isinstance(got, ValueError), got)


def booleans(c):
    """bool is read from true, false, 1 and 0 only"""
    c.exact_lower = True
    source = c.choose("source", ["environment", "file", "default"])
    value = c.str("value", alpha=c.choose("alphabet", [ASCII, 2]), ex=["true", "TRUE", "False", "0", "1", "yes", "", "tru\u00e9", "01", " true", "\uff11"])
    if source == "file":
        value = c.str("file value", re="[a-zA-Z0-9:/.-]+", alpha=ASCII, ex=["true", "FALSE", "1", "no"])
        config = Config(c.textfile(["K=" + value]), environ=Env([]))
    else:
        config = Config(environ=Env([("K", value)] if source == "environment" else []))
    raised, got = raises(lambda: config("K", cast=bool, default=value) if source == "default" else config("K", cast=bool), ValueError, KeyError)
    if c.matches(value, "[tT][rR][uU][eE]|1"):
        c.check("true", not raised and got is True, (value, got))
    elif c.matches(value, "[fF][aA][lL][sS][eE]|0"):
        c.check("false", not raised and got is False, (value, got))
    else:
        c.check("anything else is a value error", raised and isinstance(got, ValueError), (value, got))


def plain_casts(c):
    """casts of the standard types, and defaults that are no text"""
    cast = c.choose("cast", [bool, int, str])
    v = c.choose("default", [True, False, 0, 7, None])
    got = Config(environ=Env([]))("K", cast=cast, default=v)
    c.check("a default is cast too", got == (None if v is None else cast(v)) and (v is None or type(got) is cast), got)
    if c.bool("a number"):
        text = c.str("number", re="-?[0-9]{1,9}", alpha=ASCII, ex=["12", "-0"])
        c.check("a number", Config(environ=Env([("K", text)]))("K", cast=int) == int(text), text)
    else:
        text = c.str("word", re="[a-z ]*", alpha=ASCII, ex=["x", "", " "])
        raised, got = raises(lambda: Config(environ=Env([("K", text)]))("K", cast=int), ValueError)
        c.check("no number is a value error", raised, (text, got))


# ---- the file
def setting(line):
    """the (key, value) a line gives, or None"""
    line = line.strip()
    if "=" not in line or line[:1] == "#":
        return None
    key, _, value = line.partition("=")
    return key.strip(), value.strip().strip("\"'")


class Lines(Loop):
    """for an arbitrary key: what was read so far holds, under that key, the value of its last setting"""

    def __init__(self, key):
        self.key, self.value, self.cut = key, None, False

    def init(self, L):
        names = [k for k, v in L.vars.items() if isinstance(v, dict) or type(v).__name__ == "VDict"]
        if len(names) != 1:
            self.c.give_up("the values are not collected in one dictionary")
        self.var = names[0]

    def gen(self, L, i):
        self.cut = True
        self.value = self.c.str("value so far") if self.c.bool("present so far") else None
        return {self.var: around(self.c, self.key, [] if self.value is None else [(self.key, self.value)])}

    def check(self, L, i):
        got = L.vars[self.var]
        if not self.cut:
            self.c.check("inv: empty at the start", len(got) == 0)
            return
        if not L.generic:
            return
        for line in L.seg.outs(L.i):
            p = setting(line)
            want = self.value
            if p is not None and p[0] == self.key:
                want = p[1]
            v = got.get(self.key)
            self.c.check("the last setting of a key wins", (v is None) == (want is None) and (v is None or v == want), (line, v, want))


LINE = "[^\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]*"


def file_lines(c):
    """the values of a file of any number of any lines"""
    lines = c.list("lines", lambda c, n: c.str(n, re=LINE, ex=["A=1", "A = '2'", "# A=3", " #A=4", "B=\"x=y\"", "", "nothing", "=", "A=", "A=#", "'A'='1'", "A=\"'", "\tB = a b \t"]))
    path = c.textfile(lines)
    key = c.str("key", ex=["A", "B", "", "'A'"])
    c.loop("starlette.config:Config._read_file#0", Lines(key))
    config = Config(path, environ=Env([]))
    if c.mode == "proof":
        return                                            # by induction over the lines
    want = None
    for line in lines:
        p = setting(line)
        if p is not None and p[0] == key:
            want = p[1]
    raised, got = raises(lambda: config(key), KeyError)
    c.check("the value of the last setting", raised == (want is None) and (raised or got == want), (key, got, want))


def no_file(c):
    """a missing file gives no values"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        config = Config("/verif-nowhere/.env", environ=Env([("A", "1")]))
    c.check("the environment is still used", config("A") == "1" and raises(lambda: config("B"), KeyError)[0])


# ---- the guarded environment
def step(c, env, state, n):
    """one operation on the guarded environment; state: the mapping underneath as it should be; reads: keys read with success
    (touched: keys whose reading failed, which this property says nothing about)"""
    under, model, reads, touched = state
    op = c.choose(f"operation {n}", ["read", "get", "set", "delete"])
    key = c.str(f"key {n}", ex=["A", "B", "C"])
    has = c.any([k == key for k, v in model])
    if op in ("read", "get"):
        raised, got = raises(lambda: env[key] if op == "read" else env.get(key), KeyError)
        if has:
            c.check("a present key is read", not raised and got == [v for k, v in model if k == key][0], (key, got))
            return under, model, reads + [key], touched
        c.check("an absent key is missing", raised if op == "read" else (not raised and got is None), (key, got))
        return under, model, reads, touched + [key]
    if c.any([k == key for k in touched]) and not c.any([k == key for k in reads]):
        c.assume(False)
    guarded = c.any([k == key for k in reads])
    if op == "set":
        value = c.str(f"value {n}", ex=["1", "2"])

        def f():
            env[key] = value
        raised, err = raises(f, EnvironError)
        c.check("a key that was read cannot be set, others can", raised == guarded, (key, reads, err))
        if not raised:
            model = [(k, v) for k, v in model if k != key] + [(key, value)]
    else:
        def f():
            del env[key]
        raised, err = raises(f, EnvironError, KeyError)
        if guarded:
            c.check("a key that was read cannot be deleted", raised and isinstance(err, EnvironError), (key, reads, err))
        else:
            c.check("other keys can be deleted", raised == (not has) and (not raised or isinstance(err, KeyError)), (key, reads, err))
            if not raised:
                model = [(k, v) for k, v in model if k != key]
    return under, model, reads, touched


def start(c):
    model = []
    for i in range(c.choose("present", [0, 1, 2])):
        k = c.str(f"name {i}", ex=["A", "B", "C"])
        if not c.any([k == x for x, v in model]):
            model.append((k, c.str(f"content {i}")))
    under = dict(model)
    return under, model, [], []


def judge(c, env, under, model):
    c.check("the environment underneath holds exactly what was set", len(under) == len(model) == len(env), (under, model))
    for k, v in model:
        c.check("under its name", k in under and under[k] == v, (under, model))
    listed = list(env)
    c.check("every name is listed", len(listed) == len(model) and c.all([c.any([k == x for x in listed]) for k, v in model]), listed)


def history(c):
    """any short history of operations"""
    c.bound("at most 2 names at first and 3 operations")
    state = start(c)
    env = Environ(state[0])
    for n in range(c.choose("operations", [1, 2, 3])):
        state = step(c, env, state, n)
    judge(c, env, state[0], state[1])


class Ghost:
    """ghost: the last key read with success, whether since"""


def guarded_for_ever(c):
    """one operation after any history: whatever has been read so far, what was read stays guarded and is joined by what is read now.
    The state of the object is its mapping and the set of keys read (the representation the contract is about)."""
    env = Environ({})
    if not isinstance(getattr(env, "_has_been_read", None), set) and type(getattr(env, "_has_been_read", None)).__name__ != "VSet":
        c.done()
    key, other = c.str("key", ex=["A", "B"]), c.str("other", ex=["B", "C"])
    value, before = c.str("value"), c.str("before")
    present, was_read, other_read = c.bool("present"), c.bool("was read"), c.bool("other was read")
    c.assume(key != other)
    under = dict([(key, before)] if present else [])
    env = Environ(under)
    for k, r in ((key, was_read), (other, other_read)):
        if r:
            env._has_been_read.add(k)
    op = c.choose("operation", ["read", "set", "delete", "list"])

    def f():
        if op == "read":
            return env[key]
        if op == "set":
            env[key] = value
        elif op == "delete":
            del env[key]
        else:
            return list(env), len(env)
    raised, got = raises(f, KeyError, EnvironError)
    if op in ("set", "delete") and was_read:
        c.check("guarded", raised and isinstance(got, EnvironError) and under == dict([(key, before)] if present else []), got)
    elif op == "set":
        c.check("set", not raised and under == {key: value}, under)
    elif op == "delete":
        c.check("deleted", raised == (not present) and len(under) == 0, under)
    elif op == "read":
        c.check("read", raised == (not present) and (raised or got == before), got)
    read = env._has_been_read
    c.check("a key is guarded once it was read with success", (key in read) or not (was_read or op == "read" and present))
    c.check("and no key is guarded that nobody asked for", not (key in read) or was_read or op == "read")
    c.check("other keys stay as they are", (other in read) == other_read)


HARNESSES = [lookup, booleans, plain_casts, file_lines, no_file, history, guarded_for_ever]
