"""Path templates, described independently of the code: pieces are literal texts or (name, type)."""
import uuid

LANG = {"str": "[^/]+", "int": "[0-9]+", "float": r"[0-9]+(\.[0-9]+)?", "path": r"[^\n]*",
        "uuid": "[0-9a-fA-F]{8}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{4}-?[0-9a-fA-F]{12}"}
CONVERT = {"str": lambda s: s, "int": int, "float": float, "path": lambda s: s, "uuid": uuid.UUID}
SPECIAL = ".^$*+?{}[]\\|()-&~# "

TEMPLATES = [
    ["/"],
    ["/a.b/c+d"],
    ["/x(y)[z]|$^*?\\-&~# /{0}/{}/"],
    ["/", ("a", "str")],
    ["/u/", ("id", "int"), "/"],
    ["/", ("x_1", "float")],
    ["/", ("u", "uuid"), "/e"],
    ["/f/", ("p", "path")],
    ["/f/", ("p", "path"), ".html"],
    ["/", ("a", "str"), "/", ("b", "int")],
    ["/", ("a", "int"), "/", ("b", "str"), "/", ("path", "path")],
    ["/v", ("n", "int"), ".", ("m", "int"), "/z"],
    ["/", ("a", "str"), "-", ("b", "str")],
    ["/", ("k", "float"), "/", ("u", "uuid")],
]


def template(pieces, short=True):
    out = ""
    for p in pieces:
        if isinstance(p, str):
            out += p
        elif p[1] == "str" and short:
            out += "{" + p[0] + "}"
        else:
            out += "{" + p[0] + ":" + p[1] + "}"
    return out


def esc(text):
    return "".join("\\" + ch if ch in SPECIAL else ch for ch in text)


def language(pieces):
    return "".join(esc(p) if isinstance(p, str) else "(" + LANG[p[1]] + ")" for p in pieces)


U = "12345678-90ab-cdef-1234-567890abcdef"
SAMPLE = {"str": ["x", "1", "caf\xe9", "a b", "{b}", "%2F", "-"], "int": ["0", "7", "007", "12345678901234567890"], "float": ["1", "1.50", "0.0"],
          "uuid": [U, U.upper(), U.replace("-", "")], "path": ["", "x", "a/b", "/", "a//", "\u20ac/"]}


def examples(pieces):
    """instances of the template, and near misses"""
    def ex(r):
        s = "".join(p if isinstance(p, str) else r.choice(SAMPLE[p[1]]) for p in pieces)
        return r.choice([s, s, s, s, s + "/", s + "\n", s[:-1], s + "x", s.replace("/", "//", 1), s.upper(), s.replace(".", "x"), s[:1] + "\n" + s[1:]])
    return ex


def texts(pieces, path):
    """the parameters' texts in an instance of the template (one whose split is unique)"""
    out = {}
    rest = path
    for i, p in enumerate(pieces):
        if isinstance(p, str):
            rest = rest[len(p):]
        elif i + 1 == len(pieces):
            out[p[0]] = rest
        elif p[1] == "path":
            out[p[0]] = rest[:len(rest) - len(pieces[i + 1])]
            rest = pieces[i + 1]
        else:
            out[p[0]], _, tail = rest.partition(pieces[i + 1][0])
            rest = pieces[i + 1][0] + tail
    return out


def unique(pieces):
    """whether the split of an instance is unique: str/int/... up to a character that cannot occur in them, or the end"""
    for i, p in enumerate(pieces):
        if isinstance(p, tuple) and p[1] == "str" and i + 1 < len(pieces) and pieces[i + 1][0] != "/":
            return False
    return True
