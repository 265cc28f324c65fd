"""Random strings matching a regular expression (small subset), for the concrete cross-check."""
import re._parser as sp
import re._constants as k


def gen_regex(pat, r):
    tree = sp.parse(pat, sp.SRE_FLAG_DOTALL if hasattr(sp, "SRE_FLAG_DOTALL") else 16)
    return _seq(tree, r)


POOL = "aZ09-_./:, *%é~\x00\xff"


def _seq(tree, r):
    return "".join(_one(op, av, r) for op, av in tree)


def _one(op, av, r):
    if op is k.LITERAL:
        return chr(av)
    if op is k.NOT_LITERAL:
        while True:
            c = r.choice(POOL)
            if ord(c) != av:
                return c
    if op is k.ANY:
        return r.choice(POOL)
    if op is k.IN:
        return _in(av, r)
    if op in (k.MAX_REPEAT, k.MIN_REPEAT):
        lo, hi, sub = av
        hi = min(int(hi) if hi is not k.MAXREPEAT else lo + 5, lo + 5)
        n = r.randint(lo, max(lo, hi))
        return "".join(_seq(sub, r) for _ in range(n))
    if op is k.SUBPATTERN:
        return _seq(av[3], r)
    if op is k.BRANCH:
        return _seq(r.choice(av[1]), r)
    if op is k.AT:
        return ""
    raise NotImplementedError(op)


def _in(items, r):
    neg = items and items[0][0] is k.NEGATE
    if neg:
        bad = items[1:]
        for _ in range(200):
            c = r.choice(POOL) if r.random() < 0.5 else chr(r.randrange(1, 256))
            if not any(_m(i, c) for i in bad):
                return c
        return "q"
    i = r.choice(items)
    if i[0] is k.LITERAL:
        return chr(i[1])
    if i[0] is k.RANGE:
        return chr(r.randint(i[1][0], i[1][1]))
    if i[0] is k.CATEGORY:
        return {k.CATEGORY_DIGIT: "7", k.CATEGORY_WORD: "w", k.CATEGORY_SPACE: " "}.get(i[1], "-")
    raise NotImplementedError(i)


def _m(i, c):
    if i[0] is k.LITERAL:
        return ord(c) == i[1]
    if i[0] is k.RANGE:
        return i[1][0] <= ord(c) <= i[1][1]
    if i[0] is k.CATEGORY:
        return {k.CATEGORY_DIGIT: c.isdigit(), k.CATEGORY_WORD: c.isalnum() or c == "_",
                k.CATEGORY_SPACE: c.isspace()}.get(i[1], False)
    return False
