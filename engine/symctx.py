"""Symbolic context: path exploration by re-execution, obligations, CEGAR, solver back ends."""
from __future__ import annotations

import inspect
import os
import subprocess
import tempfile
import time
import traceback

import z3

from . import core, lang as LG
from .core import (ALPHA_RE, ANY, ASCII, LATIN1, BudgetExceeded, PathDone, SBool, simp, SBytes, SInt, SStr, SText,
                   Unsupported, dec, enc, is_lit, lit, lit_value, mkbool, mkint, mktext, zb, zi)

CVC5 = os.environ.get("VERIF_CVC5", "cvc5")
FEAS_MS = int(os.environ.get("VERIF_FEAS_MS", "500"))
OBL_MS = int(os.environ.get("VERIF_OBL_MS", "6000"))


class Stats:
    def __init__(self):
        self.obligations = 0
        self.trivial = 0
        self.by_backend = {}
        self.undecided = []      # (label, reason)
        self.failed = []         # dicts
        self.paths = 0
        self.paths_cut = 0
        self.unsupported = []    # reasons
        self.solver_s = 0.0
        self.labels = {}
        self.models = []         # concrete inputs per completed path
        self.notes = set()
        self.loops_cut = set()
        self.assumed = set()
        self.incomplete = None
        self.functions = set()
        self.max_list = 0
        self.bounded_points = set()


class SymCtx:
    symbolic = True
    thorough = os.environ.get("VERIF_TIER_USED") == "thorough"

    def __init__(self, harness, mode="proof", seed=1, list_max=3, budget_s=60.0, max_paths=4000, want_models=0,
                 split_max=3, loop_max=8):
        self.harness = harness
        self.mode = mode            # 'proof' (unbounded) or 'bounded'
        self.list_max = list_max
        self.split_max = split_max
        self.loop_max = loop_max
        self.stats = Stats()
        self.und_by = {}
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.want_models = want_models
        self.ufs = {}
        self.lemmas = []
        self.lemma_keys = set()
        self.alpha_active = {}
        self.prefix = []
        self.frontier = None        # explore only this many forks deep; deeper subtrees go to self.roots
        self.roots = []
        self.slice_end = None       # give the rest of the subtree back after this time
        self.contracts = {}
        self._path_reset()

    # ------------------------------------------------------------------ path state
    def _path_reset(self):
        self.decisions = []       # [value, open_alternative]
        self.asserts = []
        self.known = set()
        self.asserts_src = []
        self.memo = {}
        self.keep = []
        self.counter = 0
        self.names = {}
        self.inputs = []          # (name, kind, payload)
        self.uf_apps = []
        self.uf_seen = set()
        self.langs = {}           # term id -> (term, language)
        self.rel = set()          # ids of text atoms occurring in relational assertions
        self.rel_seen = set()
        self.dead = False
        self.forks = 0
        self.by_atom = {}
        self.index_ctx = None
        self.cleanup = []
        self.files = {}
        self.gzips = []
        self.tempfiles = []
        self.binfiles = {}
        self.opened = []
        self.loop_stack = []
        self.fresh_objs = {}
        self.hyp = []
        self.path_bounded = set()
        self.in_cut = 0

    # ------------------------------------------------------------------ solver basics
    def fresh(self, tag, sort="s"):
        self.counter += 1
        n = f"{tag}!{self.counter}"
        if sort == "s":
            return z3.String(n)
        if sort == "i":
            return z3.Int(n)
        return z3.Bool(n)

    def lang_of(self, t):
        e = self.langs.get(t.get_id())
        d = self.memo.get(("parts", t.get_id()))
        if d is not None:
            L = LG.cat(*[self.lang_of(c) for c in d])
            return L if e is None else LG.conj(e[1], L)
        if e is not None:
            return e[1]
        if is_lit(t):
            return LG.lit(lit_value(t))
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_SEQ_CONCAT:
                return LG.cat(*[self.lang_of(c) for c in t.children()])
            if k == z3.Z3_OP_INT_TO_STR:
                return _DIG
            if k == z3.Z3_OP_ITE:
                return LG.alt(self.lang_of(t.arg(1)), self.lang_of(t.arg(2)))
        return LG.FULL

    def decomposed(self, t, kids):
        """t is the concatenation of kids (asserted): remembered for slicing and membership facts"""
        self.memo[("parts", t.get_id())] = kids
        self.keep.append((t, kids))
        mine = core.children(t)
        if len(mine) > 1:
            kids = list(kids)
            while mine and kids and is_lit(mine[0]) and is_lit(kids[0]):
                a, b = lit_value(mine[0]), lit_value(kids[0])
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return
                mine = ([core.lit(a[n:])] if a[n:] else []) + mine[1:]
                kids = ([core.lit(b[n:])] if b[n:] else []) + kids[1:]
            while mine and kids and len(mine) > 1 and mine[0].eq(kids[0]):
                mine, kids = mine[1:], kids[1:]
            if len(mine) == 1 and not is_lit(mine[0]) and ("parts", mine[0].get_id()) not in self.memo \
                    and not any(k.eq(mine[0]) for k in kids):
                self.memo[("parts", mine[0].get_id())] = kids or [core.lit("")]

    def learn(self, t, L):
        """record term in L (unary fact)"""
        if L[0] == "star" and L[1][0] == "c" and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for x in core.kids(t):
                if not is_lit(x):
                    self.learn(x, L)
        K = LG.conj(self.lang_of(t), L)
        self.keep.append(t)
        self.langs[t.get_id()] = (t, K)
        try:
            if LG.is_empty(K):
                self.dead = True
        except LG.TooBig:
            pass

    def unary(self, z):
        """z as a membership fact (term, language), or None"""
        i = z.get_id()
        r = self._ucache.get(i)
        if r is None:
            u = self._unary(z)
            if u is not None:
                try:
                    u = pull(*u)
                except LG.TooBig:
                    pass
            self._ucache[i] = r = (z, u)
        return r[1]

    _ucache: dict = {}
    LG = LG

    def split_facts(self, k, a, b, chars, first):
        """k == a + b split at the first (last) character of `chars`: languages of both parts"""
        K = self.lang_of(k)
        no = LG.cls(LG.inv(LG.chars(chars)[1]))
        if first:
            self.learn(b, LG.tails(K, no))
            self.learn(a, LG.heads(K))
        else:
            self.learn(b, LG.tails(K, LG.ANYC))
            self.learn(a, LG.heads(K, no))

    def _unary(self, z):
        if not z3.is_app(z):
            return None
        k = z.decl().kind()
        try:
            if k == z3.Z3_OP_SEQ_IN_RE:
                return z.arg(0), LG.from_z3(z.arg(1))
            if k == z3.Z3_OP_NOT:
                u = self.unary(z.arg(0))
                return u and (u[0], LG.neg(u[1]))
            if k == z3.Z3_OP_EQ and z.arg(0).sort() == z3.StringSort():
                a, b = z.arg(0), z.arg(1)
                if is_lit(a):
                    a, b = b, a
                if is_lit(b) and not is_lit(a):
                    return a, LG.lit(lit_value(b))
                return None
            if k == z3.Z3_OP_SEQ_PREFIX and is_lit(z.arg(0)):
                return z.arg(1), LG.cat(LG.lit(lit_value(z.arg(0))), LG.FULL)
            if k == z3.Z3_OP_SEQ_SUFFIX and is_lit(z.arg(0)):
                return z.arg(1), LG.cat(LG.FULL, LG.lit(lit_value(z.arg(0))))
            if k == z3.Z3_OP_SEQ_CONTAINS and is_lit(z.arg(1)):
                return z.arg(0), LG.cat(LG.FULL, LG.lit(lit_value(z.arg(1))), LG.FULL)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                return length_fact(k, z.arg(0), z.arg(1))
            if k in (z3.Z3_OP_OR, z3.Z3_OP_AND):
                us = [self.unary(c) for c in z.children()]
                if all(us) and all(u[0].eq(us[0][0]) for u in us):
                    f = LG.alt if k == z3.Z3_OP_OR else LG.conj
                    return us[0][0], f(*[u[1] for u in us])
        except LG.Unknown:
            return None
        return None

    def decide(self, z):
        """True / False / None by language reasoning only"""
        if z3.is_true(z) or z3.is_false(z):
            return z3.is_true(z)
        if z.get_id() in self.known:
            return True
        n = simp(z3.Not(z))
        if n.get_id() in self.known:
            return False
        u = self.unary(z)
        try:
            if u is not None:
                K = self.lang_of(u[0])
                if LG.is_empty(LG.conj(K, LG.neg(u[1]))):
                    return True
                if LG.is_empty(LG.conj(K, u[1])):
                    return False
                return None
            if z3.is_app(z):
                k = z.decl().kind()
                if k == z3.Z3_OP_NOT:
                    r = self.decide(z.arg(0))
                    return None if r is None else not r
                if k == z3.Z3_OP_EQ and z.arg(0).sort() == z3.StringSort():
                    if LG.is_empty(LG.conj(self.lang_of(z.arg(0)), self.lang_of(z.arg(1)))):
                        return False
                if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                    rs = [self.decide(c) for c in z.children()]
                    bad = (k == z3.Z3_OP_OR)
                    if any(r is bad for r in rs):
                        return bad
                    if all(r is (not bad) for r in rs):
                        return not bad
        except LG.TooBig:
            pass
        return None

    def _mark(self, z):
        """text atoms of a relational assertion"""
        self.rel |= atoms_of(z)[2]

    def assume_z(self, z):
        if z3.is_and(z):
            for c in z.children():
                self.assume_z(c)
            return
        u = self.unary(z)
        if u is not None:
            t, L = u
            self.learn(t, L)
            k = z.arg(0).decl().kind() if z3.is_not(z) else z.decl().kind()
            if is_atom(t):
                if k in (z3.Z3_OP_SEQ_IN_RE, z3.Z3_OP_OR, z3.Z3_OP_AND) or (k in _STRPRED and not direct(z)):
                    return                      # kept as a language fact, asserted on demand
                self._assert(z)
                return
        z = simp(z)
        if z3.is_true(z):
            return
        if z3.is_false(z):
            self.dead = True
            return
        self._mark(z)
        self._assert(z)

    def _assert(self, z):
        self.keep.append(z)
        n = len(self.asserts)
        self.asserts.append(z)
        self.known.add(z.get_id())
        for a in atoms_of(z)[0]:
            self.by_atom.setdefault(a, []).append(n)

    def component(self, zs, link=False):
        """indices of the assertions connected to zs through shared symbols"""
        seen = set()
        idx = set()
        todo = []
        for z in zs:
            at = atoms_of(z)
            todo.extend(at[0])
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for n in self.by_atom.get(a, ()):
                if n not in idx:
                    idx.add(n)
                    todo.extend(atoms_of(self.asserts[n])[0])
        return idx, seen

    def _check(self, z=None):
        """over-approximate satisfiability of the path together with z (only what z is connected to)"""
        if time.time() > self.deadline:
            raise BudgetExceeded()
        if z is None:
            if not self.asserts:
                return z3.sat
            zs = []
            idx, _ = self.component([self.asserts[-1]])
        else:
            zs = [z]
            idx, _ = self.component(zs)
        fs = [self.asserts[n] for n in sorted(idx)] + zs
        key = frozenset(f.get_id() for f in fs)
        r = _FEAS.get(key)
        if r is not None:
            return r[0]
        t = time.time()
        s = z3.Solver()
        s.set("timeout", FEAS_MS)
        s.add(*fs)
        r = s.check()
        self.stats.solver_s += time.time() - t
        _FEAS[key] = (r, fs)
        return r

    def branch(self, z):
        if self.dead:
            raise PathDone()
        k = len(self.decisions)
        if k < len(self.prefix):
            e = self.prefix[k]
            self.decisions.append(list(e))
            if e[0] >= 2:                          # was implied by the path
                self.keep.append(z)
                return e[0] == 3
            v = bool(e[0])
            if e[2:]:
                self.forks += 1
            self.assume_z(z if v else z3.Not(z))
            return v
        r = self.decide(z)
        u = None
        if r is None:
            u = self.unary(z)
            if u is None:
                z = simp(z)
                if z3.is_true(z):
                    r = True
                elif z3.is_false(z):
                    r = False
                else:
                    r = self.decide(z)
        if r is not None:
            self.decisions.append([3 if r else 2, False])
            self.keep.append(z)
            return r
        nz = z3.Not(z)
        if u is not None and is_atom(u[0]) and u[0].get_id() not in self.rel:
            t_ok = f_ok = True
        else:
            t_ok = f_ok = None
            if t_ok is None:
                t_ok = self._feasible(z)
            if f_ok is None:
                f_ok = self._feasible(nz) if t_ok else True
        if t_ok and f_ok:
            if self.frontier is not None:
                self.forks += 1
                if self.forks > self.frontier:
                    for b in (1, 0):
                        self.roots.append([x[0] for x in self.decisions] + [b])
                    self.dead = True
                    raise PathDone()
            self.decisions.append([1, True, 1])
            self.assume_z(z)
            return True
        v = bool(t_ok)
        self.decisions.append([int(v), False])
        self.assume_z(z if v else nz)
        return v

    def _feasible(self, z):
        return self._check(z) != z3.unsat

    # ------------------------------------------------------------------ uninterpreted / executable functions
    def uf_decl(self, name, fn, nargs, ret="s", argsorts=None):
        key = name
        d = self.ufs.get(key)
        if d is None:
            S = z3.StringSort()
            rs = {"s": S, "i": z3.IntSort(), "b": z3.BoolSort()}[ret]
            as_ = argsorts or [S] * nargs
            d = (z3.Function("uf_" + name, *as_, rs), fn, ret)
            self.ufs[key] = d
        return d[0]

    def _app(self, name, fn, args, ret):
        args = [simp(a) for a in args]
        d = self.uf_decl(name, fn, len(args), ret, [a.sort() for a in args])
        if fn is not None and all(is_lit(a) or z3.is_int_value(a) for a in args):
            vals = [lit_value(a) if is_lit(a) else a.as_long() for a in args]
            r = fn(*vals)
            if ret == "s":
                return lit(r)
            return z3.IntVal(r) if ret == "i" else z3.BoolVal(r)
        app = d(*args)
        k = app.get_id()
        if k not in self.uf_seen:
            self.uf_seen.add(k)
            self.keep.append(app)
            self.uf_apps.append((name, fn, args, app, ret))
        return app

    def uf(self, name, fn, *args):
        return self._app(name, fn, args, "s")

    def ufint(self, name, fn, *args):
        return self._app(name, fn, args, "i")

    def ufbool(self, name, fn, *args):
        return self._app(name, fn, args, "b")

    # ------------------------------------------------------------------ satisfiability with refinement
    def sat_refined(self, extra, timeout_ms, rounds=40):
        """-> ('unsat', backend) | ('sat', model) | ('unknown', reason); solved per connected component"""
        self.keep.extend(extra)
        todo = []
        done = set()
        for z in extra:
            if z3.is_false(simp(z)):
                return ("unsat", "z3")
        xs = [z for z in extra if atoms_of(z)[0]]
        if xs:
            idx, at = self.component(xs)
            todo.append((idx, at, xs))
            done |= idx
        for n in range(len(self.asserts) - 1, -1, -1):
            if n in done:
                continue
            idx, at = self.component([self.asserts[n]])
            if not at:
                idx = {n}
            todo.append((idx, at, []))
            done |= idx
        models = []
        unknown = None
        deadline = time.time() + 3 * timeout_ms / 1000
        for idx, at, ex in todo:
            left = int((deadline - time.time()) * 1000)
            if left < 50:
                return ("unknown", "time")
            r = self._sat_comp([self.asserts[n] for n in sorted(idx)] + ex, min(timeout_ms, left), rounds)
            if r[0] == "unsat":
                return r
            if r[0] == "unknown":
                unknown = r
            else:
                models.append((r[1], at))
        # non-executable functions shared between components: their interpretations must agree
        if unknown is None and len(models) > 1 and self._shared_functions(todo):
            r = self._sat_comp([self.asserts[n] for n in range(len(self.asserts))] + xs, timeout_ms, rounds)
            if r[0] != "sat":
                return r
            models = [(r[1], set().union(*[a for _, a, _ in todo]))]
        if unknown is not None:
            return unknown
        return ("sat", MModel(models))

    def _shared_functions(self, todo):
        seen = set()
        for idx, at, ex in todo:
            fs = set()
            for z in [self.asserts[n] for n in idx] + ex:
                fs |= atoms_of(z)[1]
            if fs & seen:
                return True
            seen |= fs
        return False

    def _sat_comp(self, asserts, timeout_ms, rounds):
        key = frozenset(a.get_id() for a in asserts)
        r = _SAT.get(key)
        if r is not None and r[0][0] == "unsat":
            return r[0]
        s = z3.Solver()
        s.set("timeout", timeout_ms)
        s.add(*asserts)
        here = set()
        for a in asserts:
            here |= atoms_of(a)[2]
        names = {name for name, fn, args, app, ret in self.uf_apps if app.get_id() in here}
        for nm, l in self.lemmas:
            if nm in names:
                s.add(l)
        r = self._refine(s, here, timeout_ms, rounds)
        if r[0] == "unsat" and not self.used_lang:
            _SAT[key] = (r, asserts)
        return r

    def _refine(self, s, here, timeout_ms, rounds):
        self.used_lang = False
        backend = "z3"
        active = set()
        t_end = time.time() + 3 * timeout_ms / 1000
        for _ in range(rounds):
            t = time.time()
            try:
                r = s.check()
            except z3.Z3Exception as ex:
                r = z3.unknown
            self.stats.solver_s += time.time() - t
            if r == z3.unsat:
                return ("unsat", "z3" if backend == "z3" else backend)
            if r == z3.unknown or time.time() > t_end:
                c = self._cvc5(s, timeout_ms)
                if c == "unsat":
                    return ("unsat", "cvc5")
                return ("unknown", "solver gave no answer")
            m = s.model()
            new = []
            for name, fn, args, app, ret in self.uf_apps:
                if fn is None or app.get_id() not in here:
                    continue
                vals = []
                ok = True
                for a in args:
                    v = m.eval(a, True)
                    if is_lit(v):
                        vals.append(lit_value(v))
                    elif z3.is_int_value(v):
                        vals.append(v.as_long())
                    else:
                        ok = False
                        break
                if not ok:
                    continue
                try:
                    true = fn(*vals)
                except Exception as ex:
                    raise Unsupported(f"exec uf {name} failed on {vals!r}: {ex!r}")
                zt = lit(true) if ret == "s" else (z3.IntVal(true) if ret == "i" else z3.BoolVal(bool(true)))
                got = m.eval(app, True)
                if not z3.is_true(simp(got == zt)):
                    zargs = [lit(v) if isinstance(v, str) else z3.IntVal(v) for v in vals]
                    lem = self.uf_decl(name, fn, len(args), ret)(*zargs) == zt
                    key = lem.sexpr()
                    if key not in self.lemma_keys:
                        self.lemma_keys.add(key)
                        self.lemmas.append((name, lem))
                    new.append(lem)
            for tid, (t, L) in list(self.langs.items()):
                if tid in active or tid not in here:
                    continue
                v = m.eval(t, True)
                if is_lit(v) and not LG.member(L, lit_value(v)):
                    active.add(tid)
                    self.used_lang = True
                    new.append(z3.InRe(t, LG.to_z3(L)))
            if not new:
                return ("sat", m)
            for l in new:
                s.add(l)
        return ("unknown", "refinement did not converge")

    def _cvc5(self, s, timeout_ms):
        try:
            txt = s.to_smt2()
        except Exception:
            return "unknown"
        if "seq.foldl" in txt or "(_ char" in txt:
            pass
        txt = "(set-logic ALL)\n" + txt
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            p = subprocess.run([CVC5, "--strings-exp", f"--tlimit={timeout_ms}", f.name], capture_output=True,
                               text=True, timeout=timeout_ms / 1000 + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out and out[0] in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"
        finally:
            self.stats.solver_s += time.time() - t
            try:
                os.unlink(f.name)
            except Exception:
                pass

    # ------------------------------------------------------------------ API used by contracts
    def _name(self, n):
        k = self.names.get(n, 0)
        self.names[n] = k + 1
        return n if k == 0 else f"{n}#{k}"

    def str(self, name, re=None, alpha=ANY, ex=None, lo=None, hi=None):
        return self._text(SStr, "str", name, re, alpha, lo, hi)

    def bytes(self, name, re=None, ex=None, lo=None, hi=None, alpha=LATIN1):
        return self._text(SBytes, "bytes", name, re, alpha, lo, hi)

    def _text(self, cls, kind, name, re, alpha, lo, hi):
        if self.index_ctx is not None:
            f = self._indexed(name, "s")
            v = f
        else:
            name = self._name(name)
            v = z3.String("in_" + name)
            self.inputs.append((name, kind, (v, alpha)))
        self.learn(v, _ALPHA[alpha])
        if re is not None:
            from .regex import pattern_to_re
            zre, ascii_only, latin_only = pattern_to_re(re, bytes_mode=cls is SBytes)
            self.assume_z(z3.InRe(v, zre))
            if ascii_only:
                alpha = ASCII
            elif latin_only:
                alpha = min(alpha, LATIN1)
        if lo is not None:
            self.assume_z(z3.Length(v) >= lo)
        if hi is not None:
            self.assume_z(z3.Length(v) <= hi)
        return cls(v, alpha)

    def int(self, name, lo=None, hi=None, ex=None):
        if self.index_ctx is not None:
            v = self._indexed(name, "i")
        else:
            name = self._name(name)
            v = z3.Int("in_" + name)
            self.inputs.append((name, "int", (v,)))
        if lo is not None:
            self.assume_z(v >= zi(lo))
        if hi is not None:
            self.assume_z(v <= zi(hi))
        return SInt(v)

    def bool(self, name):
        if self.index_ctx is not None:
            return bool(mkbool(self._indexed(name, "b")))
        name = self._name(name)
        v = z3.Bool("in_" + name)
        self.inputs.append((name, "bool", (v,)))
        return bool(SBool(v))

    def _indexed(self, name, sort):
        seqname, idx, local = self.index_ctx
        k = local.get(name, 0)
        local[name] = k + 1
        full = f"{seqname}.{name}" + (f"#{k}" if k else "")
        rs = {"s": z3.StringSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[sort]
        return z3.Function("el_" + full, z3.IntSort(), rs)(idx)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        if self.index_ctx is not None:
            v = self._indexed(name, "i")
            self.assume_z(z3.And(v >= 0, v < len(options)))
        else:
            name = self._name(name)
            v = z3.Int("in_" + name)
            self.inputs.append((name, "choose", (v, len(options))))
            self.assume_z(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.branch(v == i):
                return options[i]
        return options[-1]

    def opt(self, name, mk):
        if self.bool(name + "?"):
            return mk(self, name)
        return None

    def list(self, name, mk, max=None, min=0, proof=True):
        """A list of any length: abstract in proof mode, length <= max in bounded mode."""
        from .seq import VList, BaseSeq
        if self.mode == "proof" and proof and self.index_ctx is None:
            nm = self._name(name)
            n = z3.Int("len_" + nm)
            self.assume_z(n >= min)
            return VList.abstract(BaseSeq(self, nm, n, mk))
        m = max if max is not None else self.list_max
        self.bounded_point(f"list {name} of length <= {m}")
        if self.index_ctx is not None:
            raise Unsupported("nested list in abstract element")
        nm = self._name(name)
        v = z3.Int("in_" + nm)
        self.inputs.append((nm, "len", (v, min, m)))
        self.assume_z(z3.And(v >= min, v <= m))
        out = []
        k = min
        for _ in range(min):
            out.append(mk(self, f"{nm}[{len(out)}]"))
        while k < m and self.branch(v > k):
            out.append(mk(self, f"{nm}[{len(out)}]"))
            k += 1
        return out

    def index(self, n):
        """position of the list element being built (inside a c.list element constructor)"""
        if self.index_ctx is not None:
            return mkint(self.index_ctx[1])
        return int(n.rsplit("[", 1)[1].rstrip("]"))

    def length(self, xs):
        from .seq import VList
        return xs.length() if isinstance(xs, VList) else len(xs)

    def bounded_point(self, what):
        if not self.in_cut:
            self.path_bounded.add(what)
            self.stats.bounded_points.add(what)

    def bound(self, what):
        """the contract itself enumerates only up to a stated bound"""
        self.bounded_point(what)

    def bound_note(self, s):
        self.stats.notes.add(s)

    def assume(self, cond):
        if isinstance(cond, SBool):
            z = cond.z
        else:
            z = z3.BoolVal(bool(cond))
        if self.dead:
            raise PathDone()
        r = self.decide(z)
        z = simp(z) if r is None and self.unary(z) is None else z
        if r is True or z3.is_true(z):
            return
        if r is False or z3.is_false(z):
            self.dead = True
            raise PathDone()
        self.assume_z(z)
        if len(self.decisions) >= len(self.prefix):
            if self._check() == z3.unsat:
                self.dead = True
                raise PathDone()

    def give_up(self, why):
        """this contract does not fit the code as it is now: undecided here, the bounded stand-in decides"""
        if self.mode == "proof":
            raise Unsupported("contract does not apply: " + why)
        self.done()

    def done(self):
        self.dead = True
        raise PathDone()

    def cover(self, label):
        pass

    def fail(self, label, info=""):
        self.check(label, False, info)

    def note(self, s):
        self.stats.notes.add(s)

    def check(self, label, cond, info=""):
        if self.dead:
            raise PathDone()
        if len(self.decisions) < len(self.prefix):                # replaying: judged on an earlier path
            if not isinstance(cond, bool):
                self.assume_z(zb(cond))
            return
        z = zb(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        ld = self.decide(z)
        if ld is None:
            z = simp(z) if self.unary(z) is None else z
        st = self.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if z3.is_true(z):
            st.trivial += 1
            st.by_backend["evaluation"] = st.by_backend.get("evaluation", 0) + 1
            return
        if ld is True:
            st.by_backend["language inclusion"] = st.by_backend.get("language inclusion", 0) + 1
            return
        r = self.sat_refined([z3.Not(z)], self._obl_ms(label))
        if r[0] == "unsat":
            st.by_backend[r[1]] = st.by_backend.get(r[1], 0) + 1
        elif r[0] == "sat":
            self._record_failure(label, info, r[1])
        else:
            st.undecided.append((label, r[1] + " " + core.safe(info)[:200]))
            if os.environ.get("DUMPU"):
                print("UNDECIDED", label, z, *self.asserts, *[(str(t), str(LG.to_z3(L))[:300]) for t, L in self.langs.values()], sep="\n  ")
            self.und_by[label] = self.und_by.get(label, 0) + 1
        if z3.is_false(z):
            self.dead = True
            raise PathDone()
        self.assume_z(z)

    def _obl_ms(self, label):
        n = self.und_by.get(label, 0)
        return OBL_MS if n < 2 else (OBL_MS // 3 if n < 5 else OBL_MS // 8)

    def _record_failure(self, label, info, model):
        inp = self.model_inputs(model)
        self.stats.failed.append({
            "label": label, "info": core.safe(info)[:1500], "inputs": inp, "cut": bool(self.loop_stack) or bool(self.hyp),
            "abstract": self.has_abstract, "bounded": sorted(self.path_bounded),
            "path": [str(a)[:300] for a in self.asserts[-12:]],
        })
        if len(self.stats.failed) >= 12:
            raise BudgetExceeded("many failures")

    has_abstract = False

    def model_inputs(self, m):
        out = {}
        for name, kind, p in self.inputs:
            v = m.eval(p[0], True)
            if kind in ("str", "bytes"):
                s = lit_value(v) if is_lit(v) else ""
                L = self.lang_of(p[0])
                if not m.has(p[0]) or not LG.member(L, s):
                    try:
                        w = LG.find(L)
                        s = s if w is None else w
                    except LG.TooBig:
                        pass
                out[name] = {"bytes": s} if kind == "bytes" else s
            elif kind in ("int", "choose", "len"):
                out[name] = v.as_long() if z3.is_int_value(v) else 0
            elif kind == "bool":
                out[name] = z3.is_true(v)
        return out

    # spec helpers (no forking)
    def matches(self, text, pattern):
        """whole text matches pattern (the dialect of str(re=...))"""
        import re as _re
        if not core.is_sym(text):
            text = text if isinstance(text, str) else text.decode("latin-1")
            return _re.fullmatch(pattern, text, _re.S) is not None
        from .regex import pattern_to_re
        return mkbool(z3.InRe(text.z, pattern_to_re(pattern, bytes_mode=isinstance(text, SBytes))[0]))

    def all(self, conds):
        zs = [zb(c) for c in conds]
        return mkbool(z3.And(*zs)) if zs else True

    def any(self, conds):
        zs = [zb(c) for c in conds]
        return mkbool(z3.Or(*zs)) if zs else False

    def not_(self, c):
        return mkbool(z3.Not(zb(c)))

    def implies(self, a, b):
        return mkbool(z3.Implies(zb(a), zb(b)))

    def iff(self, a, b):
        return mkbool(zb(a) == zb(b))

    def ite(self, c, a, b):
        if not isinstance(c, SBool):
            return a if c else b
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return mkint(z3.If(c.z, zi(a), zi(b)))
        cls = SStr if isinstance(a, (str, SStr)) else SBytes
        return mktext(cls, z3.If(c.z, core.zt(a), core.zt(b)), ANY if cls is SStr else LATIN1)

    def run(self, coro, loop=False):
        """Drive a coroutine to completion (every await reaches a contract stub that returns at once), or
        with loop=True under the real asyncio/anyio scheduler."""
        if loop:
            from . import aloop
            core.C.bound_note("tasks run under asyncio's own first-in-first-out schedule")
            try:
                r = aloop.run(coro, True)
            except BaseException as e:
                for x in aloop.leaves(e):
                    if isinstance(x, (PathDone, Unsupported, BudgetExceeded)):
                        raise x
                if self.dead:
                    raise PathDone()
                raise
            if self.dead:
                raise PathDone()
            return r
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        coro.close()
        raise Unsupported("coroutine suspended outside the modelled dependencies")

    def stream(self, items, end=None):
        """async iterable over a list, which then ends, or raises end"""
        from .seq import AsyncAbs
        return AsyncAbs(items, end)

    def scratch(self):
        raise core.Unsupported("the real file system")

    def binfile(self, pieces, mtime=0.0):
        """path of an existing file with this content (given in pieces)"""
        import stat
        from . import models, rt
        path = f"/verif-virtual/{len(self.binfiles)}.bin"
        size = 0
        for p in pieces:
            size = size + rt.b_len(p)
        self.binfiles[path] = (list(pieces), models.VStat(size, mtime, stat.S_IFREG | 0o644))
        return path

    def textfile(self, lines):
        """path of an existing text file of these lines (without their line ends)"""
        from .models import m_open  # noqa: F401
        path = f"/verif-virtual/{len(self.files)}.txt"
        self.files[path] = lines.map(lambda l: l + "\n") if hasattr(lines, "map") else [l + "\n" for l in lines]
        self.cleanup.append((None, path, None))
        return path

    def stub(self, target, value):
        """Replace an attribute ('module:attr.path') for the duration of the path."""
        import importlib
        mod, _, path = target.partition(":")
        obj = importlib.import_module(mod)
        parts = path.split(".")
        for p in parts[:-1]:
            obj = getattr(obj, p)
        old = obj.__dict__.get(parts[-1], _MISSING) if hasattr(obj, "__dict__") else getattr(obj, parts[-1])
        setattr(obj, parts[-1], value)
        self.cleanup.append((obj, parts[-1], old))

    def _cleanup(self):
        for obj, name, old in reversed(self.cleanup):
            if obj is None:
                self.files.pop(name)
            elif old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanup = []

    # loop contracts
    def loop(self, site, contract):
        contract.c = self
        self.contracts[site] = contract

    # ------------------------------------------------------------------ exploration
    def explore(self, root=()):
        """depth-first over all paths below `root` (a list of decision values)"""
        st = self.stats
        import warnings
        warnings.simplefilter("ignore")
        self.prefix = [[v, False] for v in root]
        while True:
            if self.slice_end and time.time() > self.slice_end:
                vals = [x[0] for x in self.prefix]
                self.roots.append(vals)
                for k, x in enumerate(self.prefix):
                    if x[1]:
                        self.roots.append(vals[:k] + [1 - x[0]])
                return st
            self._path_reset()
            self.contracts = {}
            self.has_abstract = False
            core.set_ctx(self)
            completed = False
            try:
                if time.time() > self.deadline:
                    raise BudgetExceeded()
                self.harness(self)
                completed = True
            except PathDone:
                pass
            except Unsupported as e:
                st.unsupported.append(str(e)[:300] + " @ " + _where(e))
            except BudgetExceeded as e:
                st.incomplete = "failure budget" if str(e) else "time budget"
                self._cleanup()
                break
            except RecursionError as e:
                st.unsupported.append("recursion")
            except Exception as e:
                self._unexpected(e)
            finally:
                try:
                    self._cleanup()
                except Exception:
                    pass
                core.set_ctx(None)
            st.paths += 1
            if completed and self.want_models and len(st.models) < self.want_models and not self.has_abstract:
                try:
                    r = self.sat_refined([], 3000, rounds=15)
                    if r[0] == "sat":
                        st.models.append(self.model_inputs(r[1]))
                except Unsupported:
                    pass
            d = self.decisions
            while d and not (d[-1][0] == 1 and d[-1][1]):
                d.pop()
            if not d:
                break
            d[-1] = [0, False, 1]
            self.prefix = [list(x) for x in d]
            if st.paths >= self.max_paths:
                st.incomplete = "path budget"
                break
        return st

    def _unexpected(self, e):
        """An exception the contract does not allow escaped: an obligation failure if the path is feasible."""
        st = self.stats
        if isinstance(e, (NameError, AttributeError, TypeError, NotImplementedError, z3.Z3Exception)):
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if last.startswith(_HERE):            # raised by the engine itself: not a statement about the code
                if os.environ.get("DUMPU"): traceback.print_exception(e, file=open("/tmp/dump.txt","a"))
                st.unsupported.append(f"engine: {type(e).__name__}: {str(e)[:200]} @ " + _where(e))
                return
        core.set_ctx(self)
        self.dead = False
        label = "no unexpected exception"
        st.obligations += 1
        info = "".join(traceback.format_exception(e)[-6:])[-1500:]
        try:
            r = self.sat_refined([], OBL_MS)
            if r[0] == "unsat":
                st.by_backend[r[1]] = st.by_backend.get(r[1], 0) + 1
            elif r[0] == "sat":
                self._record_failure(label, info, r[1])
            else:
                st.undecided.append((label, info[-300:]))
        except BudgetExceeded:
            st.incomplete = "failure budget"
        except Unsupported as u:
            st.unsupported.append(str(u))


_HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
_MISSING = object()
_DIG = LG.alt(LG.EPS, LG.cat(LG.cls([(48, 57)]), LG.star(LG.cls([(48, 57)]))))
_ALPHA = {ASCII: LG.star(LG.cls([(0, 127)])), LATIN1: LG.star(LG.cls([(0, 255)])),
          ANY: LG.star(LG.cls([(0, 0xD7FF), (0xE000, LG.MAXCH)]))}


_FEAS: dict = {}
_SAT: dict = {}
_ATOMS: dict = {}


def atoms_of(z):
    """(symbols, uninterpreted non-executable functions, all subterm ids) of a term"""
    r = _ATOMS.get(z.get_id())
    if r is not None:
        return r[:3]
    at, fs, sub = set(), set(), {z.get_id()}
    if z3.is_app(z):
        k = z.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            if z.num_args() == 0:
                at.add(z.get_id())
            elif z.decl().name().startswith("el_"):
                fs.add(z.decl().name())
        for c in z.children():
            a, f, s = atoms_of(c)
            at |= a
            fs |= f
            sub |= s
    r = (frozenset(at), frozenset(fs), frozenset(sub), z)
    _ATOMS[z.get_id()] = r
    return r[:3]


class MModel:
    """models of the independent parts of a path"""

    def __init__(self, parts):
        self.parts = parts

    def _of(self, t):
        at = atoms_of(t)[0]
        for m, a in self.parts:
            if at & a:
                return m
        return None

    def has(self, t):
        return self._of(t) is not None

    def eval(self, t, complete=True):
        m = self._of(t)
        if m is None:
            if not hasattr(self, "_empty"):
                s = z3.Solver()
                s.check()
                self._empty = s.model()
            m = self._empty
        return m.eval(t, complete)


_STRPRED = (z3.Z3_OP_EQ, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX, z3.Z3_OP_SEQ_CONTAINS)
_CMPS = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
_FLIP = {"<=": ">=", ">=": "<=", "<": ">", ">": "<", "==": "=="}


def direct(z):
    """the fact speaks about an atom itself (not about a slice of it or its length)"""
    while z3.is_not(z):
        z = z.arg(0)
    if z.num_args() == 2 and z.arg(0).sort() == z3.IntSort():
        return True
    return any(is_atom(a) for a in z.children())


def length_fact(k, a, b):
    op = _CMPS[k]
    if z3.is_int_value(a):
        a, b, op = b, a, _FLIP[op]
    if not (z3.is_int_value(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SEQ_LENGTH):
        return None
    n = b.as_long()
    if not -1 <= n <= 40:
        return None
    t = a.arg(0)
    le = lambda m: LG.upto(m) if m >= 0 else LG.EMPTY
    if op == "<=":
        return t, le(n)
    if op == "<":
        return t, le(n - 1)
    if op == ">=":
        return t, LG.neg(le(n - 1))
    if op == ">":
        return t, LG.neg(le(n))
    return t, LG.anyn(n) if n >= 0 else LG.EMPTY


def pull(t, L):
    """t in L, with t a slice of / a literal concatenated to a simpler term, as a fact about that term"""
    while z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            ch = t.children()
            if is_lit(ch[0]):
                L = LG.lquot(L, lit_value(ch[0]))
                ch = ch[1:]
            elif is_lit(ch[-1]):
                L = LG.rquot(L, lit_value(ch[-1]))
                ch = ch[:-1]
            else:
                return t, L
            t = ch[0] if len(ch) == 1 else z3.Concat(*ch)
            continue
        if k == z3.Z3_OP_SEQ_AT:
            i = simp(t.arg(1))
            if not z3.is_int_value(i) or not 0 <= i.as_long() <= 20:
                return t, L
            i = i.as_long()
            L1 = LG.cat(LG.anyn(i), LG.conj(LG.ANYC, L), LG.FULL)
            L = LG.alt(L1, LG.upto(i)) if LG.nullable(L) else L1
            t = t.arg(0)
            continue
        if k == z3.Z3_OP_SEQ_EXTRACT:
            s, i, n = t.arg(0), simp(t.arg(1)), simp(t.arg(2))
            if not z3.is_int_value(i) or not 0 <= i.as_long() <= 20:
                return t, L
            i = i.as_long()
            if z3.is_int_value(n):
                n = n.as_long()
                if not 0 <= n <= 20:
                    return t, L
                # s[i:i+n]
                full = LG.cat(LG.anyn(i), LG.conj(LG.anyn(n), L), LG.FULL)
                short = LG.cat(LG.anyn(i), LG.conj(LG.upto(n - 1), L)) if n else LG.EMPTY
                L1 = LG.alt(full, short)
                L = LG.alt(L1, LG.upto(i)) if LG.nullable(L) else L1
                t = s
                continue
            d = simp(n - z3.Length(s))
            if not z3.is_int_value(d):
                return t, L
            d = -d.as_long() - i            # s[i : len-d]
            if not 0 <= d <= 20:
                return t, L
            L1 = LG.cat(LG.anyn(i), L, LG.anyn(d))
            L = LG.alt(L1, LG.upto(i + d)) if LG.nullable(L) else L1
            t = s
            continue
        return t, L
    return t, L


def is_atom(t):
    return z3.is_app(t) and t.decl().kind() != z3.Z3_OP_SEQ_CONCAT and not is_lit(t)



def _where(e):
    tb = e.__traceback__
    best = ""
    for fr in traceback.extract_tb(tb):
        if "/engine/" not in fr.filename:
            best = f"{os.path.basename(fr.filename)}:{fr.lineno}"
    return best
