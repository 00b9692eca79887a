"""Contracts on the functions of /repo.

A contract declares inputs (all values satisfying its `require`s), a few lines
of Python that call the real functions, and postconditions.  The same contract
is (1) executed symbolically on the sources of /repo, every postcondition
becoming an obligation for the prover, with array sizes either symbolic
(unbounded) or fixed (bounded), and (2) run on the real code under CPython with
the inputs of an assignment (replay of counterexamples, cross-check)."""
import ast
import os
import sys
import time
import math
import random
import traceback
from values import *  # noqa
import values as V
import terms as T
import prover
from prover import prove_eq, prove_bool, entails, with_facts
from interp import Interp, Exit
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = []


def contract(prop, name, **kw):
    def deco(f):
        CONTRACTS.append(dict(prop=prop, name=name, fn=f, **kw))
        return f

    return deco


def fun(f, *idx, state=False, py=None):
    """A function value of the inputs: f(*idx, *arguments) on terms (py: the
    same function of floats and arrays, when f cannot be evaluated itself)."""
    r = SymFun(f, *[to_p(i) for i in idx])
    r.state, r.py = state, py
    return r


class Obl:
    def __init__(self, name):
        self.name = name
        self.status = None  # proved refuted unknown unsupported
        self.how = None
        self.detail = None
        self.t = 0.0


class Cx:
    def __init__(self, mode="sym", sizes=None, deadline=None, repo=REPO):
        self.mode = mode  # 'sym' | 'decl'
        self.sizes = sizes
        self.I = Interp(repo)
        self.I.deadline = deadline
        self.deadline = deadline
        self.st = State()
        self.st0 = None
        self.inp = {}
        self.ranges = {}
        self.requires = []
        self.codes = []
        self.posts = []
        self.obls = []
        self.fid = None
        self.error = None
        self.spec = {}
        self.concrete_ns = {}
        self.num_funs = {}
        self.allow_raise = False
        self.picks = {}
        self.salted = {}  # values of an input in the concrete runs: f(rng, salt, *indices)
        self.raise_post = None
        self.conc_patch = None
        self.tol = 1e-7
        self.pycls = {}
        if sizes is not None:
            self.I.force_unroll = 400

    # ------------------------------------------------ inputs
    def real(self, name, *idx, lo=-1.5, hi=1.5):
        self.ranges[name] = (lo, hi)
        return T.app(name, *idx)

    def pos(self, name, *idx, lo=0.3, hi=2.0):
        T.NONNEG_APPS.add(name)
        T.POS_APPS.add(name)
        return self.real(name, *idx, lo=lo, hi=hi)

    def nonneg(self, name, *idx, lo=0.0, hi=2.0):
        T.NONNEG_APPS.add(name)
        return self.real(name, *idx, lo=lo, hi=hi)

    def dim(self, name, *idx, lo=1, hi=3):
        """positive integer size"""
        if self.sizes is not None:
            s = self.sizes.get(name, self.sizes.get("*", 2))
            if callable(s):
                s = s(*[i.as_int() for i in idx])
            return num(s)
        self.ranges[name] = (lo, hi)
        if lo >= 1:
            T.POS_APPS.add(name)
        T.NONNEG_APPS.add(name)
        return T.app(name, *idx, sort="int")

    def integer(self, name, *idx, lo=0, hi=5):
        self.ranges[name] = (lo, hi)
        return T.app(name, *idx, sort="int")

    def boolean(self, name, *idx):
        return T.pred(name, *idx)

    def string(self, name, *idx, pick=()):
        """Any string (pick: ones that concrete runs should come across)."""
        self.ranges[name] = ("str",)
        if pick:
            self.picks[name] = [int(V.str_code(x).as_int()) for x in pick]
        return SStr(T.app(name, *idx, sort="int"))

    def vec(self, name, *idx, n=3, lo=-1.5, hi=1.5):
        self.ranges[name] = (lo, hi)
        return self.I.alloc(self.st, (num(n),), lambda i: T.app(name, *(tuple(idx) + tuple(i))), "real")

    def arr(self, name, shape, *idx, lo=-1.5, hi=1.5):
        self.ranges[name] = (lo, hi)
        return self.I.alloc(self.st, shape, lambda i: T.app(name, *(tuple(idx) + tuple(i))), "real")

    def tab(self, shape, f, dtype="real", kind="arr"):
        """array whose element is f(i, j, ...); f may create objects"""
        I = self.I
        saved = list(I.binders)

        def g(i):
            extra = []
            for x in i:
                if x.as_int() is None:
                    a = T.only_atom(x)
                    extra.append(a)
            I.binders = saved + extra
            try:
                return f(*i)
            finally:
                I.binders = saved

        return I.alloc(self.st, shape, g, dtype, kind=kind)

    def lst(self, n, f):
        return self.tab((n,), f, dtype="obj", kind="list")

    def objarr(self, shape, f):
        return self.tab(shape, f, dtype="obj")

    def cls(self, qual):
        m, c = qual.rsplit(".", 1)
        return self.I.get_global(self.I.module(m), c, self.st)

    def obj(self, qual, **fields):
        o = self.I.new_obj(self.st, self.cls(qual), qual.split(".")[-1])
        o.fam.partial = True
        for k, v in fields.items():
            if isinstance(v, bool):
                v = TRUE if v else FALSE
            elif isinstance(v, (int, float)):
                v = num(v)
            self.I.set_field(self.st, o, k, v)
        return o

    def obj_in(self, st, qual):
        """A new object of the given class in a running state."""
        o = self.I.new_obj(st, self.cls(qual), qual.split(".")[-1])
        o.fam.partial = True
        return o

    def setf(self, o, k, v):
        self.I.set_field(self.st, o, k, v)

    def get(self, arr, *idx):
        st = self.st0 or self.st
        v = arr
        if isinstance(v, ListRef):
            return self.I.buf_get(st, v.buf, v.owner, tuple(to_p(i) for i in idx))
        return self.I.arr_get(st, v, tuple(to_p(i) for i in idx))

    def field(self, o, k):
        return self.I.get_field(self.st0 or self.st, o, k)

    def v3(self, arr):
        return tuple(self.get(arr, i) for i in range(3))

    def let(self, **kw):
        for k, v in kw.items():
            if isinstance(v, bool):
                v = TRUE if v else FALSE
            elif isinstance(v, (int, float)):
                v = num(v)
            self.inp[k] = v

    def require(self, b):
        self.requires.append(b)
        self.st.assume(b)

    def summary(self, qual, f):
        self.I.summaries[qual] = f

    def specfun(self, name, f, numeric=None):
        """Helper usable in code strings: f on terms, numeric on floats."""
        self.spec[name] = (f, numeric or f)

    # ------------------------------------------------ execution
    def start(self):
        self.fid = self.I.new_frame(self.st)
        fr = self.st.frames[self.fid]
        m = ModuleVal("contract")
        m.tree = None
        I = self.I
        import ast as _a

        for nm in ("np", "math", "range"):
            pass
        m.attrs["np"] = I.lib.module("numpy")
        m.attrs["math"] = I.lib.module("math")
        m.attrs["ps"] = ModuleVal(I.package)
        fr["__mod__"] = m
        for k, (f, n) in self.spec.items():
            m.attrs[k] = Builtin(k, (lambda f: lambda st, *a, **kw: f(*a, **kw))(f))
        m.attrs["Sum"] = Builtin("Sum", lambda st, n, g: self._sum(st, n, g))
        m.attrs["Forall"] = Builtin("Forall", lambda st, n, g: self._forall(st, n, g))
        import cut

        m.attrs["verif_cut"] = Builtin("verif_cut", lambda st, *a, **kw: cut.symbolic(I, st, *a, **kw))

        def need(st, c):
            if I.decide(st, I.truth(st, c)) is not True:
                raise Unsupported("the cut does not apply here")

        m.attrs["verif_need"] = Builtin("verif_need", need)
        for k, v in self.inp.items():
            fr[k] = v
        self.st0 = self.st.copy()

    def _sum(self, st, n, g):
        I = self.I
        return I.lib.red(st, n, lambda i: I.lib.n(I.call(st, g, [i], {})))

    def _forall(self, st, n, g):
        I = self.I
        k = n.as_int()
        if k is not None:
            r = TRUE
            for i in range(k):
                r = and_(r, I.truth(st, I.call(st, g, [num(i)], {})))
            return r
        v = fresh("q", "int", ZERO, n)
        return T.forall(n, T.only_atom(v), I.truth(st, I.call(st, g, [v], {})))

    def exec(self, code):
        import textwrap

        code = textwrap.dedent(code)
        self.codes.append(code)
        if self.mode != "sym" or self.error:
            return
        if self.fid is None:
            self.start()
        tree = ast.parse(code)
        exits = []
        try:
            ok = self.I.exec_block(tree.body, self.fid, self.st, exits)
        except Unsupported as e:
            self.error = "unsupported: %s" % e
            self.trace = traceback.format_exc()
            return
        except Raised as e:
            ok = False
            self.I.raises.append((and_(*self.st.pc), e.exc, (), self.st.facts))
        except RecursionError:
            self.error = "unsupported: recursion"
            return
        for ex in exits:
            if ex.kind == "raise":
                self.I.raises.append((and_(*ex.st.pc), ex.val, (), ex.st.facts))
        if not ok:
            self.error = "raises: %s" % ([x.val for x in exits],)

    def post(self, name, expr, want=None, over=(), tol=None, rows=None, nan=False):
        """over: list of (var name, size) with size a P or a callable of the
        previous binders.  rows: function of the binders to the indices of the
        equations, of the linear systems the code solved, that may be used."""
        self.posts.append(dict(name=name, expr=expr, want=want, over=list(over), tol=tol, rows=rows, nan=nan))

    def equations(self, i):
        """The i-th row (A x - b)_i = 0 of every linear system solved."""
        out = []
        for sf in self.I.solve_facts:
            if sf["binders"]:
                continue
            r = self.I.lib.red(self.st, sf["n"], lambda m: to_p(self.I.lib.n(sf["A"](i, m))) * to_p(sf["x"](m)))
            out.append(r - to_p(self.I.lib.n(sf["b"](i))))
        return out

    def solution(self, i, k=-1):
        return self.I.solve_facts[k]["x"](i)

    # ------------------------------------------------ obligations
    def binders_for(self, post):
        env = {}
        for nm, n in post["over"]:
            n2 = n(**env) if callable(n) else n
            env[nm] = fresh(nm, "int", ZERO, to_p(n2))
        return env

    def value(self, expr, env, st):
        I = self.I
        st = st.copy()
        for k, v in env.items():
            st.frames[self.fid][k] = v
        v = I.eval(ast.parse(expr, mode="eval").body, self.fid, st)
        return v, st

    def flat(self, st, v):
        """list of scalar values"""
        if isinstance(v, (ArrRef,)):
            nd = self.I.lib.nd(st, v)
            out = []

            def rec(pre, ax):
                if ax == len(nd.shape):
                    out.append(nd.get(pre))
                    return
                k = nd.shape[ax].as_int()
                if k is None:
                    raise Unsupported("post on symbolic array")
                for i in range(k):
                    rec(pre + (num(i),), ax + 1)

            rec((), 0)
            return out
        if isinstance(v, ListRef):
            k = self.I.lib.list_len(st, v).as_int()
            if k is None:
                raise Unsupported("post on a list of symbolic length")
            return [x for i in range(k) for x in self.flat(st, self.I.buf_get(st, v.buf, v.owner, (num(i),)))]
        if isinstance(v, Choice) and any(isinstance(w, (ArrRef, ListRef, Choice, tuple, list)) for w in (v.a, v.b)):
            d = prover.decide(st.allfacts(), v.c)
            if d is not None:
                return self.flat(st, v.a if d else v.b)
            x, y = self.flat(st, v.a), self.flat(st, v.b)
            if len(x) != len(y):
                return [v]
            return [mk_choice(v.c, p, q) for p, q in zip(x, y)]
        if isinstance(v, (tuple, list)):
            r = []
            for x in v:
                r.extend(self.flat(st, x))
            return r
        if isinstance(v, bool):
            return [TRUE if v else FALSE]
        if isinstance(v, (int, float)):
            return [num(v)]
        return [v]

    def check(self, hyps=(), per=30):
        """Discharge all postconditions; returns obligations."""
        out = []
        I = self.I
        if self.error and not self.error.startswith("raises"):
            for p in self.posts:
                o = Obl(p["name"])
                o.status, o.detail = "unsupported", self.error
                out.append(o)
            self.obls = out
            return out
        hyps = list(hyps)
        # exceptions
        if not self.allow_raise:
            o = Obl("no exception")
            t0 = time.time()
            bad = None
            for g, exc, cur, facts in I.raises:
                gs = g.args if g.op == "and" else (g,)
                if entails(tuple(facts) + tuple(self.requires) + tuple(gs), FALSE) or entails(
                    tuple(facts) + tuple(self.requires) + tuple(gs), FALSE, True, 2000
                ):
                    continue
                bad = (g, exc, cur, facts)
                break
            o.t = time.time() - t0
            if bad is None:
                o.status, o.how = "proved", "every raise guard unsatisfiable (%d)" % len(I.raises)
            else:
                o.status = "failed"
                o.detail = "possible exception %r in %s when %s" % (bad[1], bad[2], T.show(bad[0])[:300])
                o.guard = bad
            out.append(o)
        if self.error:
            for p in self.posts:
                o = Obl(p["name"])
                o.status, o.detail = "failed", self.error
                out.append(o)
            self.obls = out
            return out
        # safety obligations
        n_ok = sum(1 for s in I.safety if s[3])
        for text, facts, b, ok in I.safety:
            if ok:
                continue
            o = Obl("safety: %s" % text)
            t0 = time.time()
            if entails(tuple(facts) + tuple(self.requires), b, True, 2000):
                o.status, o.how = "proved", "z3 nonlinear"
            else:
                o.status, o.detail = "failed", T.show(b)[:400]
                o.soft = True
                o.guard = (b, facts)
            o.t = time.time() - t0
            out.append(o)
        self.n_safety = n_ok
        for p in self.posts:
            env = self.binders_for(p)
            o = Obl(p["name"])
            t0 = time.time()
            try:
                st = self.st
                facts = st.allfacts()
                with with_facts(facts):
                    got, st1 = self.value(p["expr"], env, st)
                    w = p["want"]
                    if w is None:
                        gl = [self.I.truth(st1, got)]
                        wl = [TRUE]
                    else:
                        if isinstance(w, str):
                            wv, st1 = self.value(w, env, st1)
                        else:
                            wv = w(**env)
                        gl, wl = self.flat(st1, got), self.flat(st1, wv)
                    facts = st1.allfacts()
                    hs = list(hyps)
                    if p.get("rows"):
                        for i in p["rows"](**env):
                            hs.extend(self.equations(i))
                if len(gl) != len(wl):
                    o.status, o.detail = "failed", "%d values, specified %d" % (len(gl), len(wl))
                else:
                    res, how = True, None
                    for gx, wx in zip(gl, wl):
                        r, h = self.prove_pair(gx, wx, facts, hs, per, st1)
                        if r is not True:
                            res, how = r, h
                            o.pair = (gx, wx, facts)
                            break
                        how = h
                    if res is True:
                        o.status, o.how = "proved", how
                    elif res is False:
                        o.status, o.detail = "failed", "not equal: got %s want %s" % (
                            T.show(o.pair[0])[:500] if isinstance(o.pair[0], (P, B)) else o.pair[0],
                            T.show(o.pair[1])[:500] if isinstance(o.pair[1], (P, B)) else o.pair[1],
                        )
                    else:
                        o.status, o.detail = "unknown", str(how)[:300]
            except Raised as e:
                o.status, o.detail = "failed", "evaluation raises %r" % (e.exc,)
            except Unsupported as e:
                o.status, o.detail = "unsupported", str(e)[:500]
                o.trace = traceback.format_exc()
            except RecursionError:
                o.status, o.detail = "unknown", "recursion"
            o.t = time.time() - t0
            out.append(o)
        self.obls = out
        return out

    def prove_pair(self, g, w, facts, hyps, per, st):
        if isinstance(g, Choice) or isinstance(w, Choice):
            c = g.c if isinstance(g, Choice) else w.c
            for val, cc in ((True, c), (False, not_(c))):
                fs = tuple(facts) + (cc.args if cc.op == "and" else (cc,))
                if entails(fs, FALSE):
                    continue
                r, h = self.prove_pair(V.resolve_choice(g, c, val), V.resolve_choice(w, c, val), fs, hyps, per, st)
                if r is not True:
                    return r, h
            return True, "case split"
        if isinstance(g, (B, bool)) or isinstance(w, (B, bool)):
            if isinstance(g, (P,)) or isinstance(w, P):
                return prove_eq(to_p(g), to_p(w), facts, hyps, per)
            if not isinstance(g, (B, bool)) or not isinstance(w, (B, bool)):
                return False, "types"
            return prove_bool(iff(to_b(g), to_b(w)), facts, hyps, per)
        if isinstance(g, P) and isinstance(w, P):
            return prove_eq(g, w, facts, hyps, per)
        if g is None or w is None:
            return (g is w), "identity"
        if isinstance(g, V.Opaque) and isinstance(w, V.Opaque) and g.key == w.key == "nan":
            return True, "identity"
        e = self.I.lib.equal(st, g, w)
        return prove_bool(e, facts, hyps, per)

    # ------------------------------------------------ numeric refutation
    def evaluator(self, salt):
        E = T.Evaluator(salt=salt)
        E.int_range = (1, 3)
        for name, r in self.ranges.items():
            if r == ("str",):
                continue
            if name in self.num_funs:
                continue

            def f(*args, name=name, r=r):
                lo, hi = r
                u = T._hash_float((name, tuple(T._rnd(x) for x in args), salt), 0.0, 1.0)
                if name in self.int_names:
                    return int(lo + math.floor(u * (hi - lo + 1)))
                return round(lo + (hi - lo) * u, 6)

            E.funs[name] = f
        for name, codes in self.picks.items():
            def g(*args, name=name, codes=codes):
                i = int(T._hash_float((name, tuple(T._rnd(x) for x in args), salt), 0.0, 1.0) * (len(codes) + 1))
                return codes[i] if i < len(codes) else 1

            E.funs[name] = g
        for k, f in self.num_funs.items():
            E.funs[k] = f
        for k, f in self.salted.items():

            def g(*a, f=f):
                r = random.Random(repr((salt, a)))
                r.E = E
                return f(r, salt, *a)

            E.funs[k] = g
        return E

    @property
    def int_names(self):
        return {n for n, r in self.ranges.items() if r != ("str",) and isinstance(r[0], int) and isinstance(r[1], int)}

    def requires_ok(self, E):
        for b in self.requires:
            try:
                if not E.b(b):
                    return False
            except T.EvalFail:
                return False
        return True

    def refute(self, o, tries=30):
        """A numeric assignment under which the two sides of a failed
        obligation differ (only when no solver facts are involved)."""
        if not hasattr(o, "pair"):
            return None
        g, w, facts = o.pair
        if not isinstance(g, (P, B)) or not isinstance(w, (P, B)):
            return None
        for x in (g, w):
            if any(a.op == "app" and str(a.args[0]).startswith(("solve!", "havoc!", "OLD!")) for a in free_atoms(x)):
                return None
        bad = 0
        ok = 0
        wit = None
        for salt in range(tries):
            E = self.evaluator(salt)
            try:
                if not self.requires_ok(E):
                    continue
                if not all(E.b(f) for f in facts):
                    continue
                a, b = E._val(g), E._val(w)
            except T.EvalFail:
                continue
            except (OverflowError, ZeroDivisionError, ValueError, RecursionError):
                continue
            if isinstance(a, bool) or isinstance(b, bool):
                d = bool(a) != bool(b)
            else:
                d = abs(float(a) - float(b)) > 1e-6 * (1 + abs(float(a)) + abs(float(b)))
            if d:
                bad += 1
                wit = wit or dict(salt=salt, got=float(a), want=float(b))
            else:
                ok += 1
        if bad:
            return wit
        return None


# ---------------------------------------------------------------------------
# concrete execution
# ---------------------------------------------------------------------------
class Conc:
    """Concrete objects of the real code for the inputs of a contract."""

    def __init__(self, cx, E):
        self.cx, self.E = cx, E
        self.st = cx.st0 or cx.st
        self.objs = {}
        self.arrs = {}

    def ev(self, p):
        v = self.E.p(p)
        if isinstance(v, Fraction):
            return float(v) if v.denominator != 1 else int(v)
        return v

    def pyclass(self, cls):
        import importlib

        m = importlib.import_module(self.cx.I.package + "." + cls.mod.name)
        return getattr(m, cls.name)

    def conc(self, v):
        import numpy as np

        I = self.cx.I
        if isinstance(v, P):
            r = self.ev(v)
            return r if v.is_int else float(r)
        if isinstance(v, B):
            return self.E.b(v)
        if v is None or isinstance(v, (str, bool)):
            return v
        if isinstance(v, SStr):
            k = int(self.ev(v.p))
            return V.code_str(k) or "s%d" % k
        if isinstance(v, Choice):
            return self.conc(v.a if self.E.b(v.c) else v.b)
        if isinstance(v, tuple):
            return tuple(self.conc(x) for x in v)
        if isinstance(v, Ref):
            own = tuple(int(self.ev(o)) for o in v.owner)
            key = (v.fam.id, own)
            if key in self.objs:
                return self.objs[key]
            cls = self.pyclass(v.fam.cls)
            o = object.__new__(cls)
            self.objs[key] = o
            ref = Ref(v.fam, tuple(num(x) for x in own))
            for (fam, attr), fm in list(self.st.fields.items()):
                if fam is v.fam:
                    try:
                        object.__setattr__(o, attr, self.conc(I.get_field(self.st, ref, attr)))
                    except AttributeError:
                        pass
            return o
        if isinstance(v, ListRef):
            own = tuple(int(self.ev(o)) for o in v.owner)
            key = ("l", v.buf.id, own)
            if key in self.objs:
                return self.objs[key]
            out = []
            self.objs[key] = out
            ref = ListRef(v.buf, tuple(num(x) for x in own))
            n = int(self.ev(I.shape_of(self.st, ref)[0]))
            for i in range(n):
                out.append(self.conc(I.buf_get(self.st, ref.buf, ref.owner, (num(i),))))
            return out
        if isinstance(v, ArrRef):
            own = tuple(int(self.ev(o)) for o in v.owner)
            axes = tuple(
                ("pt", num(int(self.ev(a[1])))) if a[0] == "pt" else ("ax", a[1], num(int(self.ev(a[2]))), a[3]) for a in v.axes
            )
            shape = tuple(int(self.ev(s)) for s in v.shape)
            key = ("a", v.buf.id, own, axes, shape)
            if key in self.arrs:
                return self.arrs[key]
            ref = ArrRef(v.buf, tuple(num(x) for x in own), axes, tuple(num(s) for s in shape))
            dt = {"real": float, "int": int, "bool": bool, "obj": object}[v.buf.dtype]
            a = np.empty(shape, dtype=dt)
            self.arrs[key] = a
            for idx in np.ndindex(*shape):
                a[idx] = self.conc(I.arr_get(self.st, ref, tuple(num(i) for i in idx)))
            return a
        if isinstance(v, SymFun):
            idx = [num(int(self.ev(i))) for i in v.idx]
            if v.py:
                return (lambda *a, **k: v.py(*[int(self.ev(i)) for i in idx], *a, **k)) if idx else v.py

            def call(*a, **k):
                lift = lambda x: num(Fraction(x) if isinstance(x, float) else int(x)) if isinstance(x, (int, float, np.number)) else x
                return self.conc(v.fn(*idx, *[lift(x) for x in a], **{n: lift(x) for n, x in k.items()}))

            return call
        if isinstance(v, PyDict):
            return {k: self.conc(x) for k, x in v.items.items()}
        raise Unsupported("concretise %r" % (v,))


class Mismatch(Exception):
    def __init__(self, name, env, got, want):
        super().__init__("%s at %s: real code gives %s, specified %s" % (name, env, got, want))
        self.name, self.env, self.got, self.want = name, env, got, want


class Skip(Exception):
    pass


def run_concrete(c, salt, repo=REPO):
    """Run contract c on the real code with the assignment `salt`.
    Raises Mismatch on a violated postcondition; Skip if not applicable."""
    import numpy as np
    import importlib

    cx = Cx(mode="decl", sizes=None, repo=repo)
    c["fn"](cx)
    cx.st0 = cx.st
    E = cx.evaluator(salt)
    if not cx.requires_ok(E):
        raise Skip("requires")
    C = Conc(cx, E)
    ns = {"np": np, "math": math, "ps": importlib.import_module(cx.I.package)}
    for m in ("panel", "geometry", "meshing", "aerodynamics", "operating_point", "problems", "movement", "functions",
              "steady_horseshoe_vortex_lattice_method", "steady_ring_vortex_lattice_method",
              "unsteady_ring_vortex_lattice_method", "output", "trim", "convergence"):
        try:
            importlib.import_module(cx.I.package + "." + m)
        except Exception:
            pass
    for k, (f, n) in cx.spec.items():
        ns[k] = n
    import cut

    def need(c):
        if not c:
            raise Skip("the cut does not apply here")

    ns["verif_cut"], ns["verif_need"] = cut.concrete, need
    ns["Sum"] = lambda n, g: sum(g(i) for i in range(n))
    ns["Forall"] = lambda n, g: all(g(i) for i in range(n))
    for k, v in cx.inp.items():
        ns[k] = C.conc(v)
    ns.update(cx.concrete_ns)
    import warnings

    cx.E = E
    undo = cx.conc_patch(ns) if cx.conc_patch else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                for code in cx.codes:
                    exec(compile(code, "<contract>", "exec"), ns)
                n = 0
                for p in cx.posts:
                    try:
                        n += check_post(cx, E, C, ns, p)
                    except Mismatch as m:
                        if E.near:  # floating point may round the other way
                            raise Skip("rounding tie: %s" % m)
                        raise
        return n
    finally:
        if undo:
            undo()


def _flatc(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return [x for x in v.ravel()]
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r.extend(_flatc(x))
        return r
    return [v]


def check_post(cx, E, C, ns, p):
    import numpy as np

    envs = [({}, {})]
    for nm, n in p["over"]:
        new = []
        for e, pe in envs:
            k = n(**pe) if callable(n) else n
            for i in range(int(C.ev(to_p(k)))):
                new.append(({**e, nm: i}, {**pe, nm: num(i)}))
        envs = new
    cnt = 0
    for e, pe in envs:
        ns2 = dict(ns)
        ns2.update(e)
        got = eval(p["expr"], ns2)
        w = p["want"]
        if w is None:
            if not bool(got):
                raise Mismatch(p["name"], e, got, True)
            cnt += 1
            continue
        if isinstance(w, str):
            want = eval(w, ns2)
            gl, wl = _flatc(got), _flatc(want)
        else:
            gl = _flatc(got)
            try:
                wl = [E._val(x) if isinstance(x, (P, B)) else C.conc(x) for x in cx.flat(C.st, w(**pe))]
            except T.EvalFail as ex:
                raise Skip(str(ex))
        if len(gl) != len(wl):
            raise Mismatch(p["name"], e, gl, wl)
        for a, b in zip(gl, wl):
            cnt += 1
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                if a != b:
                    raise Mismatch(p["name"], e, a, b)
                continue
            if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
                if bool(a) != bool(b):
                    raise Mismatch(p["name"], e, a, b)
                continue
            if isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number, Fraction)):
                a, b = float(a), float(b)
                tol = p["tol"] or cx.tol
                if not (abs(a - b) <= tol * (1 + abs(a) + abs(b))) and not (math.isnan(a) and math.isnan(b)):
                    if math.isinf(b) or (math.isnan(b) and not p.get("nan")):
                        raise Skip("spec value not finite")
                    raise Mismatch(p["name"], e, a, b)
                continue
            if a is not b and a != b:
                raise Mismatch(p["name"], e, a, b)
    return cnt
