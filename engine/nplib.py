"""Models of the library operations the interpreted code calls: Python
builtins, numpy, math and a few scipy entry points, over real numbers and
arrays with symbolic shapes.  These are the assumed contracts on dependencies;
cross-checked by running every contract on the real code as well."""
import ast
from values import *  # noqa
import values as V
import terms as T
from prover import entails, decide, with_facts, prove_eq


LEVELS = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)


class ND:
    __slots__ = ("shape", "get", "dtype")

    def __init__(self, shape, get, dtype="real"):
        self.shape = tuple(to_p(s) for s in shape)
        self.get = get
        self.dtype = dtype


class RangeVal:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, RangeVal) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash((self.a, self.b, self.c))


class IterVal:
    def __init__(self, n, elem):
        self.n, self.elem = n, elem


class LibMod(ModuleVal):
    pass


class NewAxis:
    pass


ELLIPSIS = Ellipsis


class LibObj:
    """An instance of a library class with a name and recorded arguments."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw


OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**",
    ast.FloorDiv: "//", ast.Mod: "%", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|",
}


class Lib:
    def __init__(self, interp):
        self.I = interp
        self.mods = {}
        self.builtins = {}
        for n in dir(self):
            if n.startswith("bi_"):
                self.builtins[n[3:]] = Builtin(n[3:], getattr(self, n))
        for e in list(interp.EXC_PARENTS) + ["BaseException", "NotImplementedError", "Warning", "UserWarning"]:
            self.builtins[e] = Builtin(e, (lambda e: lambda st, *a, **k: ExcVal(e, a))(e))
        self.builtins["Ellipsis"] = Ellipsis
        self.builtins["NotImplemented"] = Opaque("NotImplemented")
        self.builtins["object"] = Builtin("object", lambda st: Opaque("object()"))
        self.builtins["__name__"] = "module"
        self.builtins["__file__"] = "file"

    # ------------------------------------------------------------ namespaces
    def module(self, name):
        return LibMod(name)

    def builtin(self, name):
        return self.builtins.get(name)

    def module_attr(self, mod, name):
        full = mod.name
        alias = {"numpy.linalg": "linalg", "scipy.interpolate": "interpolate", "scipy.signal": "signal"}
        meth = None
        base = full.split(".")[0]
        if base == "numpy":
            if name in ("linalg",):
                return LibMod("numpy.linalg")
            if full == "numpy.linalg":
                meth = getattr(self, "la_" + name, None)
            else:
                if name == "pi":
                    return T.PI
                if name in ("nan", "NaN"):
                    return Opaque("nan", "nan")
                if name == "inf":
                    return T.app("inf")
                if name == "newaxis":
                    return None
                if name in ("float64", "float32", "double"):
                    return self.builtins["float"]
                if name in ("int64", "int32", "intp"):
                    return self.builtins["int"]
                if name in ("bool_",):
                    return self.builtins["bool"]
                if name in ("ndarray", "integer", "floating"):
                    return Builtin("np." + name, lambda st, *a: None)
                meth = getattr(self, "np_" + name, None)
        elif base == "math":
            if name == "pi":
                return T.PI
            if name == "inf":
                return T.app("inf")
            meth = getattr(self, "ma_" + name, None) or getattr(self, "np_" + name, None)
        elif base == "scipy":
            if name in ("optimize", "interpolate", "signal"):
                return LibMod("scipy." + name)
            meth = getattr(self, "sp_" + name, None)
        elif base in ("logging", "tqdm", "pyvista", "matplotlib", "pv", "webp", "time", "importlib", "copy",
                      "warnings", "os", "sys", "typing", "functools", "itertools", "collections", "numba", "enum",
                      "dataclasses", "abc", "pathlib", "contextlib"):
            if base == "numba":
                return Builtin("numba." + name, lambda st, *a, **k: Builtin("deco", lambda s, f: f))
            if full == "time" and name == "time":
                return Builtin("time.time", lambda st: fresh("time"))
            meth = getattr(self, base + "_" + name, None)
            if meth is None:
                h = self.I.summaries.get("lib:%s.%s" % (full, name))
                if h is not None:
                    return Builtin("%s.%s" % (full, name), lambda st, *a, **k: h(self.I, st, a, k))
                if base == "logging" and name in LEVELS:
                    return num(LEVELS[name])
                if base in ("logging", "tqdm", "warnings"):
                    return Builtin("%s.%s" % (full, name), self.quiet(full + "." + name))
                return LibMod(full + "." + name)
        if meth is None:
            raise Unsupported("library %s.%s" % (full, name))
        return Builtin(full + "." + name, meth)

    def quiet(self, nm):
        def f(st, *a, **k):
            return LibObj(nm, args=a, kw=k)

        return f

    # ------------------------------------------------------------ arrays
    def nd(self, st, v):
        I = self.I
        if isinstance(v, ND):
            return v
        if isinstance(v, bool):
            v = TRUE if v else FALSE
        if isinstance(v, P):
            return ND((), lambda idx: v, "int" if v.is_int else "real")
        if isinstance(v, B):
            return ND((), lambda idx: v, "bool")
        if isinstance(v, ArrRef):
            return ND(v.shape, lambda idx: I.arr_get(st, v, idx), v.buf.dtype)
        if isinstance(v, (ListRef, tuple, RangeVal, IterVal)):
            n, elem = self.iterate(st, v)
            k = n.as_int()
            if k == 0:
                return ND((ZERO,), lambda idx: UNDEF, "real")
            if k is not None:
                nds = [self.nd(st, elem(st, num(i))) for i in range(k)]
                sh = nds[0].shape
                for x in nds[1:]:
                    if len(x.shape) != len(sh):
                        raise Raised(ExcVal("ValueError", ("inhomogeneous",)))
                    for a, b in zip(x.shape, sh):
                        self.same_dim(st, a, b, "array from sequence")

                def get(idx):
                    i = idx[0].as_int()
                    if i is not None:
                        return nds[i].get(idx[1:])
                    val = None
                    for j, x in enumerate(nds):
                        y = x.get(idx[1:])
                        val = y if val is None else mk_choice(eq(idx[0], num(j)), y, val)
                    return val

                return ND((n,) + sh, get, self.join_dtype([x.dtype for x in nds]))
            v0 = fresh("e", "int", ZERO, n)
            st2 = st.copy()
            st2.facts = st2.facts
            e0 = self.nd(st2, elem(st2, v0))
            va = T.only_atom(v0)
            for s in e0.shape:
                if va in free_atoms(s):
                    raise Unsupported("ragged array")

            def get2(idx):
                return self.nd(st, elem(st, idx[0])).get(idx[1:])

            return ND((n,) + e0.shape, get2, e0.dtype)
        if isinstance(v, Opaque):
            raise OpaqueUse(v)
        if isinstance(v, Choice):
            a, b = self.nd(st, v.a), self.nd(st, v.b)
            if len(a.shape) != len(b.shape):
                raise Unsupported("choice of arrays of different rank")
            shape = []
            for x, y in zip(a.shape, b.shape):
                shape.append(ite(v.c, x, y))
            return ND(shape, lambda idx: mk_choice(v.c, a.get(idx), b.get(idx)), a.dtype)
        return ND((), lambda idx: v, "obj")

    def join_dtype(self, ds):
        for d in ("obj", "real", "int", "bool"):
            if d in ds:
                return d
        return "real"

    def same_dim(self, st, a, b, why):
        if a is b:
            return
        ca, cb = a.as_int(), b.as_int()
        if ca is not None and cb is not None:
            raise Raised(ExcVal("ValueError", ("shape mismatch: " + why,)))
        self.I.safe(st, "equal dimensions: " + why, eq(a, b))

    def mk(self, st, nd):
        if not nd.shape:
            return nd.get(())
        return self.I.alloc(st, nd.shape, nd.get, nd.dtype)

    def broadcast_shapes(self, st, shapes):
        r = max(len(s) for s in shapes)
        out = []
        for ax in range(r):
            d = None
            for s in shapes:
                j = ax - (r - len(s))
                if j < 0:
                    continue
                x = s[j]
                if d is None or d is ONE:
                    d = x
                elif x is ONE or x is d:
                    pass
                else:
                    if entails(st.allfacts(), eq(d, ONE)):
                        d = x
                    elif entails(st.allfacts(), eq(x, ONE)):
                        pass
                    else:
                        self.same_dim(st, d, x, "broadcast")
                        if x.as_int() is not None:
                            d = x
            out.append(d)
        return tuple(out)

    def broadcast_getter(self, st, nd, shape):
        r = len(shape)
        if len(nd.shape) > r:
            for s in nd.shape[: len(nd.shape) - r]:
                if s is not ONE:
                    raise Raised(ExcVal("ValueError", ("broadcast",)))
            k = len(nd.shape) - r
            n2 = ND(nd.shape[k:], lambda idx: nd.get((ZERO,) * k + tuple(idx)), nd.dtype)
            return self.broadcast_getter(st, n2, shape)
        sel = []
        for j, s in enumerate(nd.shape):
            t = shape[j + r - len(nd.shape)]
            one = s is ONE and t is not ONE
            if not one and s is not t:
                if t is ONE:
                    raise Raised(ExcVal("ValueError", ("broadcast",)))
                if entails(st.allfacts(), eq(s, t)):
                    pass
                elif entails(st.allfacts(), eq(s, ONE)):
                    one = True
                else:
                    self.same_dim(st, s, t, "broadcast")
            sel.append(one)

        def get(idx):
            off = len(idx) - len(sel)
            return nd.get(tuple(ZERO if o else idx[off + j] for j, o in enumerate(sel)))

        return get

    def elementwise(self, st, f, *args, dtype=None):
        nds = [self.nd(st, a) for a in args]
        shape = self.broadcast_shapes(st, [n.shape for n in nds])
        gets = [self.broadcast_getter(st, n, shape) for n in nds]
        dt = dtype or self.join_dtype([n.dtype for n in nds])

        def g(idx):
            return f(*[self.pick(st, x(idx)) for x in gets])

        return self.mk(st, ND(shape, g, dt))

    def pick(self, st, v):
        if isinstance(v, Choice):
            d = self.I.decide(st, v.c)
            if d is not None:
                return self.pick(st, v.a if d else v.b)
        return v

    def map1(self, f):
        def g(st, x, *rest, **kw):
            return self.I.lift(st, lambda s, xx: self.elementwise(s, self.num1(f), xx, dtype="real"), x)

        return g

    def num1(self, f):
        def g(x):
            return f(self.n(x))

        return g

    def n(self, x):
        if isinstance(x, P):
            return x
        if isinstance(x, (B, bool, int, float)):
            return to_p(x)
        if isinstance(x, Opaque):
            raise OpaqueUse(x)
        if isinstance(x, Choice):
            raise Unsupported("numeric use of choice %r" % (x,))
        if x is UNDEF:
            raise Unsupported("read of uninitialised element")
        if isinstance(x, OldVal):
            raise OpaqueUse(Opaque("old value"))
        if x is None or isinstance(x, (str, Ref, ListRef, tuple, PyDict)):
            raise Raised(ExcVal("TypeError", ("numeric operand %r" % type(x).__name__,)))
        raise Unsupported("numeric use of %r" % (x,))

    # ------------------------------------------------------------ operators
    def scalar_op(self, op, st=None):
        n = self.n
        if op is ast.Add:
            return lambda a, b: n(a) + n(b)
        if op is ast.Sub:
            return lambda a, b: n(a) - n(b)
        if op is ast.Mult:
            return lambda a, b: n(a) * n(b)
        if op is ast.Div:
            return lambda a, b: self.div(st, n(a), n(b))
        if op is ast.Pow:
            return lambda a, b: self.pow_(n(a), n(b))
        if op is ast.FloorDiv:
            return lambda a, b: T.floordiv(n(a), n(b))
        if op is ast.Mod:
            return lambda a, b: T.mod(n(a), n(b))
        if op is ast.BitAnd:
            return lambda a, b: and_(to_b(a), to_b(b))
        if op is ast.BitOr:
            return lambda a, b: or_(to_b(a), to_b(b))
        raise Unsupported("operator %s" % op.__name__)

    def div(self, st, a, b):
        if not b.t:
            raise Raised(ExcVal("ZeroDivisionError", ()))
        return a / b

    def pow_(self, a, b):
        k = b.as_int()
        if k is not None:
            return T.power(a, k)
        c = b.const()
        if c is not None and c.denominator == 2:
            return T.power(T.sqrt(a), c.numerator)
        return T.app("pow", a, b)

    def binop(self, st, op, a, b):
        I = self.I
        if isinstance(a, Choice) or isinstance(b, Choice):
            return I.lift(st, lambda s, x, y: self.binop(s, op, x, y), a, b)
        if isinstance(a, Opaque):
            raise OpaqueUse(a)
        if isinstance(b, Opaque):
            raise OpaqueUse(b)
        if a is UNDEF or b is UNDEF:
            raise Unsupported("undefined operand")
        if op is ast.MatMult:
            return self.np_dot(st, a, b)
        sa = isinstance(a, (str, SStr, StrCat))
        sb = isinstance(b, (str, SStr, StrCat))
        if op is ast.Add and sa and sb:
            return self.strcat([a, b])
        if sa or sb:
            if op is ast.Mod:
                return StrCat(("fmt%", a, b))
            raise Raised(ExcVal("TypeError", ("str operand",)))
        if op is ast.Add and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, ListRef) and isinstance(b, ListRef) and op is ast.Add:
            r = self.mk_list(st, [])
            self.list_extend(st, r, a)
            self.list_extend(st, r, b)
            return r
        if op is ast.Mult and (isinstance(a, ListRef) or isinstance(b, ListRef)):
            if isinstance(b, ListRef):
                a, b = b, a
            if isinstance(b, P):
                n = I.shape_of(st, a)[0]
                if n is ONE:
                    e = I.buf_get(st, a.buf, a.owner, (ZERO,))
                    return I.alloc(st, (T.maxv(b, ZERO),), lambda idx: e, a.buf.dtype, kind="list")
                return I.alloc(
                    st, (n * b,), lambda idx: I.buf_get(st, a.buf, a.owner, (T.mod(idx[0], n),)), a.buf.dtype, kind="list"
                )
        if isinstance(a, P) and isinstance(b, P):
            return self.scalar_op(op, st)(a, b)
        if isinstance(a, (P, B, bool)) and isinstance(b, (P, B, bool)):
            return self.scalar_op(op, st)(a, b)
        if isinstance(a, (ListRef, tuple)) and isinstance(b, (ListRef, tuple)):
            raise Raised(ExcVal("TypeError", ("list operands",)))
        if isinstance(a, Ref) or isinstance(b, Ref):
            names = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul"}
            raise Unsupported("object operand")
        return self.elementwise(st, self.scalar_op(op, st), a, b, dtype="real" if op is ast.Div else None)

    def unop(self, st, op, v):
        if isinstance(v, Choice):
            return self.I.lift(st, lambda s, x: self.unop(s, op, x), v)
        if op is ast.USub:
            if isinstance(v, (P, B, bool)):
                return -self.n(v)
            if v is None or isinstance(v, str):
                raise Raised(ExcVal("TypeError", ()))
            return self.elementwise(st, lambda x: -self.n(x), v)
        if op is ast.UAdd:
            return v
        if op is ast.Invert:
            return self.elementwise(st, lambda x: not_(to_b(x)), v, dtype="bool")
        raise Unsupported("unary")

    def compare(self, st, op, a, b):
        I = self.I
        if op in (ast.Is, ast.IsNot):
            r = self.identical(st, a, b)
            return not_(r) if op is ast.IsNot else r
        if op in (ast.In, ast.NotIn):
            r = I.lift(st, lambda s, x, y: self.contains(s, x, y), a, b)
            return not_(r) if op is ast.NotIn else r
        if isinstance(a, Choice) or isinstance(b, Choice):
            return I.lift(st, lambda s, x, y: self.compare(s, op, x, y), a, b)
        if isinstance(a, Opaque):
            if a.key == "nan":
                return TRUE if op is ast.NotEq else FALSE
            raise OpaqueUse(a)
        if isinstance(b, Opaque):
            if b.key == "nan":
                return TRUE if op is ast.NotEq else FALSE
            raise OpaqueUse(b)
        if op in (ast.Eq, ast.NotEq):
            if isinstance(a, (ArrRef,)) or isinstance(b, (ArrRef,)):
                if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                    return FALSE if op is ast.Eq else TRUE
                f = (lambda x, y: self.equal(st, x, y)) if op is ast.Eq else (lambda x, y: not_(self.equal(st, x, y)))
                return self.elementwise(st, f, a, b, dtype="bool")
            r = self.equal(st, a, b)
            return not_(r) if op is ast.NotEq else r
        fn = {ast.Lt: lt, ast.LtE: le, ast.Gt: gt, ast.GtE: ge}[op]
        if isinstance(a, (P, B, bool)) and isinstance(b, (P, B, bool)):
            return fn(self.n(a), self.n(b))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise Raised(ExcVal("TypeError", ("comparison",)))
        return self.elementwise(st, lambda x, y: fn(self.n(x), self.n(y)), a, b, dtype="bool")

    def identical(self, st, a, b):
        if isinstance(a, Choice):
            return or_(and_(a.c, self.identical(st, a.a, b)), and_(not_(a.c), self.identical(st, a.b, b)))
        if isinstance(b, Choice):
            return self.identical(st, b, a)
        if isinstance(a, Opaque):
            if b is None:
                if a.key == "nan" or a.key == "object":
                    return FALSE
            raise OpaqueUse(a)
        if isinstance(b, Opaque):
            return self.identical(st, b, a)
        if a is UNDEF or b is UNDEF:
            return FALSE
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if isinstance(a, bool):
            a = TRUE if a else FALSE
        if isinstance(b, bool):
            b = TRUE if b else FALSE
        if isinstance(a, B) and isinstance(b, B):
            return iff(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.fam is not b.fam:
                return FALSE
            r = TRUE
            for x, y in zip(a.owner, b.owner):
                r = and_(r, eq(x, y))
            return r
        if isinstance(a, (ArrRef, ListRef)) and type(a) is type(b):
            if a.buf is not b.buf:
                return FALSE
            r = TRUE
            for x, y in zip(a.owner, b.owner):
                r = and_(r, eq(x, y))
            return r
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.equal(st, a, b)
        if type(a) is not type(b):
            return FALSE
        if isinstance(a, P):
            return self.equal(st, a, b)
        return TRUE if a is b else FALSE

    def equal(self, st, a, b):
        if isinstance(a, Choice):
            return or_(and_(a.c, self.equal(st, a.a, b)), and_(not_(a.c), self.equal(st, a.b, b)))
        if isinstance(b, Choice):
            return self.equal(st, b, a)
        if isinstance(a, (bool, int, float)) and not isinstance(a, str):
            a = to_p(a) if not isinstance(a, bool) else (TRUE if a else FALSE)
        if isinstance(b, (bool, int, float)) and not isinstance(b, str):
            b = to_p(b) if not isinstance(b, bool) else (TRUE if b else FALSE)
        if isinstance(a, B) and isinstance(b, B):
            return iff(a, b)
        if isinstance(a, (P, B)) and isinstance(b, (P, B)):
            return eq(self.n(a), self.n(b))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            pa = a.p if isinstance(a, SStr) else str_code(a)
            pb = b.p if isinstance(b, SStr) else str_code(b)
            return eq(pa, pb)
        if isinstance(a, StrCat) or isinstance(b, StrCat):
            if isinstance(a, StrCat) and isinstance(b, StrCat) and a.parts == b.parts:
                return TRUE
            raise Unsupported("comparison of built strings")
        if a is None or b is None:
            return TRUE if a is b else FALSE
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            r = TRUE
            for x, y in zip(a, b):
                r = and_(r, self.equal(st, x, y))
            return r
        if isinstance(a, ListRef) and isinstance(b, ListRef):
            n, ga = self.iterate(st, a)
            m, gb = self.iterate(st, b)
            k = n.as_int()
            if k is not None and m.as_int() is not None:
                if k != m.as_int():
                    return FALSE
                r = TRUE
                for i in range(k):
                    r = and_(r, self.equal(st, ga(st, num(i)), gb(st, num(i))))
                return r
            v = fresh("q", "int", ZERO, n)
            return and_(eq(n, m), T.forall(n, T.only_atom(v), self.equal(st, ga(st, v), gb(st, v))))
        if isinstance(a, (Ref, ClassVal, Builtin, FuncVal)) or isinstance(b, (Ref, ClassVal, Builtin, FuncVal)):
            return self.identical(st, a, b)
        if type(a) is not type(b):
            return FALSE
        return TRUE if a == b else FALSE

    def contains(self, st, x, c):
        if isinstance(c, PyDict):
            if isinstance(x, (str, P)):
                return TRUE if x in c.items else FALSE
            if isinstance(x, SStr):
                r = FALSE
                for k in c.items:
                    r = or_(r, self.equal(st, x, k))
                return r
        if isinstance(c, str) and isinstance(x, str):
            return TRUE if x in c else FALSE
        n, g = self.iterate(st, c)
        k = n.as_int()
        if k is not None:
            r = FALSE
            for i in range(k):
                r = or_(r, self.equal(st, x, g(st, num(i))))
            return r
        v = fresh("q", "int", ZERO, n)
        return not_(T.forall(n, T.only_atom(v), not_(self.equal(st, x, g(st, v)))))

    # ------------------------------------------------------------ strings
    def to_str(self, st, x, spec=None):
        if isinstance(x, (str, SStr)) and spec is None:
            return x
        if isinstance(x, P) and x.as_int() is not None and spec is None:
            return str(x.as_int())
        return ("fmt", x, spec)

    def strcat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, StrCat):
                out.extend(p.parts)
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            else:
                m.append(p)
        if all(isinstance(p, str) for p in m):
            return "".join(m)
        return StrCat(m)

    # ------------------------------------------------------------ lists
    def mk_list(self, st, items):
        items = list(items)
        k = len(items)
        dt = "obj"

        def get(idx):
            i = idx[0].as_int()
            return items[i]

        if k > V.CONC:
            def get(idx):
                val = items[-1]
                for j in range(k - 1):
                    val = mk_choice(eq(idx[0], num(j)), items[j], val)
                return val
        return self.I.alloc(st, (num(k),), get, dt, kind="list")

    def list_len(self, st, l):
        return self.I.shape_of(st, l)[0]

    def list_append(self, st, l, v):
        I = self.I
        c = st.bufs[l.buf.id]
        oc = I.owner_cond(l.buf.vars, l.owner)
        n = c.shape[0]
        k = n.as_int()
        if oc is TRUE and k is not None and c.ivars[0] is None and k < V.CONC:
            t = dict(c.table)
            t[(k,)] = v
            st.bufs[l.buf.id] = BufC((num(k + 1),), (None,), t)
            return
        iv = T.only_atom(fresh("i", "int", ZERO, None))
        with with_facts(st.allfacts()):
            old = I.generic_elem(c, ap(iv)) if (k is None or k > 0) else UNDEF
            new = mk_choice(and_(oc, eq(ap(iv), n)), v, old) if old is not UNDEF else v
            n2 = ite(oc, n + ONE, n)
        st.bufs[l.buf.id] = BufC((n2,), (iv,), {(): new})

    def list_extend(self, st, l, v):
        n, g = self.iterate(st, v)
        k = n.as_int()
        if k is not None and k <= V.CONC:
            vals = [g(st, num(i)) for i in range(k)]
            for x in vals:
                self.list_append(st, l, x)
            return None
        I = self.I
        c = st.bufs[l.buf.id]
        oc = I.owner_cond(l.buf.vars, l.owner)
        n0 = c.shape[0]
        iv = T.only_atom(fresh("i", "int", ZERO, None))
        with with_facts(st.allfacts()):
            val = g(st, ap(iv) - n0)
            if n0.as_int() == 0:
                new = val
            else:
                old = I.generic_elem(c, ap(iv))
                new = mk_choice(and_(oc, ge(ap(iv), n0)), val, old)
            n2 = ite(oc, n0 + n, n0)
        st.bufs[l.buf.id] = BufC((n2,), (iv,), {(): new})
        return None

    # ------------------------------------------------------------ iteration
    def iterate(self, st, v):
        I = self.I
        if isinstance(v, RangeVal):
            c = v.c.as_int()
            if c == 1:
                n = v.b - v.a
            elif c == -1:
                n = v.a - v.b
            else:
                n = T.ceil((v.b - v.a) / v.c)
            if n.as_int() is not None:
                n = num(max(n.as_int(), 0))
            elif not T.nonneg_syntactic(n) and not entails(st.allfacts(), ge(n, ZERO)):
                n = T.maxv(n, ZERO)
            return n, lambda s, k: v.a + k * v.c
        if isinstance(v, IterVal):
            return v.n, v.elem
        if isinstance(v, tuple):
            return num(len(v)), lambda s, k: self.tuple_get(v, k)
        if isinstance(v, ListRef):
            n = I.shape_of(st, v)[0]
            return n, lambda s, k: I.buf_get(s, v.buf, v.owner, (k,))
        if isinstance(v, ArrRef):
            if not v.shape:
                raise Raised(ExcVal("TypeError", ("0-d iteration",)))
            return v.shape[0], lambda s, k: self.arr_sub(s, v, k)
        if isinstance(v, ND):
            return v.shape[0], lambda s, k: self.mk(s, ND(v.shape[1:], lambda idx: v.get((k,) + tuple(idx)), v.dtype))
        if isinstance(v, str):
            return num(len(v)), lambda s, k: v[k.as_int()]
        if isinstance(v, PyDict):
            return self.iterate(st, tuple(v.items.keys()))
        if isinstance(v, Opaque):
            raise OpaqueUse(v)
        if isinstance(v, LibObj) and v.kind.startswith("tqdm"):
            return self.iterate(st, v.kw["args"][0])
        if v is None or isinstance(v, (P, B)):
            raise Raised(ExcVal("TypeError", ("not iterable",)))
        raise Unsupported("iterate %r" % (v,))

    def tuple_get(self, t, k):
        i = k.as_int()
        if i is None:
            val = None
            for j, x in enumerate(t):
                val = x if val is None else mk_choice(eq(k, num(j)), x, val)
            return val
        return t[i]

    # ------------------------------------------------------------ indexing
    def norm_index(self, st, i, n, check=True):
        if isinstance(i, B):
            i = to_p(i)
        c = i.as_int()
        cn = n.as_int()
        if c is not None and cn is not None:
            if not -cn <= c < cn:
                raise Raised(ExcVal("IndexError", ("index %d of %d" % (c, cn),)))
            return num(c % cn) if cn else i
        facts = st.allfacts()
        if c is not None and c < 0:
            r = n + i
            if check:
                self.I.safe(st, "index in range", ge(r, ZERO))
            return r
        with with_facts(facts):
            if T.in_range(i, n):
                return i
        if c is not None:
            if check:
                self.I.safe(st, "index in range", lt(i, n))
            return i
        d = decide(facts, ge(i, ZERO))
        if d is False:
            r = n + i
        elif d is True:
            r = i
        else:
            r = ite(lt(i, ZERO), i + n, i)
        if check:
            self.I.safe(st, "index in range", and_(ge(r, ZERO), lt(r, n)))
        return r

    def slice_range(self, st, s, n):
        """start, length, step of a slice of an axis of length n."""
        step = ONE if s.c is None else self.n(s.c)
        k = step.as_int()
        if k is None or k not in (1, -1, 2):
            raise Unsupported("slice step")
        facts = st.allfacts()

        def clampi(x, default):
            if x is None:
                return default
            x = self.n(x)
            c, cn = x.as_int(), n.as_int()
            if c is not None and cn is not None:
                if c < 0:
                    c += cn
                lo, hi = (0, cn) if k > 0 else (-1, cn - 1)
                return num(min(max(c, lo), hi))
            if c is not None and c < 0:
                r = n + x
                if entails(facts, ge(r, ZERO)):
                    return r
                return T.maxv(r, ZERO)
            if entails(facts, ge(x, ZERO)):
                r = x
            elif entails(facts, lt(x, ZERO)):
                r = T.maxv(x + n, ZERO)
            else:
                r = ite(lt(x, ZERO), T.maxv(x + n, ZERO), x)
            if entails(facts, le(r, n)):
                return r
            return T.minv(r, n)

        if k > 0:
            a, b = clampi(s.a, ZERO), clampi(s.b, n)
            ln = b - a
            if k == 2:
                ln = T.ceil(ln / num(2))
        else:
            a = clampi(s.a, n - ONE)
            b = clampi(s.b, num(-1)) if s.b is not None else num(-1)
            ln = a - b
        c = ln.as_int()
        if c is not None:
            ln = num(max(c, 0))
        elif not entails(facts, ge(ln, ZERO)):
            ln = T.maxv(ln, ZERO)
        return a, ln, k

    def arr_sub(self, st, ref, i, check=False):
        """ref[i] along the first axis (no wrap)."""
        return self.arr_view(st, ref, [("pt", i)])

    def arr_view(self, st, ref, sel):
        """sel: per result-axis of ref ('pt',P) | ('sl',start,len,step) | ('new',)"""
        rmap = {}
        shape = []
        pts = {}
        j = 0
        for s in sel:
            if s[0] == "new":
                shape.append(ONE)
                continue
            if s[0] == "pt":
                pts[j] = s[1]
            else:
                rmap[j] = (len(shape), s[1], s[3])
                shape.append(s[2])
            j += 1
        while j < len(ref.shape):
            rmap[j] = (len(shape), ZERO, 1)
            shape.append(ref.shape[j])
            j += 1
        axes = []
        for a in ref.axes:
            if a[0] == "pt":
                axes.append(a)
            else:
                _, r, start, step = a
                if r in pts:
                    axes.append(("pt", start + pts[r] * num(step)))
                else:
                    nr, s0, st0 = rmap[r]
                    axes.append(("ax", nr, start + s0 * num(step), step * st0))
        if not shape:
            idx = tuple(a[1] for a in axes)
            return self.I.buf_get(st, ref.buf, ref.owner, idx)
        return ArrRef(ref.buf, ref.owner, axes, shape)

    def parse_index(self, st, shape, i):
        items = i if isinstance(i, tuple) else (i,)
        nreal = sum(1 for x in items if x is not None and x is not Ellipsis)
        out = []
        ax = 0
        for x in items:
            if x is Ellipsis:
                k = len(shape) - nreal
                for _ in range(k):
                    out.append(("sl", ZERO, shape[ax], 1))
                    ax += 1
            elif x is None:
                out.append(("new",))
            elif isinstance(x, SliceVal):
                if ax >= len(shape):
                    raise Raised(ExcVal("IndexError", ("too many indices",)))
                a, ln, k = self.slice_range(st, x, shape[ax])
                out.append(("sl", a, ln, k))
                ax += 1
            elif isinstance(x, (P, B)):
                if ax >= len(shape):
                    raise Raised(ExcVal("IndexError", ("too many indices",)))
                if not self.n(x).is_int:
                    raise Raised(ExcVal("IndexError", ("non-integer index",)))
                out.append(("pt", self.norm_index(st, self.n(x), shape[ax])))
                ax += 1
            elif isinstance(x, (ArrRef, ListRef)):
                out.append(("fancy", x))
                ax += 1
            elif isinstance(x, Opaque):
                raise OpaqueUse(x)
            else:
                raise Unsupported("index %r" % (x,))
        return out

    def getitem(self, st, o, i):
        I = self.I
        if isinstance(o, LibObj) and o.kind == "indices":
            c = self.first_true(st, o.kw["n"], o.kw["mask"])
            if c is None or not (isinstance(i, P) and i.as_int() == 0):
                raise Unsupported("positions of a condition")
            none = le(o.kw["n"], c)
            d = I.decide(st, none)
            if d is True:
                raise Raised(ExcVal("IndexError", ()))
            if d is None:
                I.record_raise(st, none, ExcVal("IndexError", ()))
                st.branch(not_(none))
            return c
        if isinstance(i, Choice):
            return I.lift(st, lambda s, ii: self.getitem(s, o, ii), i)
        if isinstance(o, PyDict):
            if isinstance(i, (str, P)):
                if i not in o.items:
                    raise Raised(ExcVal("KeyError", (i,)))
                return o.items[i]
            if isinstance(i, SStr):
                val = None
                known = T.or_(*[self.equal(st, i, k) for k in o.items])
                if I.decide(st, known) is False:
                    raise Raised(ExcVal("KeyError", (i,)))
                if I.decide(st, known) is None:
                    I.record_raise(st, not_(known), ExcVal("KeyError", (i,)))
                    st.branch(known)
                for k, v in o.items.items():
                    val = v if val is None else mk_choice(self.equal(st, i, k), v, val)
                return val
            raise Unsupported("dict index")
        if isinstance(o, ArrRef):
            sel = self.parse_index(st, o.shape, i)
            if any(s[0] == "fancy" for s in sel):
                return self.fancy(st, o, sel)
            return self.arr_view(st, o, sel)
        if isinstance(o, ListRef):
            n = I.shape_of(st, o)[0]
            if isinstance(i, SliceVal):
                a, ln, k = self.slice_range(st, i, n)
                return I.alloc(
                    st, (ln,), lambda idx: I.buf_get(st, o.buf, o.owner, (a + idx[0] * num(k),)), o.buf.dtype, kind="list"
                )
            if not isinstance(i, (P, B)):
                raise Raised(ExcVal("TypeError", ("list index",)))
            return I.buf_get(st, o.buf, o.owner, (self.norm_index(st, self.n(i), n),))
        if isinstance(o, tuple):
            if isinstance(i, SliceVal):
                def cv(x):
                    return None if x is None else x.as_int()
                return o[slice(cv(i.a), cv(i.b), cv(i.c))]
            return self.tuple_get(o, self.norm_index(st, self.n(i), num(len(o))))
        if isinstance(o, str):
            if isinstance(i, P) and i.as_int() is not None:
                return o[i.as_int()]
            if isinstance(i, SliceVal):
                def cv(x):
                    return None if x is None else x.as_int()
                return o[slice(cv(i.a), cv(i.b), cv(i.c))]
        if isinstance(o, RangeVal):
            return o.a + self.n(i) * o.c
        if isinstance(o, Opaque):
            raise OpaqueUse(o)
        if o is None or isinstance(o, (P, B)):
            raise Raised(ExcVal("TypeError", ("not subscriptable",)))
        if isinstance(o, LibObj) and "getitem" in o.kw:
            return o.kw["getitem"](st, i)
        raise Unsupported("getitem %r" % (o,))

    def fancy(self, st, o, sel):
        if len(sel) == 1:
            ix = sel[0][1]
            nd = self.nd(st, ix)
            if nd.dtype == "bool":
                raise Unsupported("boolean mask")
            src = self.nd(st, o)
            return self.mk(
                st,
                ND(nd.shape + src.shape[1:], lambda idx: src.get((self.n(nd.get(idx[: len(nd.shape)])),) + tuple(idx[len(nd.shape):])), src.dtype),
            )
        raise Unsupported("fancy index")

    def setitem(self, st, o, i, v):
        I = self.I
        if isinstance(i, Choice):
            return I.lift(st, lambda s, ii: self.setitem(s, o, ii, v), i)
        if isinstance(o, PyDict):
            if isinstance(i, (str, P)):
                o.items[i] = v
                return
            raise Unsupported("dict store")
        if isinstance(o, ListRef):
            n = I.shape_of(st, o)[0]
            if isinstance(i, SliceVal):
                raise Unsupported("list slice store")
            k = self.norm_index(st, self.n(i), n)
            ref = ArrRef(o.buf, o.owner, (("pt", k),), ())
            I.arr_store(st, ref, lambda idx: v)
            return
        if isinstance(o, ArrRef):
            sel = self.parse_index(st, o.shape, i)
            if any(s[0] == "fancy" for s in sel):
                raise Unsupported("fancy store")
            # build a view without reading
            view = self.view_only(o, sel)
            if not view.shape:
                if o.buf.dtype != "obj":
                    nd = self.nd(st, v)
                    if any(s is not ONE for s in nd.shape):
                        if not all(entails(st.allfacts(), eq(s, ONE)) for s in nd.shape):
                            raise Raised(ExcVal("ValueError", ("setting an element with a sequence",)))
                    v2 = nd.get(tuple(ZERO for _ in nd.shape))
                    v2 = self.coerce(st, v2, o.buf.dtype)
                else:
                    v2 = v
                I.arr_store(st, view, lambda idx: v2)
                return
            nd = self.nd(st, v)
            if len(nd.shape) > len(view.shape):
                extra = nd.shape[: len(nd.shape) - len(view.shape)]
                if not all(s is ONE for s in extra):
                    raise Raised(ExcVal("ValueError", ("broadcast",)))
            g = self.broadcast_getter(st, nd, view.shape)
            # evaluate source before store (aliasing): tabulation happens inside store
            I.arr_store(st, view, lambda idx: self.coerce(st, g(idx), o.buf.dtype))
            return
        if isinstance(o, tuple) or isinstance(o, str):
            raise Raised(ExcVal("TypeError", ("item assignment",)))
        if isinstance(o, Opaque):
            raise OpaqueUse(o)
        raise Unsupported("setitem %r" % (o,))

    def coerce(self, st, v, dtype):
        if dtype == "real":
            if isinstance(v, (P,)):
                return v
            if isinstance(v, (B, bool)):
                return to_p(v)
            if isinstance(v, Opaque) or v is UNDEF:
                return v
            if isinstance(v, (Choice, OldVal)):
                return v
            if isinstance(v, ArrRef) and not v.shape:
                return self.I.arr_get(st, v, ())
            raise Raised(ExcVal("TypeError", ("float element %r" % (type(v).__name__,),)))
        if dtype == "int" and isinstance(v, P) and not v.is_int:
            return self.trunc(v)
        if dtype == "bool" and isinstance(v, P):
            return ne(v, ZERO)
        return v

    def trunc(self, p):
        c = p.const()
        if c is not None:
            return num(int(c))
        if p.is_int:
            return p
        return ite(ge(p, ZERO), T.floor(p), T.ceil(p))

    def view_only(self, ref, sel):
        rmap, shape, pts = {}, [], {}
        j = 0
        for s in sel:
            if s[0] == "new":
                shape.append(ONE)
                continue
            if s[0] == "pt":
                pts[j] = s[1]
            else:
                rmap[j] = (len(shape), s[1], s[3])
                shape.append(s[2])
            j += 1
        while j < len(ref.shape):
            rmap[j] = (len(shape), ZERO, 1)
            shape.append(ref.shape[j])
            j += 1
        axes = []
        for a in ref.axes:
            if a[0] == "pt":
                axes.append(a)
            else:
                _, r, start, step = a
                if r in pts:
                    axes.append(("pt", start + pts[r] * num(step)))
                else:
                    nr, s0, st0 = rmap[r]
                    axes.append(("ax", nr, start + s0 * num(step), step * st0))
        return ArrRef(ref.buf, ref.owner, axes, shape)

    # ------------------------------------------------------------ attributes of values
    def obj_attr(self, st, o, attr):
        return None

    def value_attr(self, st, o, attr):
        I = self.I
        if isinstance(o, ArrRef):
            if attr == "shape":
                return tuple(o.shape)
            if attr == "ndim":
                return num(len(o.shape))
            if attr == "size":
                n = ONE
                for s in o.shape:
                    n = n * s
                return n
            if attr == "T":
                return self.np_transpose(st, o)
            if attr == "dtype":
                return {"obj": self.builtins["object"], "real": self.builtins["float"], "int": self.builtins["int"], "bool": self.builtins["bool"]}[o.buf.dtype]
            if attr == "flat":
                return self.np_ravel(st, o)
            m = {
                "ravel": self.np_ravel, "flatten": self.np_ravel, "copy": self.np_copy, "sum": self.np_sum,
                "mean": self.np_mean, "dot": self.np_dot, "reshape": self.m_reshape, "transpose": self.np_transpose,
                "max": self.np_max, "min": self.np_min, "any": self.np_any, "all": self.np_all, "tolist": self.m_tolist,
                "item": self.m_item, "squeeze": self.np_squeeze, "astype": self.m_astype, "fill": self.m_fill, "round": self.np_round,
                "cumsum": self.np_cumsum, "std": self.np_std,
            }.get(attr)
            if m is not None:
                return BoundMethod(Builtin("ndarray." + attr, m), o)
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, ListRef):
            m = {
                "append": self.list_append, "extend": self.list_extend, "copy": self.bi_list, "index": self.m_index,
                "pop": self.m_pop, "insert": self.m_insert, "sort": self.m_unsup, "reverse": self.m_unsup, "count": self.m_unsup, "clear": self.m_clear,
            }.get(attr)
            if m is not None:
                return BoundMethod(Builtin("list." + attr, m), o)
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, PyDict):
            if attr == "items":
                return Builtin("items", lambda st: tuple((k, v) for k, v in o.items.items()))
            if attr == "keys":
                return Builtin("keys", lambda st: tuple(o.items.keys()))
            if attr == "values":
                return Builtin("values", lambda st: tuple(o.items.values()))
            if attr == "get":
                return Builtin("get", lambda st, k, d=None: o.items.get(k, d))
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, (str, SStr, StrCat)):
            if isinstance(o, str):
                if attr in ("lower", "upper", "strip", "title", "split", "startswith", "endswith", "replace"):
                    def f(st, *a):
                        r = getattr(o, attr)(*a)
                        if isinstance(r, bool):
                            return TRUE if r else FALSE
                        if isinstance(r, list):
                            return self.mk_list(st, r)
                        return r
                    return Builtin("str." + attr, f)
            if attr in ("lower", "strip"):
                return Builtin("str." + attr, lambda st, *a: SStr(T.app("str_" + attr, o.p, sort="int")) if isinstance(o, SStr) else StrCat((attr,) + o.parts))
            if attr == "ljust" or attr == "rjust":
                return Builtin("just", lambda st, *a: StrCat((o,)))
            if attr in ("format", "join"):
                return Builtin("str." + attr, lambda st, *a, **k: StrCat((attr, o) + a))
            raise Unsupported("str.%s" % attr)
        if isinstance(o, P):
            if attr in ("item",):
                return Builtin("item", lambda st: o)
            if attr == "shape":
                return ()
            if attr in ("real",):
                return o
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, B):
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, LibObj):
            if attr in o.kw:
                return o.kw[attr]
            if o.kind.startswith(("logging", "tqdm")):
                return Builtin(o.kind + "." + attr, self.quiet(o.kind + "." + attr))
            raise Unsupported("%s.%s" % (o.kind, attr))
        if isinstance(o, FuncVal):
            if attr == "__name__":
                return o.name
        if o is UNDEF:
            raise Unsupported("attribute of undefined value")
        if isinstance(o, tuple):
            if attr == "index":
                return BoundMethod(Builtin("tuple.index", self.m_index), o)
        if isinstance(o, SymFun) or isinstance(o, Builtin):
            if attr == "__name__":
                return o.name
        raise Unsupported("attribute %s of %r" % (attr, o))

    def m_unsup(self, st, *a, **k):
        raise Unsupported("list method")

    def m_clear(self, st, l):
        st.bufs[l.buf.id] = BufC((ZERO,), (None,), {})

    def m_index(self, st, l, x):
        n, g = self.iterate(st, l)
        k = n.as_int()
        if k is None:
            raise Unsupported("index in symbolic list")
        val = None
        found = FALSE
        for i in reversed(range(k)):
            c = self.equal(st, x, g(st, num(i)))
            val = num(i) if val is None else ite(c, num(i), val)
            found = or_(found, c)
        if found is FALSE:
            raise Raised(ExcVal("ValueError", ("not in list",)))
        self.I.record_raise(st, not_(found), ExcVal("ValueError", ("not in list",)))
        st.assume(found)
        return val

    def m_pop(self, st, l, i=None):
        c = st.bufs[l.buf.id]
        k = c.shape[0].as_int()
        if k is None or c.ivars[0] is not None:
            raise Unsupported("pop")
        j = k - 1 if i is None else i.as_int() % k
        t = {}
        for a in range(k - 1):
            t[(a,)] = c.table[(a if a < j else a + 1,)]
        v = c.table[(j,)]
        st.bufs[l.buf.id] = BufC((num(k - 1),), (None,), t)
        return v

    def m_insert(self, st, l, i, v):
        c = st.bufs[l.buf.id]
        k = c.shape[0].as_int()
        j = i.as_int()
        if k is None or c.ivars[0] is not None or j is None:
            raise Unsupported("insert")
        t = {}
        for a in range(k + 1):
            t[(a,)] = v if a == j else c.table[(a if a < j else a - 1,)]
        st.bufs[l.buf.id] = BufC((num(k + 1),), (None,), t)

    def m_tolist(self, st, a):
        nd = self.nd(st, a)
        if len(nd.shape) == 1:
            return self.I.alloc(st, nd.shape, nd.get, nd.dtype, kind="list")
        raise Unsupported("tolist")

    def m_item(self, st, a):
        return self.I.arr_get(st, a, tuple(ZERO for _ in a.shape))

    def m_fill(self, st, a, v):
        self.I.arr_store(st, a, lambda idx: v)

    def m_astype(self, st, a, dt, *r, **k):
        d = self.dtype_of(dt)
        return self.elementwise(st, lambda x: self.coerce(st, x, d), a, dtype=d)

    def m_reshape(self, st, a, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, ListRef)):
            shape = shape[0]
        return self.np_reshape(st, a, tuple(shape))

    # ------------------------------------------------------------ builtins
    def bi_len(self, st, x):
        def f(s, v):
            if isinstance(v, ArrRef):
                return v.shape[0]
            if isinstance(v, ListRef):
                return self.I.shape_of(s, v)[0]
            if isinstance(v, (tuple, str)):
                return num(len(v))
            if isinstance(v, PyDict):
                return num(len(v.items))
            if v is None or isinstance(v, (P, B)):
                raise Raised(ExcVal("TypeError", ("len",)))
            if isinstance(v, Opaque):
                raise OpaqueUse(v)
            return self.iterate(s, v)[0]

        return self.I.lift(st, f, x)

    def bi_range(self, st, *a):
        a = [self.n(x) for x in a]
        if len(a) == 1:
            return RangeVal(ZERO, a[0], ONE)
        if len(a) == 2:
            return RangeVal(a[0], a[1], ONE)
        return RangeVal(*a)

    def bi_enumerate(self, st, x, start=ZERO):
        def f(s, xx):
            n, g = self.iterate(s, xx)
            return IterVal(n, lambda s2, k: (k + start, g(s2, k)))

        return self.I.lift(st, f, x)

    def bi_zip(self, st, *xs):
        its = [self.iterate(st, x) for x in xs]
        n = its[0][0]
        for m, _ in its[1:]:
            if m is not n:
                if entails(st.allfacts(), eq(m, n)):
                    continue
                n = T.minv(n, m)
        return IterVal(n, lambda s, k: tuple(g(s, k) for _, g in its))

    def bi_reversed(self, st, x):
        n, g = self.iterate(st, x)
        return IterVal(n, lambda s, k: g(s, n - ONE - k))

    def bi_map(self, st, f, x):
        n, g = self.iterate(st, x)
        return IterVal(n, lambda s, k: self.I.call(s, f, [g(s, k)], {}))

    def bi_print(self, st, *a, **k):
        self.I.events.append(("print", st.pc, a, k, tuple(self.I.binders)))
        h = self.I.summaries.get("lib:print")
        if h:
            h(self.I, st, a, k)
        return None

    def bi_abs(self, st, x):
        return self.np_abs(st, x)

    def bi_float(self, st, x=ZERO):
        if isinstance(x, str):
            try:
                return num(float(x))
            except ValueError:
                raise Raised(ExcVal("ValueError", ()))
        if isinstance(x, ArrRef):
            return self.m_item(st, x)
        if isinstance(x, Opaque) and x.key == "nan":
            return x
        return self.n(x)

    def bi_int(self, st, x=ZERO):
        if isinstance(x, ArrRef):
            x = self.m_item(st, x)
        return self.trunc(self.n(x))

    def bi_bool(self, st, x=FALSE):
        return self.I.truth(st, x)

    def bi_str(self, st, x=""):
        r = self.to_str(st, x)
        return r if isinstance(r, (str, SStr, StrCat)) else StrCat((r,))

    def bi_list(self, st, x=()):
        r = self.mk_list(st, [])
        n, g = self.iterate(st, x)
        k = n.as_int()
        if k is not None and k <= V.CONC:
            return self.mk_list(st, [g(st, num(i)) for i in range(k)])
        return self.I.alloc(st, (n,), lambda idx: g(st, idx[0]), "obj", kind="list")

    def bi_tuple(self, st, x=()):
        n, g = self.iterate(st, x)
        k = n.as_int()
        if k is None:
            raise Unsupported("tuple of symbolic length")
        return tuple(g(st, num(i)) for i in range(k))

    def bi_dict(self, st, **kw):
        return PyDict(kw)

    def bi_type(self, st, x):
        if isinstance(x, Ref):
            return x.fam.cls
        if isinstance(x, (str, SStr, StrCat)):
            return self.builtins["str"]
        if isinstance(x, P):
            return self.builtins["int"] if x.is_int else self.builtins["float"]
        if isinstance(x, Choice):
            return self.I.lift(st, lambda s, v: self.bi_type(s, v), x)
        if x is None:
            return Builtin("NoneType", lambda st: None)
        raise Unsupported("type()")

    def bi_isinstance(self, st, x, c):
        def f(s, v):
            if isinstance(c, tuple):
                r = FALSE
                for k in c:
                    r = or_(r, self.bi_isinstance(s, v, k))
                return r
            if isinstance(v, Ref):
                if isinstance(c, ClassVal):
                    return TRUE if self.subclass(v.fam.cls, c) else FALSE
                return FALSE
            if isinstance(c, Builtin):
                nm = c.name
                if nm in ("float", "np.floating"):
                    return TRUE if isinstance(v, P) else FALSE
                if nm in ("int", "np.integer"):
                    return TRUE if isinstance(v, P) and v.is_int else (TRUE if isinstance(v, B) else FALSE)
                if nm == "bool":
                    return TRUE if isinstance(v, (B, bool)) else FALSE
                if nm == "str":
                    return TRUE if isinstance(v, (str, SStr, StrCat)) else FALSE
                if nm == "list":
                    return TRUE if isinstance(v, ListRef) else FALSE
                if nm == "tuple":
                    return TRUE if isinstance(v, tuple) else FALSE
                if nm == "np.ndarray":
                    return TRUE if isinstance(v, ArrRef) else FALSE
                if nm == "dict":
                    return TRUE if isinstance(v, PyDict) else FALSE
            if isinstance(c, ClassVal):
                return FALSE
            raise Unsupported("isinstance %r" % (c,))

        return self.I.lift(st, f, x)

    def subclass(self, a, b):
        if a is b:
            return True
        if isinstance(a, ClassVal):
            for nm in a.bases:
                bv = a.mod.attrs.get(nm)
                if isinstance(bv, ClassVal) and self.subclass(bv, b):
                    return True
        return False

    def bi_getattr(self, st, o, name, *d):
        if d:
            try:
                return self.I.get_attr(st, o, name)
            except Raised as e:
                if e.exc.cls == "AttributeError":
                    return d[0]
                raise
        return self.I.lift(st, lambda s, oo: self.I.get_attr(s, oo, name), o)

    def bi_setattr(self, st, o, name, v):
        self.I.lift(st, lambda s, oo: self.I.set_attr(s, oo, name, v), o)

    def bi_hasattr(self, st, o, name):
        try:
            self.I.get_attr(st, o, name)
            return TRUE
        except Raised:
            return FALSE

    def bi_callable(self, st, o):
        return TRUE if isinstance(o, (FuncVal, BoundMethod, Builtin, ClassVal, SymFun)) else FALSE

    def bi_sum(self, st, x, start=ZERO):
        n, g = self.iterate(st, x)
        k = n.as_int()
        if k is not None:
            r = start
            for i in range(k):
                r = self.binop(st, ast.Add, r, g(st, num(i)))
            return r
        v = fresh("s", "int", ZERO, n)
        return T.sum_(n, v, self.n(g(st, v))) + start

    def _fold(self, st, xs, kw, f):
        if len(xs) == 1:
            n, g = self.iterate(st, xs[0])
            k = n.as_int()
            if (k is None or k > 64) and not kw and f in (T.maxv, T.minv):
                if self.I.decide(st, gt(n, ZERO)) is not True:
                    raise Unsupported("max/min of a list that may be empty")
                v = fresh("m", "int", ZERO, n)
                b = self.n(g(st, v))
                return T.rmax(n, v, b) if f is T.maxv else -T.rmax(n, v, -b)
            if k is None or k > 64:
                raise Unsupported("max/min of symbolic length")
            xs = [g(st, num(i)) for i in range(k)]
            if not xs:
                if "default" in kw:
                    return kw["default"]
                raise Raised(ExcVal("ValueError", ("empty",)))
        if "key" in kw:
            raise Unsupported("max key")
        r = self.n(xs[0])
        for x in xs[1:]:
            r = f(r, self.n(x))
        return r

    def bi_max(self, st, *xs, **kw):
        return self._fold(st, xs, kw, T.maxv)

    def bi_min(self, st, *xs, **kw):
        return self._fold(st, xs, kw, T.minv)

    def bi_round(self, st, x, nd=None):
        return self.np_round(st, x, nd if nd is not None else ZERO)

    def bi_any(self, st, x):
        return self.np_any(st, x)

    def bi_all(self, st, x):
        return self.np_all(st, x)

    def bi_sorted(self, st, x, **k):
        raise Unsupported("sorted")

    def bi_id(self, st, x):
        raise Unsupported("id")

    def bi_iter(self, st, x):
        raise Unsupported("iter")

    def bi_staticmethod(self, st, f):
        return f

    # ------------------------------------------------------------ numpy creation
    def dtype_of(self, d):
        if d is None:
            return "real"
        if isinstance(d, Builtin):
            return {"object": "obj", "float": "real", "int": "int", "bool": "bool", "str": "obj"}.get(d.name, "real")
        if isinstance(d, str):
            return {"O": "obj", "object": "obj", "float": "real", "int": "int", "bool": "bool"}.get(d, "real")
        return "real"

    def shape_arg(self, st, s):
        if isinstance(s, P):
            return (s,)
        if isinstance(s, tuple):
            return tuple(self.n(x) for x in s)
        n, g = self.iterate(st, s)
        return tuple(self.n(g(st, num(i))) for i in range(n.as_int()))

    def np_zeros(self, st, shape, dtype=None, order=None):
        d = self.dtype_of(dtype)
        z = FALSE if d == "bool" else ZERO
        return self.I.alloc(st, self.shape_arg(st, shape), lambda idx: z, d)

    def np_ones(self, st, shape, dtype=None):
        return self.I.alloc(st, self.shape_arg(st, shape), lambda idx: ONE, self.dtype_of(dtype))

    def np_full(self, st, shape, v, dtype=None):
        return self.I.alloc(st, self.shape_arg(st, shape), lambda idx: v, "real")

    def np_empty(self, st, shape, dtype=None):
        d = self.dtype_of(dtype)
        return self.I.alloc(st, self.shape_arg(st, shape), lambda idx: None if d == "obj" else UNDEF, d)

    def np_zeros_like(self, st, a, dtype=None):
        nd = self.nd(st, a)
        return self.mk(st, ND(nd.shape, lambda idx: ZERO, nd.dtype if dtype is None else self.dtype_of(dtype)))

    def np_ones_like(self, st, a, dtype=None):
        nd = self.nd(st, a)
        return self.mk(st, ND(nd.shape, lambda idx: ONE, nd.dtype))

    def np_empty_like(self, st, a, dtype=None):
        nd = self.nd(st, a)
        return self.mk(st, ND(nd.shape, lambda idx: UNDEF, nd.dtype))

    def np_eye(self, st, n, m=None, dtype=None):
        return self.I.alloc(st, (n, n if m is None else m), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO), "real")

    def np_identity(self, st, n):
        return self.np_eye(st, n)

    def np_array(self, st, x, dtype=None, copy=None):
        def f(s, xx):
            nd = self.nd(s, xx)
            d = nd.dtype if dtype is None else self.dtype_of(dtype)
            if nd.dtype == "obj" and dtype is None:
                # numeric content
                d = self.guess_dtype(nd)
            if not nd.shape:
                return ArrRef(*self._scalar_arr(s, nd.get(()), d))
            return self.mk(s, ND(nd.shape, lambda idx: self.coerce(s, nd.get(idx), d) if d != "obj" else nd.get(idx), d))

        return self.I.lift(st, f, x)

    def _scalar_arr(self, st, v, d):
        r = self.I.alloc(st, (ONE,), lambda idx: v, d)
        return r.buf, r.owner, (("pt", ZERO),), ()

    def guess_dtype(self, nd):
        try:
            v = nd.get(tuple(ZERO if s.as_int() else fresh("z", "int", ZERO, s) for s in nd.shape))
        except Exception:
            return "obj"
        if isinstance(v, P):
            return "real"
        if isinstance(v, B):
            return "bool"
        return "obj"

    def np_asarray(self, st, x, dtype=None):
        if isinstance(x, ArrRef):
            return x
        return self.np_array(st, x, dtype)

    np_ascontiguousarray = np_asarray

    def np_copy(self, st, x):
        nd = self.nd(st, x)
        return self.mk(st, nd)

    def copy_copy(self, st, x):
        if isinstance(x, ListRef):
            return self.bi_list(st, x)
        if isinstance(x, ArrRef):
            return self.np_copy(st, x)
        if isinstance(x, Ref):
            I = self.I
            o = I.new_obj(st, x.fam.cls)
            for fam, attr in list(st.fields):
                if fam == x.fam.id or fam is x.fam:
                    I.set_field(st, o, attr, I.get_field(st, x, attr))
            return o
        return x

    def copy_deepcopy(self, st, x):
        if isinstance(x, (ArrRef,)) and x.buf.dtype != "obj":
            return self.np_copy(st, x)
        raise Unsupported("deepcopy")

    def np_linspace(self, st, a, b, n=num(50), num_=None, endpoint=TRUE, **kw):
        if "num" in kw:
            n = kw["num"]
        a, b, n = self.nd(st, a), self.nd(st, b), self.n(n)
        if a.shape or b.shape:
            shape = self.broadcast_shapes(st, [a.shape, b.shape])
            ga, gb = self.broadcast_getter(st, a, shape), self.broadcast_getter(st, b, shape)
        else:
            shape = ()
            ga, gb = a.get, b.get
        ep = endpoint is TRUE or endpoint is True

        def get(idx):
            x, y = self.n(ga(idx[1:])), self.n(gb(idx[1:]))
            k = n.as_int()
            if k == 1:
                return x
            d = (n - ONE) if ep else n
            return x + (y - x) * idx[0] / d

        return self.mk(st, ND((n,) + shape, get, "real"))

    def np_arange(self, st, *a, **kw):
        r = self.bi_range(st, *a)
        n, g = self.iterate(st, r)
        return self.I.alloc(st, (n,), lambda idx: g(st, idx[0]), "int" if all(x.is_int for x in a) else "real")

    # ------------------------------------------------------------ shape functions
    def seq(self, st, xs):
        n, g = self.iterate(st, xs)
        k = n.as_int()
        if k is None:
            raise Unsupported("stack of symbolic count")
        return [g(st, num(i)) for i in range(k)]

    def concat(self, st, nds, ax):
        r = len(nds[0].shape)
        if any(len(x.shape) != r for x in nds):
            raise Raised(ExcVal("ValueError", ("concatenate dims",)))
        shape = list(nds[0].shape)
        for x in nds[1:]:
            for j in range(r):
                if j != ax and x.shape[j] is not shape[j]:
                    self.same_dim(st, x.shape[j], shape[j], "concatenate")
        offs = []
        tot = ZERO
        for x in nds:
            offs.append(tot)
            tot = tot + x.shape[ax]
        shape[ax] = tot

        def get(idx):
            i = idx[ax]
            val = UNDEF
            ci = i.as_int()
            for x, o in reversed(list(zip(nds, offs))):
                if x.shape[ax] is ZERO:
                    continue
                rel = i - o
                if ci is not None and o.as_int() is not None and x.shape[ax].as_int() is not None:
                    if 0 <= rel.as_int() < x.shape[ax].as_int():
                        return x.get(tuple(idx[:ax]) + (rel,) + tuple(idx[ax + 1 :]))
                    continue
                cond = lt(i, o + x.shape[ax])
                if val is not UNDEF and decide(st.allfacts(), cond) is False:
                    continue
                if decide(st.allfacts(), lt(i, o)) is True:
                    continue
                st2 = st.copy()
                st2.branch(ge(rel, ZERO))
                st2.branch(cond)
                with with_facts(st2.allfacts()):
                    v = x.get(tuple(idx[:ax]) + (rel,) + tuple(idx[ax + 1 :]))
                val = v if val is UNDEF else mk_choice(cond, v, val)
            if val is UNDEF:
                raise Raised(ExcVal("IndexError", ("concat",)))
            return val

        return self.mk(st, ND(shape, get, self.join_dtype([x.dtype for x in nds])))

    def np_concatenate(self, st, xs, axis=ZERO, dtype=None):
        return self.concat(st, [self.nd(st, x) for x in self.seq(st, xs)], axis.as_int())

    def np_append(self, st, a, v, axis=None):
        x, y = self.nd(st, a), self.nd(st, v)
        if axis is None:
            x, y = self.nd(st, self.np_ravel(st, a)), self.nd(st, self.np_ravel(st, v))
            return self.concat(st, [x, y], 0)
        return self.concat(st, [x, y], axis.as_int())

    def atleast(self, nd, k):
        if len(nd.shape) >= k:
            return nd
        if k == 1:
            return ND((ONE,), lambda idx: nd.get(()), nd.dtype)
        n1 = self.atleast(nd, 1)
        return ND((ONE,) + n1.shape, lambda idx: n1.get(idx[1:]), nd.dtype)

    def np_vstack(self, st, xs, **kw):
        return self.I.lift(st, lambda s, v: self.concat(s, [self.atleast(self.nd(s, x), 2) for x in self.seq(s, v)], 0), xs)

    def np_hstack(self, st, xs, **kw):
        nds = [self.atleast(self.nd(st, x), 1) for x in self.seq(st, xs)]
        return self.concat(st, nds, 0 if len(nds[0].shape) == 1 else 1)

    def np_column_stack(self, st, xs):
        nds = []
        for x in self.seq(st, xs):
            n = self.nd(st, x)
            if len(n.shape) == 1:
                n = (lambda n: ND((n.shape[0], ONE), lambda idx: n.get((idx[0],)), n.dtype))(n)
            nds.append(n)
        return self.concat(st, nds, 1)

    def np_stack(self, st, xs, axis=ZERO):
        a = axis.as_int()
        nds = [self.nd(st, x) for x in self.seq(st, xs)]
        r = len(nds[0].shape) + 1
        a %= r
        ex = [
            (lambda n: ND(n.shape[:a] + (ONE,) + n.shape[a:], lambda idx: n.get(tuple(idx[:a]) + tuple(idx[a + 1 :])), n.dtype))(n)
            for n in nds
        ]
        return self.concat(st, ex, a)

    def np_expand_dims(self, st, x, axis):
        a = axis.as_int()
        if isinstance(x, ArrRef):
            r = len(x.shape) + 1
            a %= r
            sel = [("sl", ZERO, s, 1) for s in x.shape]
            sel.insert(a, ("new",))
            return self.view_only(x, sel)
        nd = self.nd(st, x)
        a %= len(nd.shape) + 1
        return self.mk(st, ND(nd.shape[:a] + (ONE,) + nd.shape[a:], lambda idx: nd.get(tuple(idx[:a]) + tuple(idx[a + 1 :])), nd.dtype))

    def np_squeeze(self, st, x, axis=None):
        nd = self.nd(st, x)
        if axis is not None:
            ks = [axis.as_int() % len(nd.shape)]
        else:
            ks = [j for j, s in enumerate(nd.shape) if s is ONE]
            for j, s in enumerate(nd.shape):
                if s.as_int() is None and not entails(st.allfacts(), ne(s, ONE)):
                    raise Unsupported("squeeze of symbolic shape")

        def get(idx):
            it = iter(idx)
            return nd.get(tuple(ZERO if j in ks else next(it) for j in range(len(nd.shape))))

        return self.mk(st, ND([s for j, s in enumerate(nd.shape) if j not in ks], get, nd.dtype))

    def np_transpose(self, st, x, axes=None):
        if not isinstance(x, ArrRef):
            nd = self.nd(st, x)
            x = self.mk(st, nd)
        r = len(x.shape)
        perm = list(reversed(range(r))) if axes is None else [self.n(a).as_int() % r for a in self.seq(st, axes)]
        invp = {p: j for j, p in enumerate(perm)}
        return ArrRef(
            x.buf, x.owner,
            tuple(a if a[0] == "pt" else ("ax", invp[a[1]], a[2], a[3]) for a in x.axes),
            tuple(x.shape[p] for p in perm),
        )

    def np_swapaxes(self, st, x, a, b):
        r = len(x.shape)
        p = list(range(r))
        a, b = a.as_int() % r, b.as_int() % r
        p[a], p[b] = p[b], p[a]
        return self.np_transpose(st, x, tuple(num(i) for i in p))

    def np_moveaxis(self, st, x, a, b):
        r = len(x.shape)
        p = list(range(r))
        v = p.pop(a.as_int() % r)
        p.insert(b.as_int() % r, v)
        return self.np_transpose(st, x, tuple(num(i) for i in p))

    def np_flip(self, st, x, axis=None):
        if not isinstance(x, ArrRef):
            x = self.np_array(st, x)
        r = len(x.shape)
        if axis is None:
            axs = list(range(r))
        else:
            axs = [axis.as_int() % r]
        sel = [
            ("sl", s - ONE, s, -1) if j in axs else ("sl", ZERO, s, 1) for j, s in enumerate(x.shape)
        ]
        return self.view_only(x, sel)

    def np_flipud(self, st, x):
        return self.np_flip(st, x, ZERO)

    def np_fliplr(self, st, x):
        return self.np_flip(st, x, ONE)

    def np_ravel(self, st, x, *a, **k):
        def f(s, xx):
            nd = self.nd(s, xx)
            return self.reshape_nd(s, nd, None)

        return self.I.lift(st, f, x)

    def flat_index(self, shape, idx):
        q = ZERO
        for s, i in zip(shape, idx):
            q = q * s + i
        return q

    def unflat(self, st, shape, q):
        out = []
        with with_facts(st.allfacts()):
            for s in reversed(shape[1:]):
                out.append(T.mod(q, s))
                q = T.floordiv(q, s)
        out.append(q)
        return tuple(reversed(out))

    def reshape_nd(self, st, nd, shape):
        n = ONE
        for s in nd.shape:
            n = n * s
        if shape is None:
            shape = (n,)
        src = nd.shape

        def get(idx):
            if len(src) == 1 and len(shape) == 1:
                return nd.get(idx)
            q = self.flat_index(shape, idx)
            return nd.get(self.unflat(st, src, q))

        return self.mk(st, ND(shape, get, nd.dtype))

    def np_reshape(self, st, x, shape, *a, **k):
        nd = self.nd(st, x)
        shape = list(self.shape_arg(st, shape))
        n = ONE
        for s in nd.shape:
            n = n * s
        if any(s.as_int() == -1 for s in shape):
            rest = ONE
            for s in shape:
                if s.as_int() != -1:
                    rest = rest * s
            shape = [T.floordiv(n, rest) if s.as_int() == -1 else s for s in shape]
        else:
            m = ONE
            for s in shape:
                m = m * s
            self.same_dim(st, m, n, "reshape")
        return self.reshape_nd(st, nd, tuple(shape))

    def np_atleast_2d(self, st, x):
        return self.mk(st, self.atleast(self.nd(st, x), 2))

    def np_tile(self, st, x, reps):
        nd = self.nd(st, x)
        reps = list(self.shape_arg(st, reps))
        while len(reps) < len(nd.shape):
            reps.insert(0, ONE)
        nd = self.pad_rank(nd, len(reps))
        shape = [s * r for s, r in zip(nd.shape, reps)]
        return self.mk(st, ND(shape, lambda idx: nd.get(tuple(ZERO if s is ONE else T.mod(i, s) for i, s in zip(idx, nd.shape))), nd.dtype))

    def pad_rank(self, nd, r):
        while len(nd.shape) < r:
            nd = (lambda n: ND((ONE,) + n.shape, lambda idx: n.get(idx[1:]), n.dtype))(nd)
        return nd

    def np_repeat(self, st, x, reps, axis=None):
        nd = self.nd(st, x)
        if not nd.shape:
            nd = self.atleast(nd, 1)
        if axis is None and len(nd.shape) > 1:
            nd = self.nd(st, self.np_ravel(st, x))
        a = 0 if axis is None else axis.as_int()
        shape = list(nd.shape)
        shape[a] = shape[a] * reps

        def get(idx):
            idx = list(idx)
            idx[a] = ZERO if nd.shape[a] is ONE else T.floordiv(idx[a], reps)
            return nd.get(tuple(idx))

        return self.mk(st, ND(shape, get, nd.dtype))

    def np_broadcast_to(self, st, x, shape):
        nd = self.nd(st, x)
        shape = self.shape_arg(st, shape)
        return self.mk(st, ND(shape, self.broadcast_getter(st, nd, shape), nd.dtype))

    # ------------------------------------------------------------ reductions
    def red(self, st, n, f):
        k = n.as_int()
        if k is not None and k <= 400:
            r = ZERO
            for i in range(k):
                r = r + f(num(i))
            return r
        v = fresh("s", "int", ZERO, n)
        st2facts = st.allfacts() + (ge(v, ZERO), lt(v, n))
        with with_facts(st2facts):
            return T.sum_(n, v, f(v))

    def reduce(self, st, x, axis, f_all, keepdims=False):
        """f_all(n, g) with g(i) -> element"""
        nd = self.nd(st, x)
        if axis is None:
            nd1 = self.nd(st, self.reshape_nd(st, nd, None)) if len(nd.shape) > 1 else self.atleast(nd, 1)
            if len(nd.shape) > 1:
                # nested reduction keeps indices affine
                return self.reduce_nested(st, nd, f_all)
            return f_all(nd1.shape[0], lambda i: nd1.get((i,)))
        if isinstance(axis, tuple):
            if len(axis) == 1:
                axis = axis[0]
            else:
                raise Unsupported("multi-axis reduction")
        a = self.n(axis).as_int() % len(nd.shape)
        shape = nd.shape[:a] + nd.shape[a + 1 :]

        def get(idx):
            return f_all(nd.shape[a], lambda i: nd.get(tuple(idx[:a]) + (i,) + tuple(idx[a:])))

        r = self.mk(st, ND(shape, get, "real"))
        if keepdims and keepdims is not FALSE:
            return self.np_expand_dims(st, r, num(a))
        return r

    def reduce_nested(self, st, nd, f_all):
        def rec(prefix, ax):
            if ax == len(nd.shape):
                return nd.get(prefix)
            return f_all(nd.shape[ax], lambda i: rec(prefix + (i,), ax + 1))

        return rec((), 0)

    def np_sum(self, st, x, axis=None, keepdims=False):
        return self.reduce(st, x, axis, lambda n, g: self.red(st, n, lambda i: self.n(g(i))), keepdims)

    def np_prod(self, st, x, axis=None):
        def f(n, g):
            k = n.as_int()
            if k is None:
                raise Unsupported("product of symbolic length")
            r = ONE
            for i in range(k):
                r = r * self.n(g(num(i)))
            return r

        return self.reduce(st, x, axis, f)

    def np_mean(self, st, x, axis=None, keepdims=False):
        nd = self.nd(st, x)
        if axis is None:
            tot = self.np_sum(st, x)
            n = ONE
            for s in nd.shape:
                n = n * s
            return tot / n
        a = self.n(axis).as_int() % len(nd.shape)
        return self.binop(st, ast.Div, self.np_sum(st, x, axis, keepdims), nd.shape[a])

    def np_std(self, st, x, axis=None):
        nd = self.nd(st, x)
        n = ONE
        for s in nd.shape:
            n = n * s
        mu = self.np_mean(st, x)
        d = self.elementwise(st, lambda a: (self.n(a) - mu) * (self.n(a) - mu), x)
        return T.sqrt(self.np_sum(st, d) / n)

    def np_any(self, st, x, axis=None):
        def f(n, g):
            k = n.as_int()
            if k is not None:
                r = FALSE
                for i in range(k):
                    r = or_(r, self.I.truth(st, g(num(i))))
                return r
            v = fresh("q", "int", ZERO, n)
            return not_(T.forall(n, T.only_atom(v), not_(self.I.truth(st, g(v)))))

        if isinstance(x, IterVal) or (isinstance(x, ListRef)):
            n, g = self.iterate(st, x)
            return f(n, lambda i: g(st, i))
        return self.reduce(st, x, axis, f)

    def np_all(self, st, x, axis=None):
        def f(n, g):
            k = n.as_int()
            if k is not None:
                r = TRUE
                for i in range(k):
                    r = and_(r, self.I.truth(st, g(num(i))))
                return r
            v = fresh("q", "int", ZERO, n)
            return T.forall(n, T.only_atom(v), self.I.truth(st, g(v)))

        if isinstance(x, IterVal) or (isinstance(x, ListRef)):
            n, g = self.iterate(st, x)
            return f(n, lambda i: g(st, i))
        return self.reduce(st, x, axis, f)

    def _ext(self, st, x, axis, pick):
        def f(n, g):
            k = n.as_int()
            if k is None or k > 200:
                raise Unsupported("max/min of symbolic length")
            r = self.n(g(ZERO))
            for i in range(1, k):
                r = pick(r, self.n(g(num(i))))
            return r

        if isinstance(x, (P, B)):
            return x
        return self.reduce(st, x, axis, f)

    def np_max(self, st, x, axis=None):
        return self._ext(st, x, axis, T.maxv)

    def np_min(self, st, x, axis=None):
        return self._ext(st, x, axis, T.minv)

    np_amax, np_amin = np_max, np_min

    def np_maximum(self, st, a, b):
        return self.elementwise(st, lambda x, y: T.maxv(self.n(x), self.n(y)), a, b)

    def np_minimum(self, st, a, b):
        return self.elementwise(st, lambda x, y: T.minv(self.n(x), self.n(y)), a, b)

    def np_clip(self, st, a, lo, hi):
        return self.elementwise(st, lambda x, l, h: T.minv(T.maxv(self.n(x), self.n(l)), self.n(h)), a, lo, hi)

    def np_argmin(self, st, x, axis=None):
        nd = self.nd(st, x)
        k = nd.shape[0].as_int()
        if len(nd.shape) != 1 or k is None:
            raise Unsupported("argmin")
        bi, bv = ZERO, self.n(nd.get((ZERO,)))
        for i in range(1, k):
            v = self.n(nd.get((num(i),)))
            c = lt(v, bv)
            bi, bv = ite(c, num(i), bi), ite(c, v, bv)
        return bi

    def np_argmax(self, st, x, axis=None):
        return self.np_argmin(st, self.unop(st, ast.USub, x))

    def np_cumsum(self, st, x, axis=None):
        nd = self.nd(st, x)
        if len(nd.shape) != 1:
            raise Unsupported("cumsum rank")

        def get(idx):
            i = idx[0]
            k = i.as_int()
            if k is not None:
                r = ZERO
                for j in range(k + 1):
                    r = r + self.n(nd.get((num(j),)))
                return r
            v = fresh("s", "int", ZERO, i + ONE)
            return T.sum_(i + ONE, v, self.n(nd.get((v,))))

        return self.mk(st, ND(nd.shape, get, nd.dtype))

    def np_diff(self, st, x, axis=None):
        nd = self.nd(st, x)
        a = (len(nd.shape) - 1) if axis is None else axis.as_int() % len(nd.shape)
        shape = list(nd.shape)
        shape[a] = shape[a] - ONE

        def get(idx):
            j = list(idx)
            j[a] = j[a] + ONE
            return self.n(nd.get(tuple(j))) - self.n(nd.get(tuple(idx)))

        return self.mk(st, ND(shape, get, nd.dtype))

    # ------------------------------------------------------------ elementwise functions
    def np_cos(self, st, x):
        return self.map1(T.cos)(st, x)

    def np_sin(self, st, x):
        return self.map1(T.sin)(st, x)

    def np_tan(self, st, x):
        return self.map1(lambda a: T.sin(a) / T.cos(a))(st, x)

    def np_arctan(self, st, x):
        return self.map1(T.arctan)(st, x)

    np_atan = np_arctan

    def np_arctan2(self, st, y, x):
        return self.elementwise(st, lambda a, b: T.arctan2(self.n(a), self.n(b)), y, x, dtype="real")

    np_atan2 = np_arctan2

    def np_arccos(self, st, x):
        return self.map1(lambda a: T.app("arccos", a))(st, x)

    def np_sinh(self, st, x):
        return self.map1(lambda a: T.app("sinh", a))(st, x)

    def np_exp(self, st, x):
        return self.map1(lambda a: ONE if not a.t else T.app("exp", a))(st, x)

    def np_log(self, st, x):
        return self.map1(lambda a: T.app("log", a))(st, x)

    def np_radians(self, st, x):
        return self.map1(lambda a: a * T.PI / num(180))(st, x)

    np_deg2rad = np_radians

    def np_degrees(self, st, x):
        return self.map1(lambda a: a * num(180) / T.PI)(st, x)

    np_rad2deg = np_degrees

    def np_sqrt(self, st, x):
        return self.map1(T.sqrt)(st, x)

    def np_square(self, st, x):
        return self.map1(lambda a: a * a)(st, x)

    def np_power(self, st, x, y):
        return self.elementwise(st, lambda a, b: self.pow_(self.n(a), self.n(b)), x, y)

    def np_hypot(self, st, x, y):
        return self.elementwise(st, lambda a, b: T.sqrt(self.n(a) * self.n(a) + self.n(b) * self.n(b)), x, y)

    def np_abs(self, st, x):
        return self.map1(T.absv)(st, x)

    np_absolute = np_abs
    np_fabs = np_abs

    def np_sign(self, st, x):
        return self.map1(lambda a: ite(gt(a, ZERO), ONE, ite(lt(a, ZERO), num(-1), ZERO)))(st, x)

    def np_floor(self, st, x):
        return self.map1(T.floor)(st, x)

    def np_ceil(self, st, x):
        return self.map1(T.ceil)(st, x)

    def np_round(self, st, x, decimals=ZERO, **kw):
        d = self.n(decimals).as_int()
        if d is None:
            raise Unsupported("round digits")
        s = num(Fraction(10) ** d)

        def f(a):
            if d >= 0 and a.is_int:
                return a
            c = a.const()
            if c is not None:
                return num(Fraction(round(float(c), d)).limit_denominator(10**12)) if d > 0 else num(round(c * 10**d)) / s
            return T.app("round", a, num(d), sort="int" if d == 0 else "real")

        return self.map1(f)(st, x)

    np_around = np_round

    def np_isnan(self, st, x):
        return self.elementwise(st, lambda a: TRUE if isinstance(a, Opaque) and a.key == "nan" else FALSE, x, dtype="bool")

    def np_isclose(self, st, a, b, **k):
        raise Unsupported("isclose")

    np_allclose = np_isclose

    def np_where(self, st, c, a=None, b=None):
        if a is None:
            nd = self.nd(st, c)
            if len(nd.shape) != 1:
                raise Unsupported("where with one argument")
            return (LibObj("indices", n=nd.shape[0], mask=lambda k: to_b(nd.get((k,)))),)
        return self.elementwise(st, lambda cc, x, y: mk_choice(to_b(cc), x, y), c, a, b)

    np_nonzero = np_where

    def np_flatnonzero(self, st, c):
        return self.np_where(st, c)[0]

    def first_true(self, st, n, mask):
        """The first index below n where mask holds (n if none), when the
        mask is a threshold on the index; None if that cannot be shown."""
        k = fresh("k", "int", ZERO, n)
        ka = T.only_atom(k)
        m = mask(k)
        cands = [ZERO, n]
        for a in sorted(T.free_atoms(m)):
            for b in [x for x in a.args if isinstance(x, B)] if a.op == "ite" else []:
                cands.extend(self.thresholds(b, ka))
        cands.extend(self.thresholds(m, ka))
        for c in cands:
            f = st.allfacts()
            if decide(tuple(f) + (lt(k, c),), m) is False and decide(tuple(f) + (le(c, k),), m) is True:
                return c
        return None

    def thresholds(self, b, ka):
        out = []
        if b.op in ("not", "and", "or"):
            for x in b.args:
                out.extend(self.thresholds(x, ka))
        elif b.op in ("lt", "le"):
            p = b.args[0]
            d = p.t.get(((ka, 1),))
            if d in (1, -1) and sum(1 for mm in p.t for x, _ in mm if ka in T.free_atoms(x)) == 1:
                r = p - ap(ka) * num(d)
                c = -r if d == 1 else r
                out.extend([c, c + ONE])
        return out

    def np_logical_and(self, st, a, b):
        return self.elementwise(st, lambda x, y: and_(to_b(x), to_b(y)), a, b, dtype="bool")

    def np_logical_not(self, st, a):
        return self.elementwise(st, lambda x: not_(to_b(x)), a, dtype="bool")

    def np_array_equal(self, st, a, b):
        x, y = self.nd(st, a), self.nd(st, b)
        if len(x.shape) != len(y.shape):
            return FALSE
        for s, t in zip(x.shape, y.shape):
            if s is not t and s.as_int() is not None and t.as_int() is not None:
                return FALSE
        return self.np_all(st, self.compare(st, ast.Eq, a, b))

    def np_finfo(self, st, t):
        return LibObj("finfo", eps=T.EPS)

    def np_isscalar(self, st, x):
        return TRUE if isinstance(x, P) else FALSE

    # ------------------------------------------------------------ linear algebra
    def np_dot(self, st, a, b):
        def f(s, aa, bb):
            x, y = self.nd(s, aa), self.nd(s, bb)
            if not x.shape or not y.shape:
                return self.binop(s, ast.Mult, aa, bb)
            if len(y.shape) == 1:
                self.same_dim(s, x.shape[-1], y.shape[0], "dot")
                return self.mk(s, ND(x.shape[:-1], lambda idx: self.red(s, y.shape[0], lambda k: self.n(x.get(tuple(idx) + (k,))) * self.n(y.get((k,)))), "real"))
            self.same_dim(s, x.shape[-1], y.shape[-2], "dot")
            na = len(x.shape) - 1
            if len(x.shape) > 2 or len(y.shape) > 2:
                raise Unsupported("stacked matmul")
            shape = x.shape[:-1] + y.shape[:-2] + y.shape[-1:]

            def get(idx):
                return self.red(
                    s, y.shape[-2],
                    lambda k: self.n(x.get(tuple(idx[:na]) + (k,))) * self.n(y.get(tuple(idx[na:-1]) + (k, idx[-1]))),
                )

            return self.mk(s, ND(shape, get, "real"))

        return self.I.lift(st, f, a, b)

    np_matmul = np_dot

    def np_vdot(self, st, a, b):
        return self.np_dot(st, a, b)

    np_inner = np_vdot

    def np_outer(self, st, a, b):
        x, y = self.nd(st, a), self.nd(st, b)
        return self.mk(st, ND(x.shape + y.shape, lambda idx: self.n(x.get(idx[:1])) * self.n(y.get(idx[1:])), "real"))

    def np_cross(self, st, a, b, axis=None, axisa=None, axisb=None, axisc=None):
        def f(s, aa, bb):
            x, y = self.nd(s, aa), self.nd(s, bb)
            if x.shape[-1].as_int() == 2 and y.shape[-1].as_int() == 2 and len(x.shape) == 1:
                return self.n(x.get((ZERO,))) * self.n(y.get((ONE,))) - self.n(x.get((ONE,))) * self.n(y.get((ZERO,)))
            if x.shape[-1].as_int() != 3 or y.shape[-1].as_int() != 3:
                raise Raised(ExcVal("ValueError", ("cross dims",)))
            shape = self.broadcast_shapes(s, [x.shape, y.shape])
            gx, gy = self.broadcast_getter(s, x, shape), self.broadcast_getter(s, y, shape)

            def get(idx):
                j = idx[-1].as_int()
                p, q = num((j + 1) % 3), num((j + 2) % 3)
                r = tuple(idx[:-1])
                return self.n(gx(r + (p,))) * self.n(gy(r + (q,))) - self.n(gx(r + (q,))) * self.n(gy(r + (p,)))

            return self.mk(s, ND(shape, get, "real"))

        return self.I.lift(st, f, a, b)

    def la_norm(self, st, x, ord=None, axis=None, keepdims=False):
        def f(s, xx):
            nd = self.nd(s, xx)
            if axis is None and len(nd.shape) > 1:
                return T.sqrt(self.reduce_nested(s, ND(nd.shape, lambda i: self.n(nd.get(i)) * self.n(nd.get(i))), lambda n, g: self.red(s, n, g)))
            ax = num(0) if axis is None else axis
            return self.reduce(s, xx, ax, lambda n, g: T.sqrt(self.red(s, n, lambda i: self.n(g(i)) * self.n(g(i)))), keepdims)

        return self.I.lift(st, f, x)

    def la_solve(self, st, a, b):
        x, y = self.nd(st, a), self.nd(st, b)
        if len(y.shape) != 1:
            raise Unsupported("solve with matrix right-hand side")
        n = y.shape[0]
        self.same_dim(st, x.shape[0], n, "solve")
        self.same_dim(st, x.shape[1], n, "solve")
        I = self.I
        T._fresh[0] += 1
        name = "solve!%d" % T._fresh[0]
        bs = tuple(ap(v) for v in I.binders)
        r = I.alloc(st, (n,), lambda idx: T.app(name, *(bs + tuple(idx))), "real")
        A = self.nd(st, self.mk(st, x))
        Bv = self.nd(st, self.mk(st, y))
        snap = st.copy()
        A = self.nd(snap, a if isinstance(a, ArrRef) else self.np_array(snap, a))
        Bv = self.nd(snap, b if isinstance(b, ArrRef) else self.np_array(snap, b))
        k = self.same_system(st, n, A, Bv) if I.solve_scales else None
        if k is not None:
            return k
        I.solve_facts.append(
            dict(name=name, n=n, A=lambda i, j: A.get((i, j)), b=lambda i: Bv.get((i,)), binders=tuple(I.binders),
                 x=lambda i: T.app(name, *(bs + (i,))))
        )
        return r

    def same_system(self, st, n, A, Bv):
        """The solution of a regular system is unique: a system with the same
        matrix as an earlier one and k times its right-hand side has k times
        its solution (I.solve_scales: the factors worth trying)."""
        I = self.I
        if I.binders:
            return None
        facts = st.allfacts()
        for sf in I.solve_facts:
            if sf["binders"] or not entails(facts, eq(n, sf["n"])):
                continue
            i, m = fresh("row", "int", ZERO, n), fresh("col", "int", ZERO, n)
            with with_facts(facts):
                if prove_eq(to_p(self.n(A.get((i, m)))), to_p(self.n(sf["A"](i, m))), facts, [], 60)[0] is not True:
                    continue
                b2, b1 = to_p(self.n(Bv.get((i,)))), to_p(self.n(sf["b"](i)))
                for k in I.solve_scales:
                    if prove_eq(b2, k * b1, facts, [], 60)[0] is True:
                        I.solve_reused.append((sf["name"], k))
                        return I.alloc(st, (n,), lambda idx: k * to_p(sf["x"](*idx)), "real")
        return None

    def la_inv(self, st, a):
        raise Unsupported("matrix inverse")

    def la_det(self, st, a):
        raise Unsupported("determinant")

    la_lstsq = la_inv
    la_cond = la_inv

    def np_einsum(self, st, spec, *ops, **kw):
        nds = [self.nd(st, o) for o in ops]
        spec = spec.replace(" ", "")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins, out = spec, None
        ins = ins.split(",")
        # expand ellipsis into capital letters from the right
        nell = 0
        for t, x in zip(ins, nds):
            if "..." in t:
                nell = max(nell, len(x.shape) - (len(t) - 3))
        ell = "".join(chr(0x3B1 + i) for i in range(nell))
        full = []
        for t, x in zip(ins, nds):
            if "..." in t:
                k = len(x.shape) - (len(t) - 3)
                t = t.replace("...", ell[nell - k :])
            if len(t) != len(x.shape):
                raise Raised(ExcVal("ValueError", ("einsum rank",)))
            full.append(t)
        if out is None:
            letters = sorted(set("".join(full)) - set(ell))
            cnt = "".join(full)
            out = ell + "".join(c for c in letters if cnt.count(c) == 1)
        else:
            out = out.replace("...", ell)
        dims = {}
        for t, x in zip(full, nds):
            for c, s in zip(t, x.shape):
                if c not in dims or (dims[c] is ONE and c in ell):
                    dims[c] = s
                elif dims[c] is not s and not (s is ONE and c in ell):
                    self.same_dim(st, dims[c], s, "einsum")
        red = [c for c in dims if c not in out]

        def get(idx):
            env = dict(zip(out, idx))

            def rec(j):
                if j == len(red):
                    r = ONE
                    for t, x in zip(full, nds):
                        r = r * self.n(x.get(tuple(ZERO if (s is ONE and c in ell) else env[c] for c, s in zip(t, x.shape))))
                    return r
                c = red[j]

                def g(i):
                    env[c] = i
                    return rec(j + 1)

                return self.red(st, dims[c], g)

            return rec(0)

        return self.mk(st, ND([dims[c] for c in out], get, "real"))

    def np_apply_along_axis(self, st, f, axis, arr, *args, **kw):
        nd = self.nd(st, arr)
        a = self.n(axis).as_int() % len(nd.shape)
        I = self.I
        shape = nd.shape[:a] + nd.shape[a + 1 :]
        probe = {}

        def call(s, idx):
            v = self.mk(s, ND((nd.shape[a],), lambda i: nd.get(tuple(idx[:a]) + (i[0],) + tuple(idx[a:])), nd.dtype))
            return I.call(s, f, [v] + list(args), kw)

        idx0 = tuple(fresh("aa", "int", ZERO, s) for s in shape)
        s0 = st.copy()
        r0 = self.nd(s0, call(s0, idx0))
        inner = r0.shape

        def get(idx):
            s1 = st.copy()
            outer = tuple(idx[:a]) + tuple(idx[a + len(inner):])
            r = self.nd(s1, call(s1, outer))
            return r.get(tuple(idx[a : a + len(inner)]))

        return self.mk(st, ND(shape[:a] + inner + shape[a:], get, "real"))

    def np_interp(self, st, x, xp, fp, left=None, right=None):
        a, b = self.nd(st, xp), self.nd(st, fp)
        key = self.fun_key(st, "interp", [a, b])
        return self.elementwise(st, lambda t: key(self.n(t)), x, dtype="real")

    def fun_key(self, st, name, nds):
        """An uninterpreted function identified by the content of arrays."""
        fns = []
        for x in nds:
            n = x.shape[0]
            if n.as_int() is not None and n.as_int() <= 16:
                fns.extend(self.n(x.get((num(i),))) for i in range(n.as_int()))
            else:
                v = fresh("f", "int", ZERO, n)
                vals = x.get((v,) + tuple(ZERO for _ in x.shape[1:]))
                # identify by sum of element times a generic weight
                w = T.app("w!" + name, v)
                fns.append(T.sum_(n, v, self.n(vals) * w))
                fns.append(n)
        return lambda t: T.app(name, *(tuple(fns) + (t,)))

    def sp_interp1d(self, st, x, y, **kw):
        xs, ys = self.nd(st, x), self.nd(st, y)
        key = self.fun_key(st, "interp1d", [xs, ys])

        def at(s, u):
            """linear in the interval around u, the outermost ones extended"""
            n = xs.shape[0]
            c = self.first_true(s, n, lambda k: lt(u, self.n(xs.get((k,)))))
            if c is None:
                return key(u)
            if self.I.decide(s, le(ONE, c)) is not True:
                c = T.maxv(c, ONE)
            if self.I.decide(s, le(c, n - ONE)) is not True:
                c = T.minv(c, n - ONE)
            a, b = self.n(xs.get((c - ONE,))), self.n(xs.get((c,)))
            p, q = self.n(ys.get((c - ONE,))), self.n(ys.get((c,)))
            return p + (u - a) * (q - p) / (b - a)

        return Builtin("interp1d", lambda s, t: self.elementwise(s, lambda u: at(s, self.n(u)), t, dtype="real"))

    def sp_PchipInterpolator(self, st, x=None, y=None, **kw):
        if isinstance(x, ArrRef) or isinstance(x, ListRef):
            key = self.fun_key(st, "pchip", [self.nd(st, x), self.nd(st, y)])
        else:
            raise Unsupported("pchip")
        return Builtin("pchip", lambda s, t: self.elementwise(s, lambda u: key(self.n(u)), t, dtype="real"))

    def sp_sawtooth(self, st, t, width=ONE):
        w = self.n(width)

        def f(x):
            x = self.n(x)
            # piecewise linear of period 2 pi
            ph = x / (T.PI * num(2))
            m = ph - T.floor(ph)
            up = m * num(2) / w - ONE if w.t else num(-1)
            if w is ONE:
                return m * num(2) - ONE
            down = (w + ONE - m * num(2)) / (ONE - w)
            return ite(lt(m, w), up, down)

        return self.elementwise(st, f, t, dtype="real")

    def sp_square(self, st, t, duty=None):
        def f(x):
            ph = self.n(x) / (T.PI * num(2))
            m = ph - T.floor(ph)
            return ite(lt(m, num(Fraction(1, 2))), ONE, num(-1))

        return self.elementwise(st, f, t, dtype="real")

    def sp_minimize(self, st, *a, **k):
        h = self.I.summaries.get("lib:minimize")
        if h:
            return h(self.I, st, a, k)
        raise Unsupported("minimize")

    def sp_dual_annealing(self, st, *a, **k):
        h = self.I.summaries.get("lib:dual_annealing")
        if h:
            return h(self.I, st, a, k)
        raise Unsupported("dual_annealing")

    # math module
    def ma_floor(self, st, x):
        return T.floor(self.n(x))

    def ma_ceil(self, st, x):
        return T.ceil(self.n(x))

    def ma_sqrt(self, st, x):
        return T.sqrt(self.n(x))

    def ma_lcm(self, st, *a):
        raise Unsupported("lcm")

    # logging / tqdm
    def logging_getLogger(self, st, *a):
        return LibObj("logging.logger")

    def tqdm_tqdm(self, st, *a, **k):
        return LibObj("tqdm.bar", args=a, kw=k, update=Builtin("update", lambda st, *a, **k: None), close=Builtin("close", lambda st: None))

    def tqdm_trange(self, st, *a, **k):
        return self.bi_range(st, *a)
