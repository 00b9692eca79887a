"""Symbolic interpreter for the Python sources in /repo.

It executes the abstract syntax of the real functions, parsed from the source
files on every run.  Branches on undecided conditions are executed on both
sides and merged; loops whose trip count is symbolic are summarised by
inferring a closed form for everything one generic iteration changes and
checking that closed form inductively (class LoopRule)."""
import ast
import os
import itertools
import time
from values import *  # noqa
import values as V
import terms as T
from prover import *  # noqa
import prover

MAX_UNROLL = 24


class PathDead(Exception):
    """No normal continuation (every path raised)."""


class Exit:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


class LoopCtx:
    n = 0

    def __init__(self):
        LoopCtx.n += 1
        self.id = LoopCtx.n
        self.pre = None
        self.mode = {}  # key -> 'opt' | 'carried'
        self.keys = {}  # buffer/fields havoced: key -> pre content
        self.reads = {}  # key -> list of (idx tuple, facts)


class Interp:
    def __init__(self, repo="/repo", package="pterasoftware"):
        self.repo, self.package = repo, package
        self.modules = {}
        self.binders = []
        self.loops = []
        self.raises = []  # (guard B, exc, tag)
        self.safety = []  # (kind, text, facts, B)
        self.loop_inv = {}  # function -> value of a carried local at iteration k
        self.summaries = {}  # qualname -> callable(interp, st, args dict) -> value
        self.hooks = {}  # (qualname) -> before-call hook
        self.calls_seen = {}
        self.assumptions = set()
        self.fid = 0
        self.depth = 0
        self.deadline = None
        self.cur = []  # call stack of quals
        self.solve_facts = []
        self.solve_scales = []
        self.solve_reused = []
        self.loop_hints = {}
        self.events = []
        self.rec_defs = {}
        self.loop_invariants = {}
        self.safety_on = True
        self.raise_sinks = []
        self.functions_executed = {}
        self.force_unroll = 0
        import nplib

        self.lib = nplib.Lib(self)

    # ------------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, self.package, *name.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(self.repo, self.package, *name.split("."), "__init__.py")
            if not os.path.exists(path):
                raise Unsupported("module %s" % name)
        src = open(path).read()
        tree = ast.parse(src)
        m = ModuleVal(name)
        m.tree = tree
        m.path = path
        self.modules[name] = m
        self.load_module(m, tree)
        return m

    def load_module(self, m, tree):
        for node in tree.body:
            if isinstance(node, (ast.FunctionDef,)):
                m.attrs[node.name] = FuncVal(node, m)
            elif isinstance(node, ast.ClassDef):
                m.attrs[node.name] = self.make_class(node, m)
            elif isinstance(node, ast.Import):
                for a in node.names:
                    nm = a.asname or a.name.split(".")[0]
                    m.attrs[nm] = self.import_name(a.name if a.asname else a.name.split(".")[0])
            elif isinstance(node, ast.ImportFrom):
                for a in node.names:
                    nm = a.asname or a.name
                    if node.level:
                        if node.module is None or node.module == "":
                            m.attrs[nm] = ("lazymod", a.name)
                        else:
                            m.attrs[nm] = ("lazyattr", node.module, a.name)
                    elif (node.module or "").split(".")[0] == self.package:
                        sub = ".".join(node.module.split(".")[1:])
                        m.attrs[nm] = ("lazyattr", sub, a.name) if sub else ("lazymod", a.name)
                    else:
                        base = self.import_name(node.module)
                        m.attrs[nm] = self.lib.module_attr(base, a.name)
            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                tgts = node.targets if isinstance(node, ast.Assign) else [node.target]
                for t in tgts:
                    if isinstance(t, ast.Name):
                        m.attrs[t.id] = ("lazyexpr", node.value, m)

    def import_name(self, name):
        if name.split(".")[0] == self.package:
            return ModuleVal(self.package)
        return self.lib.module(name)

    def make_class(self, node, m):
        c = ClassVal(node.name, m, node)
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                kinds = []
                for d in b.decorator_list:
                    if isinstance(d, ast.Name):
                        kinds.append(d.id)
                    elif isinstance(d, ast.Attribute):
                        kinds.append(d.attr)
                f = FuncVal(b, m, cls=c)
                if "property" in kinds or "cached_property" in kinds:
                    c.props[b.name] = f
                elif "staticmethod" in kinds:
                    c.methods[b.name] = f
                    f.static = True
                elif "setter" in kinds:
                    raise Unsupported("property setter")
                else:
                    c.methods[b.name] = f
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = ("lazyexpr", b.value, m)
            elif isinstance(b, ast.AnnAssign) and b.value is not None:
                c.attrs[b.target.id] = ("lazyexpr", b.value, m)
        c.bases = [b.id if isinstance(b, ast.Name) else ast.unparse(b) for b in node.bases]
        return c

    def get_global(self, m, name, st):
        if name in m.attrs:
            v = m.attrs[name]
            if isinstance(v, tuple) and v and v[0] == "lazymod":
                v = self.module(v[1])
                m.attrs[name] = v
            elif isinstance(v, tuple) and v and v[0] == "lazyattr":
                v = self.get_global(self.module(v[1]), v[2], st)
                m.attrs[name] = v
            elif isinstance(v, tuple) and v and v[0] == "lazyexpr":
                saved, self.binders = self.binders, []
                try:
                    fid = self.new_frame(st)
                    st.frames[fid]["__mod__"] = m
                    val = self.eval(v[1], fid, st)
                    if isinstance(val, (P, B, str, tuple, type(None))):
                        m.attrs[name] = val
                    v = val
                finally:
                    self.binders = saved
            return v
        b = self.lib.builtin(name)
        if b is not None:
            return b
        raise Unsupported("name %s" % name)

    def lookup(self, qual):
        """'panel.Panel', 'functions.cosspace', 'panel.Panel.area'"""
        parts = qual.split(".")
        m = self.module(parts[0])
        st = State()
        v = self.get_global(m, parts[1], st)
        for p in parts[2:]:
            if p in v.methods:
                v = v.methods[p]
            else:
                v = v.props[p]
        return v

    # ------------------------------------------------------------------ frames
    def new_frame(self, st):
        self.fid += 1
        st.frames[self.fid] = {}
        return self.fid

    # ------------------------------------------------------------------ memory
    def alloc(self, st, shape, getter, dtype, kind="arr", name=None):
        """New buffer whose generic element is getter(idx tuple)."""
        shape = tuple(to_p(s) for s in shape)
        buf = Buf(kind, dtype, tuple(self.binders), name)
        ivars, table = self.tabulate(shape, getter)
        st.bufs[buf.id] = BufC(shape, ivars, table)
        owner = tuple(ap(v) for v in buf.vars)
        if kind == "list":
            return ListRef(buf, owner)
        axes = tuple(("ax", i, ZERO, 1) for i in range(len(shape)))
        return ArrRef(buf, owner, axes, shape)

    def tabulate(self, shape, getter):
        ivars = []
        conc = []
        for s in shape:
            n = s.as_int()
            if n is not None and n <= CONC:
                ivars.append(None)
                conc.append(range(max(n, 0)))
            else:
                ivars.append(T.only_atom(fresh("i", "int", ZERO, s)))
        table = {}
        n_el = 1
        for r in conc:
            n_el *= len(r)
        if n_el > 4000:
            raise Unsupported("large concrete array")
        for key in itertools.product(*conc):
            it = iter(key)
            idx = tuple(num(next(it)) if v is None else ap(v) for v in ivars)
            table[key] = getter(idx)
        return tuple(ivars), table

    def shape_of(self, st, ref):
        c = st.bufs[ref.buf.id]
        mp = dict(zip(ref.buf.vars, ref.owner))
        mp = {k: v for k, v in mp.items() if v is not ap(k)}
        return tuple(subst(s, mp) for s in c.shape)

    def raw_get(self, c, vars_, owner, idx):
        """Element of a content at concrete/symbolic index (no bounds checks)."""
        mp = {}
        for v, o in zip(vars_, owner):
            if ap(v) is not o:
                mp[v] = o
        keysets = [()]
        conc_choices = []
        axis_conc = []
        for ax, iv in enumerate(c.ivars):
            if iv is None:
                axis_conc.append(idx[ax])
            else:
                if ap(iv) is not idx[ax]:
                    mp[iv] = idx[ax]
        consts = [i.as_int() for i in axis_conc]
        if all(x is not None for x in consts):
            key = tuple(consts)
            if key not in c.table:
                raise Raised(ExcVal("IndexError", ("index out of range",)))
            return vsubst(c.table[key], mp)
        # symbolic index into concrete axis: ite chain
        val = UNDEF
        for key, v in c.table.items():
            cond = TRUE
            for kx, t in zip(key, axis_conc):
                cond = and_(cond, eq(t, num(kx)))
            if cond is FALSE:
                continue
            v = vsubst(v, mp)
            val = v if val is UNDEF else mk_choice(cond, v, val)
        if val is UNDEF:
            raise Raised(ExcVal("IndexError", ("index out of range",)))
        return val

    def buf_get(self, st, buf, owner, idx):
        with with_facts(st.allfacts()):
            v = self.raw_get(st.bufs[buf.id], buf.vars, owner, idx)
            v = self.resolve_old(st, v)
        return v

    def resolve_old(self, st, v):
        """Replace OLD markers of loops in optimistic mode by pre-loop content."""
        for ctx in reversed(self.loops):
            if ctx.keys:
                v = self.resolve_ctx(st, v, ctx)
        return v

    def resolve_ctx(self, st, v, ctx):
        if isinstance(v, (P, B)):
            names = {}
            for a in sorted(free_atoms(v)):
                nm = a.args[0] if a.op == "app" else None
                if nm and isinstance(nm, str) and nm.startswith("OLD!%d!" % ctx.id):
                    key = ctx.names[nm]
                    if ctx.mode.get(key[0]) == "opt":
                        names[nm] = key
            pn = {}
            for b in preds_in(v):
                nm = b.args[0]
                if nm.startswith("OLD!%d!" % ctx.id):
                    key = ctx.names[nm]
                    if ctx.mode.get(key[0]) == "opt":
                        pn[b] = key
            if pn:
                mp = {}
                for b, key in pn.items():
                    args = b.args[1:]
                    self.log_read(ctx, key[0], args, st)
                    mp[b] = to_b(self.pre_value(ctx, key, args))
                v = subst(v, mp)
            if not names:
                return v

            def mk(key):
                def f(*args):
                    self.log_read(ctx, key[0], args, st)
                    return self.pre_value(ctx, key, args)

                return f

            return T.replace_apps(v, {nm: mk(k) for nm, k in names.items()})
        if isinstance(v, OldVal):
            if v.ctx != ctx.id:
                return v
            key = ctx.names[v.key]
            if ctx.mode.get(key[0]) == "larr":
                return v
            if ctx.mode.get(key[0]) != "opt":
                raise OpaqueUse(Opaque("loop-carried object %s" % (v.key,), key[0]))
            self.log_read(ctx, key[0], v.idx, st)
            return self.pre_value(ctx, key, v.idx)
        if isinstance(v, Choice):
            a = self.resolve_ctx(st, v.a, ctx)
            b = self.resolve_ctx(st, v.b, ctx)
            if a is v.a and b is v.b:
                return v
            return mk_choice(v.c, a, b)
        if isinstance(v, tuple):
            return tuple(self.resolve_ctx(st, x, ctx) for x in v)
        return v

    def log_read(self, ctx, key, args, st):
        if any(T.open_bvs(x) for x in args):
            raise Unsupported("read under binder in loop")
        ctx.reads.setdefault(key, []).append((tuple(args), st.allfacts()))

    def pre_value(self, ctx, key, args):
        (k, tkey) = key
        pre = ctx.keys[k]
        if isinstance(pre, FieldMap):
            mp = {v: a for v, a in zip(pre.vars, args) if ap(v) is not a}
            return vsubst(pre.val, mp)
        buf, c = pre
        nv = len(buf.vars)
        mp = {v: a for v, a in zip(buf.vars, args[:nv]) if ap(v) is not a}
        rest = list(args[nv:])
        for iv in c.ivars:
            if iv is not None:
                a = rest.pop(0)
                if ap(iv) is not a:
                    mp[iv] = a
        return vsubst(c.table[tkey], mp)

    def owner_cond(self, vars_, owner):
        c = TRUE
        for v, o in zip(vars_, owner):
            if ap(v) is not o:
                c = and_(c, eq(ap(v), o))
        return c

    def arr_index(self, st, ref, idx):
        """buffer index for a view index tuple"""
        out = []
        for a in ref.axes:
            if a[0] == "pt":
                out.append(a[1])
            else:
                i = idx[a[1]]
                out.append(a[2] + (i if a[3] == 1 else i * num(a[3])))
        return tuple(out)

    def arr_get(self, st, ref, idx):
        return self.buf_get(st, ref.buf, ref.owner, self.arr_index(st, ref, idx))

    def arr_store(self, st, ref, getter):
        """ref[...] = getter(view index tuple)"""
        c = st.bufs[ref.buf.id]
        oc = self.owner_cond(ref.buf.vars, ref.owner)
        # owner variables in the value must be the generic ones
        table = {}
        facts = st.allfacts()
        with with_facts(facts):
            for key, old in c.table.items():
                it = iter(key)
                cond = oc
                vidx = [None] * len(ref.shape)
                for ax, a in enumerate(ref.axes):
                    iv = c.ivars[ax]
                    x = num(next(it)) if iv is None else ap(iv)
                    if a[0] == "pt":
                        cond = and_(cond, eq(x, a[1]))
                    else:
                        start, step = a[2], a[3]
                        off = (x - start) if step == 1 else (x - start) * num(
                            Fraction(1, step)
                        )
                        size = ref.shape[a[1]]
                        full = not start.t and step == 1 and size is c.shape[ax]
                        if not full:
                            full = (
                                step == 1
                                and not start.t
                                and not ref.buf.vars
                                and entails(facts, eq(size, c.shape[ax]))
                            )
                        if not full:
                            lo = ge(off, ZERO)
                            hi = lt(off, size)
                            if step not in (1, -1):
                                raise Unsupported("strided store")
                            cond = and_(cond, lo, hi)
                        vidx[a[1]] = off
                if cond is FALSE:
                    table[key] = old
                    continue
                vidx = tuple(ZERO if v is None else v for v in vidx)
                new = getter(vidx)
                table[key] = mk_choice(cond, new, old)
        st.bufs[ref.buf.id] = BufC(c.shape, c.ivars, table)

    # fields
    def get_field(self, st, ref, attr):
        fm = st.fields.get((ref.fam, attr))
        if fm is None:
            if ref.fam.lazy is not None:
                fm = ref.fam.lazy(self, st, ref.fam, attr)
                if fm is not None:
                    st.fields[(ref.fam, attr)] = fm
            if fm is None:
                return None
        mp = {v: o for v, o in zip(fm.vars, ref.owner) if ap(v) is not o}
        with with_facts(st.allfacts()):
            return self.resolve_old(st, vsubst(fm.val, mp))

    def has_field(self, st, ref, attr):
        if (ref.fam, attr) in st.fields:
            return True
        return ref.fam.lazy is not None and ref.fam.lazy(self, st, ref.fam, attr) is not None

    def set_field(self, st, ref, attr, v):
        key = (ref.fam, attr)
        fm = st.fields.get(key)
        vars_ = ref.fam.vars
        cond = self.owner_cond(vars_, ref.owner)
        if cond is TRUE:
            st.fields[key] = FieldMap(vars_, v)
            return
        if fm is None and ref.fam.lazy is not None:
            fm = ref.fam.lazy(self, st, ref.fam, attr)
        old = fm.val if fm is not None else UNDEF
        if fm is not None and fm.vars != vars_:
            old = vsubst(old, dict(zip(fm.vars, (ap(x) for x in vars_))))
        st.fields[key] = FieldMap(vars_, mk_choice(cond, v, old))

    def new_obj(self, st, cls, name=None):
        fam = Fam(cls, tuple(self.binders), name)
        return Ref(fam, tuple(ap(v) for v in fam.vars))

    # ------------------------------------------------------------------ merging
    def merge_states(self, c, a, b, base=None):
        """State equal to a where c, b elsewhere."""
        if a is b:
            return a
        r = State()
        for fid in dict.fromkeys((*a.frames, *b.frames)):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None:
                r.frames[fid] = fb
            elif fb is None or fa is fb:
                r.frames[fid] = fa
            else:
                d = {}
                for k in dict.fromkeys((*fa, *fb)):
                    va, vb = fa.get(k, UNDEF), fb.get(k, UNDEF)
                    d[k] = va if va is vb else mk_choice(c, va, vb)
                r.frames[fid] = d
        for k in dict.fromkeys((*a.fields, *b.fields)):
            va, vb = a.fields.get(k), b.fields.get(k)
            if va is vb:
                r.fields[k] = va
            elif va is None or vb is None:
                # object or lazily created field exists on one side only
                r.fields[k] = va or vb
                one, other = (va, b) if vb is None else (vb, a)
                fam = k[0]
                if fam in getattr(self, "pre_fams", ()):
                    pass
                if (va is None) == (vb is None):
                    continue
                # attribute added on one branch to an existing object
                if fam.id <= (base or 0):
                    if va is None:
                        r.fields[k] = FieldMap(vb.vars, mk_choice(c, UNDEF, vb.val))
                    else:
                        r.fields[k] = FieldMap(va.vars, mk_choice(c, va.val, UNDEF))
            else:
                vbv = vb.val
                if va.vars != vb.vars:
                    vbv = vsubst(vbv, dict(zip(vb.vars, (ap(x) for x in va.vars))))
                r.fields[k] = FieldMap(va.vars, mk_choice(c, va.val, vbv))
        for k in dict.fromkeys((*a.bufs, *b.bufs)):
            va, vb = a.bufs.get(k), b.bufs.get(k)
            if va is vb or vb is None:
                r.bufs[k] = va
            elif va is None:
                r.bufs[k] = vb
            else:
                r.bufs[k] = self.merge_content(c, va, vb)
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        r.pc = a.pc[:n]
        ga, gb = and_(*a.pc[n:]), and_(*b.pc[n:])
        rest = or_(ga, gb)
        if rest is not TRUE:
            r.branch(rest)
        fs = [f for f in a.facts if f in b.facts]
        sb = set(b.facts)
        sa = set(a.facts)
        for f in a.facts:
            if f not in sb:
                fs.append(implies(c, f))
        for f in b.facts:
            if f not in sa:
                fs.append(or_(c, f))
        r.facts = tuple(f for f in fs if f is not TRUE)
        return r

    def merge_content(self, c, va, vb):
        if all(x is y for x, y in zip(va.shape, vb.shape)) and len(va.shape) == len(vb.shape):
            mp = {}
            for x, y in zip(va.ivars, vb.ivars):
                if x is not y:
                    mp[y] = ap(x)
            table = {}
            for k in va.table:
                table[k] = mk_choice(c, va.table[k], vsubst(vb.table[k], mp))
            return BufC(va.shape, va.ivars, table)
        # lists of different length: index generically
        if len(va.shape) == 1 and len(vb.shape) == 1:
            n = ite(c, va.shape[0], vb.shape[0])
            iv = T.only_atom(fresh("i", "int", ZERO, n))
            ga = self.generic_elem(va, ap(iv))
            gb = self.generic_elem(vb, ap(iv))
            return BufC((n,), (iv,), {(): mk_choice(c, ga, gb)})
        raise Unsupported("merging arrays of different shape")

    def generic_elem(self, c, x):
        if c.ivars[0] is not None:
            return vsubst(c.table[()], {c.ivars[0]: x})
        val = UNDEF
        for k, v in c.table.items():
            val = v if val is UNDEF else mk_choice(eq(x, num(k[0])), v, val)
        return val

    # ------------------------------------------------------------------ truth & lifting
    def truth(self, st, v):
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, B):
            return v
        if isinstance(v, P):
            return ne(v, ZERO)
        if v is None or v is UNDEF:
            return FALSE
        if isinstance(v, str):
            return TRUE if v else FALSE
        if isinstance(v, tuple):
            return TRUE if v else FALSE
        if isinstance(v, Choice):
            return or_(
                and_(v.c, self.truth(st, v.a)), and_(not_(v.c), self.truth(st, v.b))
            )
        if isinstance(v, ListRef):
            return gt(self.shape_of(st, v)[0], ZERO)
        if isinstance(v, (Ref, FuncVal, ClassVal, Builtin, BoundMethod, SymFun)):
            return TRUE
        if isinstance(v, PyDict):
            return TRUE if v.items else FALSE
        if isinstance(v, ArrRef):
            n = ONE
            for s in v.shape:
                n = n * s
            if n is ONE:
                return self.truth(st, self.arr_get(st, v, tuple(ZERO for _ in v.shape)))
            raise Unsupported("truth of array")
        if isinstance(v, Opaque):
            raise OpaqueUse(v)
        raise Unsupported("truth of %r" % (v,))

    def decide(self, st, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return prover.decide(st.allfacts(), b)

    def lift(self, st, f, *args):
        """Apply f(st, *args) distributing over Choice arguments.

        f may mutate st; the two sides are merged."""
        for i, a in enumerate(args):
            if isinstance(a, Opaque):
                raise OpaqueUse(a)
            if isinstance(a, Choice):
                d = self.decide(st, a.c)
                if d is not None:
                    return self.lift(
                        st, f, *(args[:i] + ((a.a if d else a.b),) + args[i + 1 :])
                    )
                s1, s2 = st.copy(), st.copy()
                s1.branch(a.c)
                s2.branch(not_(a.c))

                def fix(val):
                    return tuple(resolve_choice(x, a.c, val) for x in args)

                r1 = r2 = None
                e1 = e2 = None
                try:
                    r1 = self.lift(s1, f, *fix(True))
                except Raised as e:
                    e1 = e
                try:
                    r2 = self.lift(s2, f, *fix(False))
                except Raised as e:
                    e2 = e
                if e1 and e2:
                    raise e1
                if e1 or e2:
                    s, r, e, g = (
                        (s2, r2, e1, a.c) if e1 else (s1, r1, e2, not_(a.c))
                    )
                    self.record_raise(st, g, e.exc)
                    self.adopt(st, s)
                    return r
                m = self.merge_states(a.c, s1, s2)
                self.adopt(st, m)
                return mk_choice(a.c, r1, r2)
        return f(st, *args)

    def adopt(self, st, m):
        st.frames, st.fields, st.bufs = m.frames, m.fields, m.bufs
        st.pc, st.facts = m.pc, m.facts

    def record_raise(self, st, guard, exc):
        g = and_(*(st.pc + (guard,)))
        if g is FALSE:
            return
        if self.raise_sinks and self.raise_sinks[-1] is not None:
            s2 = st.copy()
            s2.branch(guard)
            self.raise_sinks[-1].append(Exit("raise", exc, s2))
            return
        self.raise_log(g, exc, st)

    def raise_log(self, g, exc, st):
        self.raises.append((g, exc, tuple(self.cur), st.facts))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fid, st, exits):
        """Executes on st in place; returns True if control falls through."""
        for s in stmts:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            if not self.exec_stmt(s, fid, st, exits):
                return False
        return True

    def exec_stmt(self, s, fid, st, exits):
        try:
            return self._exec_stmt(s, fid, st, exits)
        except Raised as e:
            exits.append(Exit("raise", e.exc, st.copy()))
            return False

    def _exec_stmt(self, s, fid, st, exits):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return True
            self.eval(s.value, fid, st)
            return True
        if t is ast.Assign:
            v = self.eval(s.value, fid, st)
            for tg in s.targets:
                self.assign(tg, v, fid, st)
            return True
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fid, st), fid, st)
            return True
        if t is ast.AugAssign:
            self.aug_assign(s, fid, st)
            return True
        if t is ast.If:
            c = self.truth(st, self.eval(s.test, fid, st))
            return self.exec_if(
                c,
                lambda s1: self.exec_block(s.body, fid, s1, exits),
                lambda s2: self.exec_block(s.orelse, fid, s2, exits),
                st,
            )
        if t is ast.For:
            return self.exec_for(s, fid, st, exits)
        if t is ast.While:
            return self.exec_while(s, fid, st, exits)
        if t is ast.Return:
            v = self.eval(s.value, fid, st) if s.value is not None else None
            exits.append(Exit("return", v, st.copy()))
            return False
        if t is ast.Raise:
            exc = self.eval_exc(s.exc, fid, st) if s.exc is not None else st.frames[fid].get("__exc__")
            raise Raised(exc)
        if t is ast.Assert:
            c = self.truth(st, self.eval(s.test, fid, st))
            d = self.decide(st, c)
            if d is True:
                return True
            if d is False:
                raise Raised(ExcVal("AssertionError"))
            s2 = st.copy()
            s2.branch(not_(c))
            exits.append(Exit("raise", ExcVal("AssertionError"), s2))
            st.branch(c)
            return True
        if t is ast.Pass:
            return True
        if t is ast.Break:
            exits.append(Exit("break", None, st.copy()))
            return False
        if t is ast.Continue:
            exits.append(Exit("continue", None, st.copy()))
            return False
        if t is ast.FunctionDef:
            defaults = self.eval_defaults(s.args, fid, st)
            st.frames[fid][s.name] = FuncVal(
                s, st.frames[fid]["__mod__"], env=fid, defaults=defaults
            )
            return True
        if t is ast.With:
            for it in s.items:
                v = self.eval(it.context_expr, fid, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fid, st)
            return self.exec_block(s.body, fid, st, exits)
        if t is ast.Try:
            return self.exec_try(s, fid, st, exits)
        if t in (ast.Nonlocal, ast.Global):
            st.frames[fid].setdefault("__nonlocal__", set())
            st.frames[fid]["__nonlocal__"] = st.frames[fid]["__nonlocal__"] | set(s.names)
            return True
        if t in (ast.Import, ast.ImportFrom):
            m = ModuleVal("tmp")
            self.load_module(m, ast.Module(body=[s], type_ignores=[]))
            for k, v in m.attrs.items():
                st.frames[fid][k] = self.get_global(m, k, st)
            return True
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    st.frames[fid].pop(tg.id, None)
                else:
                    raise Unsupported("del")
            return True
        raise Unsupported("statement %s" % t.__name__)

    def exec_if(self, c, run_a, run_b, st):
        d = self.decide(st, c)
        if d is True:
            return run_a(st)
        if d is False:
            return run_b(st)
        s1, s2 = st.copy(), st.copy()
        s1.branch(c)
        s2.branch(not_(c))
        base = Fam.n
        f1 = run_a(s1)
        f2 = run_b(s2)
        if f1 and f2:
            self.adopt(st, self.merge_states(c, s1, s2, base))
            return True
        if f1:
            self.adopt(st, s1)
            return True
        if f2:
            self.adopt(st, s2)
            return True
        return False

    def exec_try(self, s, fid, st, exits):
        inner = []
        self.raise_sinks.append(inner)
        try:
            ok = self.exec_block(s.body, fid, st, inner)
        finally:
            self.raise_sinks.pop()
        handled = []
        for ex in inner:
            if ex.kind != "raise":
                exits.append(ex)
                continue
            h = self.find_handler(s.handlers, ex.val, fid, ex.st)
            if h is None:
                exits.append(ex)
            else:
                handled.append((h, ex))
        states = []
        if ok:
            ok = self.exec_block(s.orelse, fid, st, exits)
        if ok:
            states.append(st.copy())
        for h, ex in handled:
            s2 = ex.st
            if h.name:
                s2.frames[fid][h.name] = ex.val
            s2.frames[fid]["__exc__"] = ex.val
            sub = []
            f = self.exec_block(h.body, fid, s2, sub)
            exits.extend(sub)
            if f:
                states.append(s2)
        if s.finalbody:
            raise Unsupported("finally")
        if not states:
            return False
        self.adopt(st, self.merge_many(states))
        return True

    def find_handler(self, handlers, exc, fid, st):
        for h in handlers:
            if h.type is None:
                return h
            names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for n in names:
                nm = n.id if isinstance(n, ast.Name) else n.attr
                if self.exc_matches(exc, nm):
                    return h
        return None

    EXC_PARENTS = {
        "KeyError": ("LookupError", "Exception"),
        "IndexError": ("LookupError", "Exception"),
        "ValueError": ("Exception",),
        "TypeError": ("Exception",),
        "AttributeError": ("Exception",),
        "StopIteration": ("Exception",),
        "AssertionError": ("Exception",),
        "ZeroDivisionError": ("ArithmeticError", "Exception"),
        "RuntimeError": ("Exception",),
        "FileNotFoundError": ("OSError", "Exception"),
        "Exception": (),
    }

    def exc_matches(self, exc, nm):
        c = exc.cls if isinstance(exc, ExcVal) else str(exc)
        if isinstance(c, ClassVal):
            c2 = c.name
            if c2 == nm:
                return True
            return any(self.exc_matches(ExcVal(b), nm) for b in c.bases)
        return c == nm or nm in self.EXC_PARENTS.get(c, ()) or nm == "BaseException"

    def merge_many(self, states):
        """Mutually exclusive states whose pcs share a prefix."""
        r = states[-1]
        for s in reversed(states[:-1]):
            n = 0
            while n < len(s.pc) and n < len(r.pc) and s.pc[n] is r.pc[n]:
                n += 1
            g = and_(*s.pc[n:])
            if g is TRUE:
                # fall back on the negation of the other guard
                g = not_(and_(*r.pc[n:]))
            r = self.merge_states(g, s, r)
        return r

    def eval_exc(self, e, fid, st):
        v = self.eval(e, fid, st)
        if isinstance(v, ExcVal):
            return v
        if isinstance(v, Builtin):
            return ExcVal(v.name)
        if isinstance(v, ClassVal):
            return ExcVal(v)
        if isinstance(v, Ref):
            return ExcVal(v.fam.cls)
        raise Unsupported("raise %r" % (v,))

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, fid, st):
        if isinstance(t, ast.Name):
            self.set_local(t.id, v, fid, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fid, st)
            self.lift(st, lambda s, oo: self.set_attr(s, oo, t.attr, v), o)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fid, st)
            i = self.eval_index(t.slice, fid, st)
            self.lift(st, lambda s, oo: self.lib.setitem(s, oo, i, v), o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fid, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, st, v, n, elts=None):
        if elts and any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred unpack")
        if isinstance(v, tuple):
            if len(v) != n:
                raise Raised(ExcVal("ValueError", ("unpack",)))
            return list(v)
        it = self.lib.iterate(st, v)
        k = it[0].as_int()
        if k is None:
            # assume exact length as a safety obligation
            self.safe(st, "unpack length", eq(it[0], num(n)))
            k = n
        if k != n:
            raise Raised(ExcVal("ValueError", ("unpack",)))
        return [it[1](st, num(i)) for i in range(n)]

    def set_local(self, name, v, fid, st):
        fr = st.frames[fid]
        if name in fr.get("__nonlocal__", ()):
            e = fr.get("__env__")
            while e is not None:
                if name in st.frames[e]:
                    st.frames[e][name] = v
                    return
                e = st.frames[e].get("__env__")
            raise Unsupported("global assignment")
        fr[name] = v

    def set_attr(self, st, o, attr, v):
        if isinstance(o, Ref):
            self.set_field(st, o, attr, v)
            return
        if o is None:
            raise Raised(ExcVal("AttributeError", (attr,)))
        if o is UNDEF:
            raise Unsupported("attribute of undefined")
        if isinstance(o, Opaque):
            raise OpaqueUse(o)
        raise Unsupported("setattr on %r" % (o,))

    def aug_assign(self, s, fid, st):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fid, st)
            rhs = self.eval(s.value, fid, st)
            new = self.aug(st, cur, rhs, op)
            if new is not cur or not isinstance(cur, (ArrRef, ListRef)):
                self.set_local(t.id, new, fid, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, fid, st)
            rhs = self.eval(s.value, fid, st)

            def f(s1, oo):
                cur = self.get_attr(s1, oo, t.attr)
                new = self.aug(s1, cur, rhs, op)
                self.set_attr(s1, oo, t.attr, new)

            self.lift(st, f, o)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, fid, st)
            i = self.eval_index(t.slice, fid, st)
            rhs = self.eval(s.value, fid, st)

            def f(s1, oo):
                cur = self.lib.getitem(s1, oo, i)
                new = self.aug(s1, cur, rhs, op)
                if new is not cur:
                    self.lib.setitem(s1, oo, i, new)

            self.lift(st, f, o)
            return
        raise Unsupported("augassign")

    def aug(self, st, cur, rhs, op):
        if isinstance(cur, ArrRef):
            res = self.lib.binop(st, op, cur, rhs)
            nd = self.lib.nd(st, res)
            if len(nd.shape) > len(cur.shape):
                raise Raised(ExcVal("ValueError", ("broadcast",)))
            self.arr_store(st, cur, self.lib.broadcast_getter(st, nd, cur.shape))
            return cur
        if isinstance(cur, ListRef) and op is ast.Add:
            self.lib.list_extend(st, cur, rhs)
            return cur
        if isinstance(cur, Choice):
            return self.lift(st, lambda s, c: self.aug(s, c, rhs, op), cur)
        return self.lib.binop(st, op, cur, rhs)

    # ------------------------------------------------------------------ expressions
    def load_name(self, name, fid, st):
        e = fid
        while e is not None:
            fr = st.frames[e]
            if name in fr:
                v = fr[name]
                if v is UNDEF:
                    raise Raised(ExcVal("UnboundLocalError", (name,)))
                return v
            e = fr.get("__env__")
        return self.get_global(st.frames[fid]["__mod__"], name, st)

    def eval(self, e, fid, st):
        t = type(e)
        if t is ast.Constant:
            v = e.value
            if isinstance(v, bool):
                return TRUE if v else FALSE
            if isinstance(v, (int, float)):
                return num(v)
            return v
        if t is ast.Name:
            return self.load_name(e.id, fid, st)
        if t is ast.Attribute:
            o = self.eval(e.value, fid, st)
            return self.lift(st, lambda s, oo: self.get_attr(s, oo, e.attr), o)
        if t is ast.BinOp:
            a = self.eval(e.left, fid, st)
            b = self.eval(e.right, fid, st)
            return self.binop(st, type(e.op), a, b)
        if t is ast.UnaryOp:
            v = self.eval(e.operand, fid, st)
            if isinstance(e.op, ast.Not):
                return not_(self.truth(st, v))
            return self.lib.unop(st, type(e.op), v)
        if t is ast.BoolOp:
            return self.eval_boolop(e, fid, st)
        if t is ast.Compare:
            return self.eval_compare(e, fid, st)
        if t is ast.Call:
            return self.eval_call(e, fid, st)
        if t is ast.Subscript:
            o = self.eval(e.value, fid, st)
            i = self.eval_index(e.slice, fid, st)
            return self.lift(st, lambda s, oo: self.lib.getitem(s, oo, i), o)
        if t is ast.Tuple:
            return tuple(self.eval_items(e.elts, fid, st))
        if t is ast.List:
            items = self.eval_items(e.elts, fid, st)
            return self.lib.mk_list(st, items)
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                kk = self.eval(k, fid, st)
                if not isinstance(kk, str) and not (isinstance(kk, P) and kk.const() is not None):
                    raise Unsupported("dict key")
                d[kk] = self.eval(v, fid, st)
            return PyDict(d)
        if t is ast.IfExp:
            c = self.truth(st, self.eval(e.test, fid, st))
            d = self.decide(st, c)
            if d is not None:
                return self.eval(e.body if d else e.orelse, fid, st)
            return self.split_eval(
                st, c, lambda s: self.eval(e.body, fid, s), lambda s: self.eval(e.orelse, fid, s)
            )
        if t is ast.Lambda:
            fv = FuncVal(e, st.frames[fid]["__mod__"], env=fid, name="<lambda>")
            fv.defaults = self.eval_defaults(e.args, fid, st)
            return fv
        if t in (ast.ListComp, ast.GeneratorExp):
            return self.eval_comp(e, fid, st)
        if t is ast.JoinedStr:
            parts = []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    parts.append(v.value)
                else:
                    x = self.eval(v.value, fid, st)
                    spec = ast.unparse(v.format_spec) if v.format_spec else None
                    parts.append(self.lib.to_str(st, x, spec))
            return self.lib.strcat(parts)
        if t is ast.Starred:
            raise Unsupported("starred")
        if t is ast.NamedExpr:
            v = self.eval(e.value, fid, st)
            self.assign(e.target, v, fid, st)
            return v
        if t is ast.Slice:
            return self.eval_index(e, fid, st)
        raise Unsupported("expression %s" % t.__name__)

    def eval_items(self, elts, fid, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fid, st)
                n, g = self.lib.iterate(st, v)
                k = n.as_int()
                if k is None:
                    raise Unsupported("starred of symbolic length")
                out.extend(g(st, num(i)) for i in range(k))
            else:
                out.append(self.eval(x, fid, st))
        return out

    def split_eval(self, st, c, fa, fb):
        s1, s2 = st.copy(), st.copy()
        s1.branch(c)
        s2.branch(not_(c))
        e1 = e2 = None
        a = b = None
        try:
            a = fa(s1)
        except Raised as e:
            e1 = e
        try:
            b = fb(s2)
        except Raised as e:
            e2 = e
        if e1 and e2:
            raise e1
        if e1:
            self.record_raise(st, c, e1.exc)
            self.adopt(st, s2)
            return b
        if e2:
            self.record_raise(st, not_(c), e2.exc)
            self.adopt(st, s1)
            return a
        self.adopt(st, self.merge_states(c, s1, s2))
        return mk_choice(c, a, b)

    def eval_boolop(self, e, fid, st):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], fid, st)
        for x in e.values[1:]:
            c = self.truth(st, v)
            d = self.decide(st, c)
            if d is not None:
                if d == isand:
                    v = self.eval(x, fid, st)
                    continue
                return v if not isinstance(v, (B,)) else c
            cur = v
            cond = c if isand else not_(c)
            short = FALSE if isand else TRUE
            keep = short if isinstance(cur, B) else cur
            v = self.split_eval(
                st, cond, lambda s: self._as_truthy(s, self.eval(x, fid, s), keep), lambda s: keep
            )
        return v

    def _as_truthy(self, st, v, keep):
        if isinstance(keep, B) and not isinstance(v, B):
            return self.truth(st, v)
        return v

    def eval_compare(self, e, fid, st):
        left = self.eval(e.left, fid, st)
        res = None
        for op, right in zip(e.ops, e.comparators):
            r = self.eval(right, fid, st)
            c = self.lib.compare(st, type(op), left, r)
            if res is None:
                res = c
            else:
                res = and_(self.truth(st, res), self.truth(st, c))
            left = r
        return res

    def eval_index(self, e, fid, st):
        if isinstance(e, ast.Slice):
            return SliceVal(
                self.eval(e.lower, fid, st) if e.lower else None,
                self.eval(e.upper, fid, st) if e.upper else None,
                self.eval(e.step, fid, st) if e.step else None,
            )
        if isinstance(e, ast.Tuple):
            return tuple(self.eval_index(x, fid, st) for x in e.elts)
        return self.eval(e, fid, st)

    def eval_comp(self, e, fid, st):
        out = self.lib.mk_list(st, [])
        st.frames[fid]["__comp_%d" % id(e)] = out
        name = "__comp_%d" % id(e)
        body = [
            ast.Expr(
                ast.Call(
                    func=ast.Attribute(value=ast.Name(id=name, ctx=ast.Load()), attr="append", ctx=ast.Load()),
                    args=[e.elt],
                    keywords=[],
                )
            )
        ]
        for g in reversed(e.generators):
            for cnd in reversed(g.ifs):
                body = [ast.If(test=cnd, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        exits = []
        ok = self.exec_block(body, fid, st, exits)
        for x in exits:
            if x.kind == "raise":
                if not ok:
                    raise Raised(x.val)
                self.raise_log(and_(*x.st.pc), x.val, x.st)
        return out

    def binop(self, st, op, a, b):
        return self.lib.binop(st, op, a, b)

    # ------------------------------------------------------------------ attributes
    def get_attr(self, st, o, attr):
        if isinstance(o, Ref):
            if attr == "__dict__":
                raise Unsupported("__dict__")
            if attr == "__class__":
                return o.fam.cls
            v = self.get_field(st, o, attr)
            if v is UNDEF:
                raise Raised(ExcVal("AttributeError", (attr,)))
            if v is not None or (o.fam, attr) in st.fields:
                return v
            cls = o.fam.cls
            if isinstance(cls, ClassVal):
                m = self.class_member(cls, attr)
                if m is not None:
                    if m[0] == "prop":
                        return self.call_func(st, m[1], [o], {})
                    if m[0] == "method":
                        if getattr(m[1], "static", False):
                            return m[1]
                        return BoundMethod(m[1], o)
                    return self.get_class_attr(m[1], attr, st)
            else:
                v = self.lib.obj_attr(st, o, attr)
                if v is not None:
                    return v
            if o.fam.partial:
                raise Unsupported("attribute %s, which the contract does not describe" % attr)
            raise Raised(ExcVal("AttributeError", (attr,)))
        if isinstance(o, ModuleVal):
            if hasattr(o, "tree"):
                return self.get_global(o, attr, st)
            if o.name == self.package:
                return self.module(attr)
            return self.lib.module_attr(o, attr)
        if isinstance(o, ClassVal):
            if attr in o.methods:
                return o.methods[attr]
            if attr == "__name__":
                return o.name
            if attr in o.attrs:
                return self.get_class_attr(o, attr, st)
            raise Raised(ExcVal("AttributeError", (attr,)))
        if o is None:
            raise Raised(ExcVal("AttributeError", ("None.%s" % attr,)))
        if isinstance(o, Opaque):
            raise OpaqueUse(o)
        return self.lib.value_attr(st, o, attr)

    def class_member(self, cls, attr):
        if attr in cls.props:
            return ("prop", cls.props[attr])
        if attr in cls.methods:
            return ("method", cls.methods[attr])
        if attr in cls.attrs:
            return ("attr", cls)
        for b in cls.bases:
            bv = cls.mod.attrs.get(b)
            if isinstance(bv, ClassVal):
                r = self.class_member(bv, attr)
                if r is not None:
                    return r
        return None

    def get_class_attr(self, cls, attr, st):
        v = cls.attrs[attr]
        if isinstance(v, tuple) and v and v[0] == "lazyexpr":
            fid = self.new_frame(st)
            st.frames[fid]["__mod__"] = v[2]
            return self.eval(v[1], fid, st)
        return v

    # ------------------------------------------------------------------ calls
    def eval_call(self, e, fid, st):
        f = self.eval(e.func, fid, st)
        args = self.eval_items(e.args, fid, st)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fid, st)
                if not isinstance(d, PyDict):
                    raise Unsupported("**kwargs")
                kw.update(d.items)
            else:
                kw[k.arg] = self.eval(k.value, fid, st)
        return self.call(st, f, args, kw)

    def call(self, st, f, args, kw):
        if isinstance(f, Choice):
            return self.lift(st, lambda s, ff: self.call(s, ff, args, kw), f)
        if isinstance(f, FuncVal):
            return self.call_func(st, f, args, kw)
        if isinstance(f, BoundMethod):
            if isinstance(f.func, Builtin):
                return f.func.fn(st, f.self_, *args, **kw)
            return self.call_func(st, f.func, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(st, *args, **kw)
        if isinstance(f, ClassVal):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, SymFun):
            if f.state:
                return f.fn(self, st, *f.idx, *args, **kw)
            return f.fn(*f.idx, *args, **kw)
        if f is None:
            raise Raised(ExcVal("TypeError", ("NoneType not callable",)))
        if isinstance(f, Ref) and isinstance(f.fam.cls, ClassVal):
            m = self.class_member(f.fam.cls, "__call__")
            if m:
                return self.call_func(st, m[1], [f] + list(args), kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, st, cls, args, kw):
        if any(b in ("Exception", "BaseException") or b in self.EXC_PARENTS for b in cls.bases):
            return ExcVal(cls, args)
        o = self.new_obj(st, cls)
        m = self.class_member(cls, "__init__")
        if m is not None:
            self.call_func(st, m[1], [o] + list(args), kw)
        return o

    def eval_defaults(self, a, fid, st):
        d = {}
        pos = a.posonlyargs + a.args
        for p, x in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
            d[p.arg] = self.eval(x, fid, st)
        for p, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None:
                d[p.arg] = self.eval(x, fid, st)
        return d

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise Raised(ExcVal("TypeError", ("too many arguments",)))
            env[a.vararg.arg] = tuple(args[len(names) :])
            args = args[: len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k in env:
                raise Raised(ExcVal("TypeError", ("duplicate argument " + k,)))
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                if a.kwarg is None:
                    raise Raised(ExcVal("TypeError", ("unexpected argument " + k,)))
                env.setdefault(a.kwarg.arg, PyDict({}))
                env[a.kwarg.arg].items[k] = v
            else:
                env[k] = v
        if a.kwarg is not None:
            env.setdefault(a.kwarg.arg, PyDict({}))
        missing = [n for n in names + [x.arg for x in a.kwonlyargs] if n not in env]
        if missing:
            if f.defaults is not None:
                d = f.defaults
            else:
                saved, self.binders = self.binders, []
                fid = self.new_frame(st)
                st.frames[fid]["__mod__"] = f.mod
                d = self.eval_defaults(a, fid, st)
                del st.frames[fid]
                self.binders = saved
            for n in missing:
                if n not in d:
                    raise Raised(ExcVal("TypeError", ("missing argument " + n,)))
                env[n] = d[n]
        return env

    def call_func(self, st, f, args, kw):
        q = f.qual
        env = self.bind_args(st, f, args, kw)
        summ = self.summaries.get(q)
        if summ is not None:
            self.calls_seen[q] = self.calls_seen.get(q, 0) + 1
            return summ(self, st, env)
        self.functions_executed[q] = f
        if self.depth > 60:
            raise Unsupported("recursion depth")
        if isinstance(f.node, ast.Lambda):
            fid = self.new_frame(st)
            st.frames[fid].update(env)
            st.frames[fid]["__mod__"] = f.mod
            st.frames[fid]["__env__"] = f.env
            return self.eval(f.node.body, fid, st)
        fid = self.new_frame(st)
        st.frames[fid].update(env)
        st.frames[fid]["__mod__"] = f.mod
        if f.env is not None:
            st.frames[fid]["__env__"] = f.env
        exits = []
        self.cur.append(q)
        self.depth += 1
        try:
            ok = self.exec_block(f.node.body, fid, st, exits)
        finally:
            self.depth -= 1
            self.cur.pop()
        outs = []
        for ex in exits:
            if ex.kind == "return":
                outs.append((ex.val, ex.st))
        if ok:
            outs.append((None, st.copy()))
        rs = [ex for ex in exits if ex.kind == "raise"]
        if not outs:
            if len(rs) == 1:
                self.adopt(st, rs[0].st)
                raise Raised(rs[0].val)
            # all raise: log all but one
            if not rs:
                raise Unsupported("no exit")
            for ex in rs[:-1]:
                self.raise_log(and_(*ex.st.pc), ex.val, ex.st)
            self.adopt(st, rs[-1].st)
            raise Raised(rs[-1].val)
        self.pending_raises(rs, st)
        val, s = outs[-1]
        for v2, s2 in reversed(outs[:-1]):
            n = 0
            while n < len(s2.pc) and n < len(s.pc) and s2.pc[n] is s.pc[n]:
                n += 1
            g = and_(*s2.pc[n:])
            if g is TRUE:
                g = not_(and_(*s.pc[n:]))
            val = mk_choice(g, v2, val)
            s = self.merge_states(g, s2, s)
        self.adopt(st, s)
        # drop the frame unless captured by a closure
        if not self.captured(st, fid):
            st.frames.pop(fid, None)
        return val

    def captured(self, st, fid):
        fr = st.frames.get(fid, {})
        for v in fr.values():
            if isinstance(v, FuncVal) and v.env == fid:
                return True
        return False

    def pending_raises(self, rs, st):
        """Raise exits of a callee that also has normal exits.  Inside a try
        block they must reach the handler, so they are kept as exits of the
        statement through self.raise_sink."""
        for ex in rs:
            if self.raise_sinks and self.raise_sinks[-1] is not None:
                self.raise_sinks[-1].append(ex)
            else:
                self.raise_log(and_(*ex.st.pc), ex.val, ex.st)

    # ------------------------------------------------------------------ loops
    def exec_while(self, s, fid, st, exits):
        # concrete unrolling while decidable
        for i in range(200):
            c = self.truth(st, self.eval(s.test, fid, st))
            d = self.decide(st, c)
            if d is False:
                return True
            if d is None:
                break
            inner = []
            ok = self.exec_block(s.body, fid, st, inner)
            if any(x.kind == "break" for x in inner):
                # decided conditions only
                outs = [x for x in inner if x.kind == "break"]
                rest = [x for x in inner if x.kind not in ("break", "continue")]
                exits.extend(rest)
                if ok or len(outs) > 1 or any(x.kind == "continue" for x in inner):
                    raise Unsupported("undecided break in while")
                self.adopt(st, outs[0].st)
                return True
            conts = [x.st for x in inner if x.kind == "continue"]
            exits.extend(x for x in inner if x.kind not in ("continue",))
            if conts:
                if ok:
                    conts.append(st.copy())
                self.adopt(st, self.merge_many(conts))
                ok = True
            if not ok:
                return False
        else:
            raise Unsupported("while unrolling limit")
        # counter pattern
        t = s.test
        if (
            isinstance(t, ast.Compare)
            and len(t.ops) == 1
            and isinstance(t.ops[0], (ast.Lt, ast.LtE))
            and isinstance(t.left, ast.Name)
        ):
            name = t.left.id
            i0 = self.load_name(name, fid, st)
            hi = self.eval(t.comparators[0], fid, st)
            if isinstance(i0, P) and isinstance(hi, P) and i0.is_int and hi.is_int:
                n = hi - i0 + (ONE if isinstance(t.ops[0], ast.LtE) else ZERO)
                if not entails(st.allfacts(), ge(n, ZERO)):
                    n = maxv(n, ZERO)
                from loops import LoopRule

                lr = LoopRule(self, fid, st, n, None, s.body, exits, wcounter=(name, i0, s.test))
                return lr.run()
        raise Unsupported("while loop")

    def exec_for(self, s, fid, st, exits):
        it = self.eval(s.iter, fid, st)
        return self.lift(
            st, lambda s1, v: self.exec_for_over(s, fid, s1, exits, v), it
        ) is not False

    def exec_for_over(self, s, fid, st, exits, itv):
        n, elem = self.lib.iterate(st, itv)
        if s.orelse:
            raise Unsupported("for-else")
        k = n.as_int()
        if k is None:
            # a symbolic trip count that is decided by the context
            for j in (0, 1):
                if entails(st.allfacts(), eq(n, num(j))):
                    k = j
                    break
        if k is not None and k <= max(MAX_UNROLL, self.force_unroll):
            brk = []
            for i in range(k):
                v = elem(st, num(i))
                self.assign(s.target, v, fid, st)
                inner = []
                ok = self.exec_block(s.body, fid, st, inner)
                nxt = [st.copy()] if ok else []
                for ex in inner:
                    if ex.kind == "continue":
                        nxt.append(ex.st)
                    elif ex.kind == "break":
                        brk.append(ex.st)
                    else:
                        exits.append(ex)
                if not nxt:
                    if not brk:
                        return False
                    st2 = None
                    break
                self.adopt(st, self.merge_many(nxt))
            else:
                st2 = st
            if brk:
                allst = ([st.copy()] if st2 is not None else []) + brk
                self.adopt(st, self.merge_many(allst))
            return True
        from loops import LoopRule

        lr = LoopRule(self, fid, st, n, (s.target, elem), s.body, exits)
        return lr.run()

    # ------------------------------------------------------------------ safety
    def safe(self, st, text, b):
        """Record that b must hold here (then assume it)."""
        if b is TRUE or not self.safety_on:
            return
        facts = st.allfacts()
        if entails(facts, b):
            self.safety.append((text, facts, b, True))
            return
        self.safety.append((text, facts, b, None))
        st.assume(b)


def preds_in(v):
    out = []
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, B):
            if x.op == "pred":
                out.append(x)
            for y in x.args:
                if isinstance(y, (B, P)):
                    walk(y)
        elif isinstance(x, P):
            for m in x.t:
                for a, e in m:
                    for y in a.args:
                        if isinstance(y, (B, P)):
                            walk(y)

    if isinstance(v, (B, P)):
        walk(v)
    return out
