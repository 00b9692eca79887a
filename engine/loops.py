"""Summaries of loops with a symbolic number of iterations.

For everything the body changes a closed form in the iteration number k is
inferred from one generic iteration and then checked by executing the body once
more from the closed form at k and proving that it produces the closed form at
k+1 (the loop invariant is inferred, its preservation is an obligation)."""
import ast
from values import *  # noqa
import values as V
import terms as T
from prover import entails, decide, with_facts, prove_eq, prove_bool
from interp import LoopCtx, Exit, PathDead


class LoopFail(Unsupported):
    pass


def _fkey(k):
    return (k[0].id, k[1])


def has_old(v, ctx, key=None):
    """Does v mention OLD markers of ctx (for a given key)?"""
    pre = "OLD!%d!" % ctx.id
    if isinstance(v, (P, B)):
        for a in free_atoms(v):
            if a.op == "app" and isinstance(a.args[0], str) and a.args[0].startswith(pre):
                if key is None or ctx.names[a.args[0]][0] == key:
                    return True
        from interp import preds_in

        for b in preds_in(v):
            if b.args[0].startswith(pre):
                if key is None or ctx.names[b.args[0]][0] == key:
                    return True
        return False
    if isinstance(v, OldVal):
        return v.ctx == ctx.id and (key is None or ctx.names[v.key][0] == key)
    if isinstance(v, Choice):
        return has_old(v.c, ctx, key) or has_old(v.a, ctx, key) or has_old(v.b, ctx, key)
    if isinstance(v, tuple):
        return any(has_old(x, ctx, key) for x in v)
    if isinstance(v, (Ref, ListRef)):
        return any(has_old(x, ctx, key) for x in v.owner)
    if isinstance(v, ArrRef):
        return any(has_old(x, ctx, key) for x in v.owner) or any(has_old(a[1], ctx, key) for a in v.axes if a[0] == "pt")
    return False


def contains_var(v, va):
    if isinstance(v, (P, B)):
        return va in free_atoms(v)
    if isinstance(v, (Ref, ListRef)):
        return any(contains_var(x, va) for x in v.owner)
    if isinstance(v, ArrRef):
        return (
            any(contains_var(x, va) for x in v.owner)
            or any(contains_var(a[1] if a[0] == "pt" else a[2], va) for a in v.axes)
            or any(contains_var(s, va) for s in v.shape)
        )
    if isinstance(v, Choice):
        return contains_var(v.c, va) or contains_var(v.a, va) or contains_var(v.b, va)
    if isinstance(v, tuple):
        return any(contains_var(x, va) for x in v)
    if isinstance(v, SStr):
        return contains_var(v.p, va)
    if isinstance(v, OldVal):
        return any(contains_var(x, va) for x in v.idx)
    return False


class LoopRule:
    MAXPASS = 14

    def __init__(self, I, fid, st, n, target, body, exits, wcounter=None):
        self.I, self.fid, self.st, self.n = I, fid, st, to_p(n)
        self.target, self.body, self.exits = target, body, exits
        self.wcounter = wcounter
        self.pre = st.copy()
        if self.n.as_int() is None:
            k = fresh("k", "int", ZERO, self.n)
        else:
            k = fresh("k", "int", ZERO, self.n)
        self.k = k
        self.ka = T.only_atom(k)
        self.locals = {}  # (fid, name) -> placeholder P or Opaque
        self.scal = {}  # (fid,name) -> closed(k) function  P->value
        self.bufs = set()
        self.fields = set()
        self.lens = {}  # bufid -> closed len function (vars generic) k->P
        self.larr = {}  # (fid,name) -> carried array descriptor
        self.given = {}  # (fid,name) -> value at iteration k, by the contract's loop invariant
        self.aliases = {}
        self.closed = {}  # key -> candidate content for 'closed' mode
        self.mode = {}
        self.fam0 = Fam.n
        self.buf0 = Buf.n

    # ------------------------------------------------------------ helpers
    def frames(self):
        out = []
        e = self.fid
        while e is not None:
            out.append(e)
            e = self.pre.frames[e].get("__env__")
        return out

    def lget(self, st, lk):
        if lk[0] == "fld":
            fm = st.fields.get(lk[1])
            return UNDEF if fm is None else fm.val
        return st.frames[lk[0]].get(lk[1], UNDEF)

    def lset(self, st, lk, v):
        if lk[0] == "fld":
            st.fields[lk[1]] = FieldMap(lk[1][0].vars, v)
        else:
            st.frames[lk[0]][lk[1]] = v

    def key_len(self, bid):
        return ("len", bid)

    def start_state(self, final):
        """State at the beginning of iteration k."""
        I = self.I
        s = self.pre.copy()
        ctx = LoopCtx()
        ctx.pre = self.pre
        ctx.names = {}
        ctx.mode = dict(self.mode)
        ctx.rule = self
        self.ctx = ctx
        for (f, nm), ph in self.locals.items():
            if (f, nm) in self.given:
                s.frames[f][nm] = self.given[(f, nm)](I, s, self.k)
            elif (f, nm) in self.larr:
                s.frames[f][nm] = self.larr_placeholder(s, ctx, f, nm)
            elif (f, nm) in self.scal and final:
                s.frames[f][nm] = self.scal[(f, nm)](self.k)
            else:
                s.frames[f][nm] = ph
        for bid in sorted(self.bufs):
            c = self.pre.bufs[bid]
            buf = self.bufobj[bid]
            key = ("buf", bid)
            ctx.keys[key] = (buf, c)
            vargs = tuple(ap(v) for v in buf.vars)
            if buf.kind == "list" and bid in self.lens_changed:
                if final and bid in self.lens:
                    ln = self.lens[bid](self.k)
                else:
                    ln = T.app("OLDLEN!%d!%d" % (ctx.id, bid), *vargs, sort="int")
                T.NONNEG_APPS.add("OLDLEN!%d!%d" % (ctx.id, bid))
                iv = T.only_atom(fresh("i", "int", ZERO, None))
                if c.shape[0].as_int() == 0:
                    sample = None
                else:
                    sample = I.generic_elem(c, ap(iv))
                hint = self.elem_kind.get(bid)
                v = self.old_marker(ctx, key, (), sample if sample is not None else hint, vargs + (ap(iv),))
                s.bufs[bid] = BufC((ln,), (iv,), {(): v})
                continue
            table = {}
            ivs = []
            for a in c.ivars:
                ivs.append(a)
            for tk, v in c.table.items():
                args = vargs + tuple(ap(a) for a in ivs if a is not None)
                table[tk] = self.old_marker(ctx, key, tk, v, args)
            s.bufs[bid] = BufC(c.shape, c.ivars, table)
        for fk in sorted(self.fields, key=_fkey):
            if ("fld", fk) in self.larr:
                continue
            fm = self.pre.fields.get(fk)
            key = ("fld", fk)
            if fm is None:
                fm = FieldMap(fk[0].vars, UNDEF)
            ctx.keys[key] = fm
            v = self.old_marker(ctx, key, "f", fm.val, tuple(ap(x) for x in fm.vars))
            s.fields[fk] = FieldMap(fm.vars, v)
        for lk in self.larr:
            if lk[0] == "fld":
                self.lset(s, lk, self.larr_placeholder(s, ctx, *lk))
        for key in list(ctx.keys):
            ctx.mode.setdefault(key, "opt")
        return s, ctx

    def old_marker(self, ctx, key, tk, sample, args):
        nm = "OLD!%d!%s!%s" % (ctx.id, key[1] if key[0] == "buf" else "%s.%s" % (key[1][0].id, key[1][1]), tk)
        ctx.names[nm] = (key, tk)
        if isinstance(sample, P):
            sort = "int" if sample.is_int and key not in self.real_keys else "real"
            return T.app(nm, *args, sort=sort)
        if isinstance(sample, B):
            return T.pred(nm, *args)
        return OldVal(ctx.id, nm, args)

    def larr_placeholder(self, s, ctx, f, nm):
        d = self.larr[(f, nm)]
        key = ("buf", d["buf"].id)
        ctx.mode[key] = "larr"
        shape = tuple(d["dims_final"](self.k) if d.get("dims_final") and self.final else d["dims"]) if "dims" in d else d["shape"]
        ivs, table = [], {}
        import itertools

        conc = []
        for sh in shape:
            c = sh.as_int()
            if c is not None and c <= V.CONC:
                ivs.append(None)
                conc.append(range(c))
            else:
                ivs.append(T.only_atom(fresh("i", "int", ZERO, None)))
        sample = d["sample"]
        for tk in itertools.product(*conc):
            args = tuple(ap(a) for a in ivs if a is not None)
            table[tk] = self.old_marker(ctx, key, tk, sample, args)
        c = BufC(shape, tuple(ivs), table)
        s.bufs[d["buf"].id] = c
        ctx.keys[key] = (d["buf"], d["precontent"])
        ctx.larr_c = getattr(ctx, "larr_c", {})
        ctx.larr_c[(f, nm)] = c
        if d["kind"] == "list":
            return ListRef(d["buf"], ())
        return ArrRef(d["buf"], (), tuple(("ax", i, ZERO, 1) for i in range(len(shape))), shape)

    # ------------------------------------------------------------ one body run
    def run_body(self, final):
        I = self.I
        self.final = final
        s, ctx = self.start_state(final)
        self.start = s.copy()
        saved = (len(I.raises), len(I.safety), len(I.solve_facts), len(I.events))
        so = I.safety_on
        I.safety_on = so and final
        I.binders.append(self.ka)
        I.loops.append(ctx)
        sink = []
        I.raise_sinks.append(sink)
        inner = []
        npc = len(s.pc)
        # n > k >= 0, so the trip count is positive inside
        s.assume(ge(self.k, ZERO))
        s.assume(lt(self.k, self.n))
        if not final:
            # optimistic hint for the inference passes only; the final pass
            # runs from the inferred closed forms and does not use it
            for (f, nm), ph in self.locals.items():
                if isinstance(ph, P) and ph.is_int and (f, nm) not in self.larr:
                    x0 = self.pre.frames[f].get(nm, UNDEF)
                    if isinstance(x0, P) and entails(self.pre.allfacts(), ge(x0, ZERO)):
                        s.assume(ge(ph, ZERO))
        nf = len(s.facts)
        try:
            if self.target is not None:
                tgt, elem = self.target
                I.assign(tgt, elem(s, self.k), self.fid, s)
            ok = I.exec_block(self.body, self.fid, s, inner)
        finally:
            I.raise_sinks.pop()
            I.loops.pop()
            I.binders.pop()
            I.safety_on = so
        nxt = [s] if ok else []
        raises = list(sink)
        for ex in inner:
            if ex.kind == "continue":
                nxt.append(ex.st)
            elif ex.kind == "raise":
                raises.append(ex)
            else:
                raise LoopFail("%s inside a loop of symbolic length" % ex.kind)
        if not nxt:
            raise LoopFail("loop body never completes: %s" % [(x.kind, x.val) for x in raises][:3])
        post = I.merge_many(nxt) if len(nxt) > 1 else nxt[0]
        new_r = I.raises[saved[0]:]
        del I.raises[saved[0]:]
        if not final:
            del I.safety[saved[1]:]
        del_s = I.solve_facts[saved[2]:]
        if not final:
            del I.solve_facts[saved[2]:]
            del I.events[saved[3]:]
        self.raw_raises = new_r
        self.raise_exits = raises
        self.npc, self.nf = npc, nf
        return s if len(nxt) == 1 and ok else post, post

    # ------------------------------------------------------------ main
    def run(self):
        I = self.I
        self.lens_changed = set()
        self.bufobj = {}
        self.elem_kind = {}
        self.real_keys = set()
        self.opaque_locals = set()
        d = decide(self.pre.allfacts(), gt(self.n, ZERO))
        if d is False:
            return True
        self.nonempty = d is True
        # buffer objects reachable: id -> Buf
        self.collect_bufs()
        # what earlier analyses of the same loop found (only a starting point)
        hint = I.loop_hints.setdefault(id(self.body), dict(body=self.body, fields=set(), larr=set(), bufs=set(), mode={}))
        self.hint = hint
        for fk in hint["fields"]:
            if fk[0].id <= self.fam0 and fk in self.pre.fields:
                self.fields.add(fk)
        for bid in hint["bufs"]:
            if bid in self.bufobj and bid in self.pre.bufs and bid <= self.buf0:
                self.bufs.add(bid)
        for k_, m_ in hint["mode"].items():
            if (k_[0] == "fld" and k_[1] in self.fields) or (k_[0] == "buf" and k_[1] in self.bufs):
                self.mode[k_] = m_
        for lk in sorted(hint["larr"], key=lambda k: _fkey(k[1])):
            if lk[1] in self.fields and lk not in self.larr:
                v = self.lget(self.pre, lk)
                if isinstance(v, (ArrRef, ListRef)):
                    for _ in range(4):
                        try:
                            self.make_larr("fld", lk[1], v)
                            break
                        except OpaqueUse as e:
                            self.larr.pop(lk, None)
                            try:
                                if not self.handle_opaque(e):
                                    break
                            except OpaqueUse:
                                break
        for attempt in range(self.MAXPASS):
            try:
                if not self.discover():
                    continue
                self.infer()
                r = self.finalise()
                if r:
                    hint["fields"] |= self.fields
                    hint["bufs"] |= self.bufs - self.lens_changed
                    hint["larr"] |= {k for k in self.larr if k[0] == "fld"}
                    hint["mode"].update(self.mode)
                    return True
            except OpaqueUse as e:
                if not self.handle_opaque(e):
                    raise
        raise LoopFail("loop summary did not stabilise")

    def handle_opaque(self, e):
        key = e.o.key
        if isinstance(key, tuple) and key and key[0] == "local":
            f, nm = key[1], key[2]
            if (f, nm) in self.larr or (f, nm) in self.given:
                return False
            inv = self.I.loop_inv.get(self.I.cur[-1]) if self.I.cur else None
            if inv is not None:
                self.given[(f, nm)] = inv
                return True
            v = self.pre.frames[f].get(nm, UNDEF)
            if isinstance(v, ArrRef) or isinstance(v, ListRef):
                return self.make_larr(f, nm, v)
            return False
        if isinstance(key, tuple) and key and key[0] == "fld" and key[1] in self.fields and key not in self.larr:
            v = self.lget(self.pre, key)
            if isinstance(v, (ArrRef, ListRef)) and all(x in self.I.binders for x in key[1][0].vars):
                return self.make_larr("fld", key[1], v)
        return False

    def collect_bufs(self):
        seen = {}

        def walk(v):
            if isinstance(v, (ArrRef, ListRef)):
                if v.buf.id not in seen:
                    seen[v.buf.id] = v.buf
                    c = self.pre.bufs.get(v.buf.id)
                    if c is not None:
                        for x in c.table.values():
                            walk(x)
            elif isinstance(v, Choice):
                walk(v.a)
                walk(v.b)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
            elif isinstance(v, PyDict):
                for x in v.items.values():
                    walk(x)
            elif isinstance(v, BoundMethod):
                walk(v.self_)

        for fr in self.pre.frames.values():
            for v in fr.values():
                walk(v)
        for fm in self.pre.fields.values():
            walk(fm.val)
        self.bufobj.update(seen)

    def new_key(self, pre_obj):
        return True

    def discover(self):
        """Grow the sets of changed locations; True if stable."""
        for _ in range(10):
            s, post = self.run_body(False)
            if not self.changed(post):
                self.post = post
                return True
        raise LoopFail("changed set did not stabilise")

    def changed(self, post):
        ch = False
        for f in self.frames():
            a, b = self.start.frames[f], post.frames.get(f, {})
            for nm, v in b.items():
                if nm.startswith("__") and not nm.startswith("__comp"):
                    continue
                if nm in a and (a[nm] is v or V.same_value(a[nm], v)):
                    continue
                if nm not in a:
                    # local first assigned in the loop
                    if (f, nm) not in self.locals:
                        self.locals[(f, nm)] = UNDEF
                        # no placeholder needed unless read before written
                    continue
                if (f, nm) in self.given:
                    continue
                if (f, nm) not in self.locals:
                    self.locals[(f, nm)] = self.placeholder(f, nm, self.pre.frames[f][nm], v)
                    ch = True
                elif isinstance(self.locals[(f, nm)], P) and isinstance(v, P):
                    ph = self.locals[(f, nm)]
                    if ph.is_int and not v.is_int:
                        self.locals[(f, nm)] = fresh(nm + "_old", "real")
                        ch = True
                elif isinstance(self.locals[(f, nm)], P) and not isinstance(v, P):
                    self.locals[(f, nm)] = Opaque("loop variable " + nm, ("local", f, nm))
                    ch = True
        for fk, fm in post.fields.items():
            if self.start.fields.get(fk) is fm:
                continue
            if fk[0].id > self.fam0 or ("fld", fk) in self.larr:
                continue
            a = self.start.fields.get(fk)
            if a is not None and a.val is fm.val and a.vars == fm.vars:
                continue
            if a is not None and V.same_value(a.val, fm.val):
                continue
            if fk not in self.fields:
                if a is None and fk[0].lazy is not None and not self.field_written(fm, fk):
                    continue
                self.fields.add(fk)
                ch = True
        for bid, c in post.bufs.items():
            a = self.start.bufs.get(bid)
            if a is c or a is None:
                continue
            if bid > self.buf0 and bid not in self.larr_ids():
                continue
            if bid in self.larr_ids():
                if a is not c:
                    raise LoopFail("in-place change of a growing array")
                continue
            if a.shape == c.shape and all(a.table[k] is c.table[k] for k in a.table if k in c.table) and len(a.table) == len(c.table):
                continue
            if bid not in self.bufs:
                if bid not in self.bufobj:
                    raise LoopFail("unknown buffer changed")
                self.bufs.add(bid)
                ch = True
            if not (len(a.shape) == len(c.shape) and all(x is y for x, y in zip(a.shape, c.shape))):
                if bid not in self.lens_changed:
                    self.lens_changed.add(bid)
                    ch = True
            # dtype hints for lists that start empty
            if bid in self.lens_changed and bid not in self.elem_kind:
                for g, leaf in self.cases_val(c.table.get((), UNDEF) if c.ivars[0] is not None else list(c.table.values())[-1]):
                    if isinstance(leaf, P):
                        self.elem_kind[bid] = leaf
                        self.real_keys.add(("buf", bid))
                        ch = True
                    elif isinstance(leaf, B):
                        self.elem_kind[bid] = leaf
                        ch = True
            if bid in self.bufs and ("buf", bid) not in self.real_keys and self.bufobj[bid].dtype != "int":
                pc = self.pre.bufs[bid]
                if any(isinstance(v, P) and v.is_int for v in pc.table.values()):
                    self.real_keys.add(("buf", bid))
                    ch = True
        for fk in sorted(self.fields, key=_fkey):
            if ("fld", fk) in self.larr:
                continue
            key = ("fld", fk)
            fm0 = self.pre.fields.get(fk)
            if fm0 is not None and isinstance(fm0.val, P) and fm0.val.is_int and key not in self.real_keys:
                v = post.fields[fk].val
                if isinstance(v, P) and not v.is_int:
                    self.real_keys.add(key)
                    ch = True
        return ch

    def larr_ids(self):
        return {d["buf"].id for d in self.larr.values()}

    def field_written(self, fm, fk):
        lz = fk[0].lazy(self.I, self.pre, fk[0], fk[1])
        return lz is None or not V.same_value(lz.val, fm.val) and lz.val is not fm.val

    def cases_val(self, v, g=TRUE):
        if isinstance(v, Choice):
            yield from self.cases_val(v.a, and_(g, v.c))
            yield from self.cases_val(v.b, and_(g, not_(v.c)))
        else:
            yield g, v

    def placeholder(self, f, nm, old, new):
        if isinstance(old, P) and isinstance(new, P):
            return fresh(nm + "_old", "int" if old.is_int and new.is_int else "real")
        if isinstance(old, B) and isinstance(new, B):
            return T.pred("%s_old!%d" % (nm, T._fresh[0]))
        return Opaque("loop variable " + nm, ("local", f, nm))

    # ------------------------------------------------------------ scalars
    def infer(self):
        """Closed forms of scalar locals and list lengths."""
        post = self.post
        I = self.I
        self.scal = {}
        todo = {}
        phs = {}
        for (f, nm), ph in self.locals.items():
            if (f, nm) in self.larr:
                continue
            if isinstance(ph, (P, B)):
                phs[T.only_atom(ph) if isinstance(ph, P) else ph] = (f, nm)
                todo[(f, nm)] = post.frames[f].get(nm)
        lens = {}
        for bid in sorted(self.lens_changed):
            c = post.bufs[bid]
            lens[bid] = c.shape[0]
        dims = {}
        for key, d in self.larr.items():
            for j, dp in enumerate(d["dims"]):
                if dp.as_int() is None and d["vary"][j]:
                    dims[(key, j)] = (dp, self.larr_post(key, d)[0][j])
        k1 = ap(self.ka)
        resolved = {}  # atom/B -> P in k
        self.lens = {}
        for rnd in range(12):
            prog = False
            for key in list(todo):
                v = todo[key]
                ph = self.locals[key]
                if not isinstance(v, (P, B)):
                    continue
                v = subst(v, resolved) if resolved else v
                cl = self.close_scalar(ph, v, phs, resolved, self.pre.frames[key[0]].get(key[1], UNDEF), key)
                if cl is not None:
                    self.scal[key] = cl
                    resolved[T.only_atom(ph) if isinstance(ph, P) else ph] = cl(self.k)
                    del todo[key]
                    prog = True
            for bid in list(lens):
                r = self.close_len(bid, lens[bid], resolved, phs)
                if r is not None:
                    self.lens[bid] = r
                    del lens[bid]
                    prog = True
                    nm = "OLDLEN!%d!%d" % (self.ctx.id, bid)
                    self.len_names = getattr(self, "len_names", {})
            for dk in list(dims):
                dp, pv = dims[dk]
                v = subst(pv, resolved) if resolved else pv
                dlt = self.delta(v, dp)
                if dlt is None or any(a in phs or a is T.only_atom(dp) for a in free_atoms(dlt)):
                    continue
                (key, j) = dk
                d = self.larr[key]
                x0 = d["shape"][j]
                d.setdefault("cl", {})[j] = self.acc_fn(x0, dlt)
                resolved[T.only_atom(dp)] = d["cl"][j](self.k)
                del dims[dk]
                prog = True
            if not prog:
                break
        for key in todo:
            self.opaque_locals.add(key)
            self.locals[key] = Opaque("loop-carried " + key[1], ("local",) + key)
        if todo:
            self.retry = True
        for d in self.larr.values():
            cl = d.get("cl", {})
            for j, dp in enumerate(d["dims"]):
                if d["vary"][j] and j not in cl:
                    raise LoopFail("dimension of growing array: %s" % {k_: (T.show(x), T.show(y)) for k_, (x, y) in dims.items()})
            d["dims_final"] = (lambda d, cl: lambda k: tuple(cl[j](k) if j in cl else dp for j, dp in enumerate(d["dims"])))(d, cl)

    def acc_fn(self, x0, d):
        ka = self.ka
        th = self.threshold(d)
        if th is not None:
            t, e = th

            def cl(k):
                k = to_p(k)
                v = fresh("v", "int", ZERO, None)
                body = subst(e, {ka: v + t})
                tot = T.sum_(k - t, T.only_atom(v), body) if ka in free_atoms(e) else e * (k - t)
                c = ge(k, t)
                if decide(self.pre.allfacts() + (ge(self.k, ZERO), lt(self.k, self.n)), c) is True:
                    return to_p(x0) + tot
                return to_p(x0) + ite(c, tot, ZERO)

            return cl

        def cl(k):
            return to_p(x0) + T.sum_(k, ka, d)

        return cl

    def threshold(self, d):
        """d = [k >= t] * e on 0 <= k < n  ->  (t, e), remembering that the
        condition means k >= t."""
        ka = self.ka
        if len(d.t) != 1:
            return None
        ((m, cf),) = d.t.items()
        if cf != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != "ite":
            return None
        c, x, y = m[0][0].args
        if ka not in free_atoms(c):
            return None
        if y.t:
            if x.t:
                return None
            c, x = not_(c), y
        t = self.lower_bound(c)
        if t is None:
            return None
        self.aliases[c] = ge(self.k, t)
        self.aliases[not_(c)] = lt(self.k, t)
        return t, x

    def lower_bound(self, c):
        """t such that c <=> k >= t for 0 <= k < n"""
        ka = self.ka
        facts = self.pre.allfacts() + (ge(self.k, ZERO), lt(self.k, self.n))
        if c.op == "eq":
            p = c.args[0]
            for sgn in (ONE, num(-1)):
                q = p * sgn
                for m, cf in q.t.items():
                    if len(m) == 1 and m[0][1] == 1 and cf == 1 and m[0][0].op == "fdiv":
                        x, s = m[0][0].args
                        if x is self.k and ka not in free_atoms(s):
                            t = ap(m[0][0]) - q
                            if ka in free_atoms(t):
                                continue
                            if prove_eq((t + ONE) * s, self.n, facts, (), 5)[0] is True and entails(facts, gt(s, ZERO)):
                                return t * s
            t = T.solve_eq_for(c, ka)
            if t is not None and prove_eq(t + ONE, self.n, facts, (), 5)[0] is True:
                return t
            return None
        if c.op in ("le", "lt"):
            p = c.args[0]
            dp = {m: cf for m, cf in p.t.items() if any(ka in free_atoms(a) for a, e in m)}
            if len(dp) == 1:
                ((m, cf),) = dp.items()
                if cf == -1 and len(m) == 1 and m[0] == (ka, 1):
                    t = p + self.k
                    return t if c.op == "le" else t + ONE
        return None

    def alias(self, v):
        return vsubst(v, dict(self.aliases)) if self.aliases else v

    def close_scalar(self, ph, v, phs, resolved, x0, key):
        ka = self.ka
        if isinstance(ph, B):
            if ph in self.preds(v) or any(p in phs for p in self.preds(v)):
                return None
            return self.last_fn(x0, v)
        if not isinstance(v, P):
            return None
        pa = T.only_atom(ph)
        fa = free_atoms(v)
        others = [a for a in fa if a in phs and a is not pa]
        if others:
            return None
        if pa not in fa:
            if has_old(v, self.ctx):
                return None
            return self.last_fn(x0, v)
        d = self.delta(v, ph)
        if d is None or pa in free_atoms(d) or has_old(d, self.ctx):
            return None
        return self.acc_fn(x0, d)

    def preds(self, v):
        from interp import preds_in

        return preds_in(v)

    def delta(self, v, ph):
        """v - ph with ites pushed"""
        d = v - ph
        if T.only_atom(ph) not in free_atoms(d):
            return d
        # v = ite(c, a, b)
        if len(v.t) == 1:
            ((m, c),) = v.t.items()
            if c == 1 and len(m) == 1 and m[0][0].op == "ite" and m[0][1] == 1:
                cc, a, b = m[0][0].args
                da, db = self.delta(a, ph), self.delta(b, ph)
                if da is None or db is None:
                    return None
                return ite(cc, da, db)
        # p + ite(..): split on first ite containing ph
        for m, c in v.t.items():
            for a, e in m:
                if a.op == "ite" and T.only_atom(ph) in free_atoms(a):
                    cc = a.args[0]
                    da = self.delta(subst(v, {cc: TRUE}), ph)
                    db = self.delta(subst(v, {cc: FALSE}), ph)
                    if da is None or db is None:
                        return None
                    return ite(cc, da, db)
        return None

    def last_fn(self, x0, v):
        ka = self.ka

        def cl(k):
            k = to_p(k)
            at = vsubst(v, {ka: k - ONE})
            if k is ap(ka) or not self.is_pos(k):
                if x0 is UNDEF:
                    return at
                return mk_choice(gt(k, ZERO), at, x0)
            return at

        return cl

    def is_pos(self, k):
        if k is self.n:
            return self.nonempty
        return entails(self.pre.allfacts(), gt(k, ZERO))

    def close_len(self, bid, ln, resolved, phs):
        buf = self.bufobj[bid]
        vargs = tuple(ap(v) for v in buf.vars)
        nm = "OLDLEN!%d!%d" % (self.ctx.id, bid)
        old = T.app(nm, *vargs, sort="int")
        v = subst(ln, resolved) if resolved else ln
        d = self.delta(v, old) if T.only_atom(old) in free_atoms(v) else None
        if d is None or any(a in phs for a in free_atoms(d)) or any(
            a.op == "app" and str(a.args[0]).startswith("OLDLEN!%d!" % self.ctx.id) for a in free_atoms(d)
        ):
            return None
        x0 = self.pre.bufs[bid].shape[0]
        return self.acc_fn(x0, d)

    # ------------------------------------------------------------ growing arrays
    def make_larr(self, f, nm, v):
        """Local bound to an array that each iteration replaces by a new one."""
        I = self.I
        pre = self.pre
        nd = I.lib.nd(pre, v) if isinstance(v, ArrRef) else None
        if isinstance(v, ListRef):
            shape = I.shape_of(pre, v)
            get = lambda idx: I.buf_get(pre, v.buf, v.owner, idx)
            kind, dtype = "list", v.buf.dtype
        else:
            shape, get, kind, dtype = v.shape, nd.get, "arr", v.buf.dtype
        buf = Buf(kind, dtype, (), "grow_%s" % (nm,))
        # which dimensions vary: first guess, all symbolic or zero dims along which growth happens are found by a probe
        dims = tuple(shape)
        vary = [False] * len(shape)
        sample = None
        try:
            sample = get(tuple(ZERO if s.as_int() else fresh("p", "int", ZERO, s) for s in shape))
        except Raised:
            sample = None
        if sample is None or sample is UNDEF:
            sample = ZERO if dtype in ("real", "int") else Opaque("elem")
        if isinstance(sample, P):
            sample = T.app("sample", sort="real")
        ivs, table = I.tabulate(shape, get)
        self.larr[(f, nm)] = dict(
            buf=buf, dims=dims, shape=tuple(shape), vary=vary, sample=sample, kind=kind,
            precontent=BufC(shape, ivs, table), pre=v,
        )
        self.bufobj[buf.id] = buf
        return self.probe()

    def probe(self):
        """Which dimensions of the growing arrays vary."""
        for _ in range(12):
            try:
                s, post = self.run_body(False)
            except OpaqueUse as e:
                if not self.handle_opaque(e):
                    raise
                continue
            ch = False
            for (f, nm), d in list(self.larr.items()):
                u = self.unify(post, self.lget(post, (f, nm)))
                if u is None:
                    return False
                for j, (a, b) in enumerate(zip(d["dims"], u[0])):
                    if a is not b and not d["vary"][j]:
                        d["vary"][j] = True
                        dims = list(d["dims"])
                        T._fresh[0] += 1
                        nmv = "dim_%s!%d" % (nm if isinstance(nm, str) else nm[1], T._fresh[0])
                        dims[j] = var(nmv, "int", ZERO, None)
                        d["dims"] = tuple(dims)
                        ch = True
            if not ch:
                break
        return True

    def unify(self, st, v):
        """(shape, raw getter) of an array, or of a choice of arrays."""
        I = self.I
        if isinstance(v, Choice):
            a, b = self.unify(st, v.a), self.unify(st, v.b)
            if a is None or b is None or len(a[0]) != len(b[0]):
                return None
            shape = tuple(x if x is y else ite(v.c, x, y) for x, y in zip(a[0], b[0]))
            lits = tuple(v.c.args) if v.c.op == "and" else (v.c,)

            def get(idx):
                with with_facts(st.allfacts() + lits):
                    x = a[1](idx)
                nc = not_(v.c)
                with with_facts(st.allfacts() + (tuple(nc.args) if nc.op == "and" else (nc,))):
                    y = b[1](idx)
                return mk_choice(v.c, x, y)

            return shape, get
        if isinstance(v, ListRef):
            return I.shape_of(st, v), lambda idx: I.raw_get(st.bufs[v.buf.id], v.buf.vars, v.owner, idx)
        if isinstance(v, ArrRef):
            return v.shape, lambda idx: I.raw_get(st.bufs[v.buf.id], v.buf.vars, v.owner, I.arr_index(st, v, idx))
        return None

    def larr_post(self, key, d):
        u = self.unify(self.post, self.lget(self.post, key))
        if u is None:
            raise LoopFail("growing array becomes something else")
        return u

    # ------------------------------------------------------------ final pass
    def finalise(self):
        I = self.I
        if getattr(self, "retry", False):
            self.retry = False
            return False
        s, post = self.run_body(True)
        self.post = post
        ctx = self.ctx
        # new changes?
        before = (len(self.locals), len(self.fields), len(self.bufs), len(self.lens_changed), len(self.real_keys))
        if self.changed(post):
            return False
        facts = post.allfacts()
        k1 = self.k + ONE
        # the contract's loop invariants: established and preserved
        for (f, nm), inv in self.given.items():
            p2 = self.pre.copy()
            if not self.same_content(p2, self.pre.frames[f].get(nm, UNDEF), inv(I, p2, ZERO), self.pre.allfacts()):
                raise LoopFail("given loop invariant for %s does not hold at the start" % nm)
            p2 = post.copy()
            if not self.same_content(p2, post.frames[f].get(nm, UNDEF), inv(I, p2, k1), facts):
                raise LoopFail("given loop invariant for %s not preserved" % nm)
        # inductive check of scalars
        for key, cl in self.scal.items():
            v = post.frames[key[0]].get(key[1])
            if isinstance(v, Choice) or not isinstance(v, (P, B)):
                raise LoopFail("scalar became non-scalar")
            want = cl(k1)
            if isinstance(v, P):
                with with_facts(facts):
                    ok, how = prove_eq(v, want, facts, (), 10)
            else:
                ok, how = prove_bool(iff(v, want), facts, (), 5)
            if ok is not True:
                raise LoopFail("loop invariant for %s not preserved: %s" % (key[1], how))
        for bid, cl in self.lens.items():
            v = post.bufs[bid].shape[0]
            ok, how = prove_eq(v, cl(k1), facts, (), 10)
            if ok is not True:
                raise LoopFail("list length invariant not preserved")
        for bid in sorted(self.lens_changed):
            if bid not in self.lens:
                raise LoopFail("list length has no closed form")
        # contents
        res = {}
        self.kcases = {}
        for bid in sorted(self.bufs):
            c = post.bufs[bid]
            buf = self.bufobj[bid]
            key = ("buf", bid)
            sc = self.start.bufs[bid]
            if bid in self.lens_changed:
                iv = sc.ivars[0]
                gen = c.table[()] if c.ivars[0] is not None else I.generic_elem(c, ap(iv))
                if c.ivars[0] is not None and c.ivars[0] is not iv:
                    gen = vsubst(gen, {c.ivars[0]: ap(iv)})
                idxs = tuple(buf.vars) + (iv,)
                # cells at or past the current length are not observable
                gen = mk_choice(lt(ap(iv), c.shape[0]), gen, sc.table[()])
                nlen = self.lens[bid](self.n)
                r = self.close_cell(key, (), sc.table[()], gen, idxs, self.pre_cell(bid, iv), extra=(ge(ap(iv), ZERO), lt(ap(iv), nlen)))
                if r is None:
                    return False
                res[key] = BufC((nlen,), (iv,), {(): r})
                continue
            table = {}
            mp = {}
            for x, y in zip(sc.ivars, c.ivars):
                if x is not None and x is not y:
                    mp[y] = ap(x)
            for tk, old in sc.table.items():
                new = c.table[tk]
                if mp:
                    new = vsubst(new, mp)
                pre = self.pre.bufs[bid].table[tk]
                if new is old or V.same_value(new, old):
                    table[tk] = pre
                    continue
                idxs = tuple(buf.vars) + tuple(a for a in sc.ivars if a is not None)
                ex = ()
                for a, shp in zip(sc.ivars, sc.shape):
                    if a is not None:
                        ex += (ge(ap(a), ZERO), lt(ap(a), shp))
                r = self.close_cell(key, tk, old, new, idxs, pre, extra=ex)
                if r is None:
                    return False
                table[tk] = r
            res[key] = BufC(self.pre.bufs[bid].shape, self.pre.bufs[bid].ivars, table)
        for fk in sorted(self.fields, key=_fkey):
            if ("fld", fk) in self.larr:
                continue
            key = ("fld", fk)
            fm = post.fields[fk]
            sfm = self.start.fields[fk]
            new = fm.val
            if fm.vars != sfm.vars:
                new = vsubst(new, dict(zip(fm.vars, (ap(x) for x in sfm.vars))))
            prefm = self.pre.fields.get(fk)
            pre = prefm.val if prefm is not None else UNDEF
            r = self.close_cell(key, "f", sfm.val, new, tuple(sfm.vars), pre)
            if r is None:
                return False
            res[key] = FieldMap(sfm.vars, r)
        larr_res = {}
        for lk, d in self.larr.items():
            r = self.close_larr(lk, d)
            if r is None:
                return False
            larr_res[lk] = r
        # reads of modified locations must not see earlier iterations' writes
        for key, reads in ctx.reads.items():
            if ctx.mode.get(key) != "opt":
                continue
            for idx, fs in reads:
                if not self.read_ok(key, idx, fs):
                    if not self.downgrade(key):
                        raise LoopFail("loop-carried read of %s" % (key,))
                    return False
        # while counter: the test must hold at every iteration and fail at the end
        if self.wcounter is not None:
            nm, i0, test = self.wcounter
            s2 = self.start.copy()
            c = I.truth(s2, I.eval(test, self.fid, s2))
            if not entails(s2.allfacts() + (ge(self.k, ZERO), lt(self.k, self.n)), c):
                raise LoopFail("while counter")
        self.apply(res, larr_res)
        return True

    def same_content(self, st, a, b, facts):
        """Two values with the same content: scalars, objects, arrays of them."""
        I = self.I
        if isinstance(a, Choice) or isinstance(b, Choice):
            v = a if isinstance(a, Choice) else b
            d = decide(facts, v.c)
            if d is not None:
                w = v.a if d else v.b
                return self.same_content(st, w, b, facts) if v is a else self.same_content(st, a, w, facts)
            if isinstance(a, Choice) and isinstance(b, Choice) and a.c is b.c:
                return self.same_content(st, a.a, b.a, facts + (a.c,)) and self.same_content(st, a.b, b.b, facts + (not_(a.c),))
            return False
        if isinstance(a, (ArrRef, ListRef)) and isinstance(b, (ArrRef, ListRef)):
            x, y = I.lib.nd(st, a), I.lib.nd(st, b)
            if len(x.shape) != len(y.shape):
                return False
            with with_facts(facts):
                for p, q in zip(x.shape, y.shape):
                    if prove_eq(p, q, facts, (), 5)[0] is not True:
                        return False
                ix = tuple(fresh("e", "int", ZERO, p) for p in x.shape)
                return self.same_content(st, x.get(ix), y.get(ix), facts)
        if isinstance(a, P) and isinstance(b, P):
            return prove_eq(a, b, facts, (), 5)[0] is True
        if isinstance(a, B) and isinstance(b, B):
            return prove_bool(iff(a, b), facts, (), 5)[0] is True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.fam is b.fam and all(prove_eq(p, q, facts, (), 5)[0] is True for p, q in zip(a.owner, b.owner))
        return V.same_value(a, b)

    def pre_cell(self, bid, iv):
        c = self.pre.bufs[bid]
        if c.shape[0].as_int() == 0:
            return UNDEF
        return self.I.generic_elem(c, ap(iv))

    # ------------------------------------------------------------ cells
    def split_cases(self, v, g, old, key):
        """(guard, leaf) pairs of a decision tree."""
        if isinstance(v, Choice):
            yield from self.split_cases(v.a, and_(g, v.c), old, key)
            yield from self.split_cases(v.b, and_(g, not_(v.c)), old, key)
            return
        if v is old or (isinstance(v, OldVal) and v == old):
            yield g, v
            return
        if isinstance(v, tuple) and has_old(v, self.ctx, key):
            raise LoopFail("tuple cell")
        if isinstance(v, P) and len(v.t) == 1 and has_old(v, self.ctx, key):
            ((m, c),) = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite":
                cc, a, b = m[0][0].args
                yield from self.split_cases(a, and_(g, cc), old, key)
                yield from self.split_cases(b, and_(g, not_(cc)), old, key)
                return
        if isinstance(v, P) and has_old(v, self.ctx, key):
            for m, c in v.t.items():
                for a, e in m:
                    if a.op == "ite" and has_old(ap(a), self.ctx, key):
                        cc = a.args[0]
                        yield from self.split_cases(subst(v, {cc: TRUE}), and_(g, cc), old, key)
                        yield from self.split_cases(subst(v, {cc: FALSE}), and_(g, not_(cc)), old, key)
                        return
        if isinstance(v, B) and has_old(v, self.ctx, key):
            if v is old:
                yield g, v
                return
            pr = [p for p in self.preds(v) if p is old]
            if pr:
                # (c and a) or (not c and old): split on first condition literal without old
                cand = self.pick_literal(v, old)
                if cand is not None:
                    yield from self.split_cases(subst(v, {cand: TRUE}), and_(g, cand), old, key)
                    yield from self.split_cases(subst(v, {cand: FALSE}), and_(g, not_(cand)), old, key)
                    return
        if isinstance(v, (Ref, ListRef)) and has_old(v, self.ctx, key):
            raise LoopFail("reference depends on carried value")
        yield g, v

    def pick_literal(self, v, old):
        if v.op in ("and", "or"):
            for x in v.args:
                r = self.pick_literal(x, old)
                if r is not None:
                    return r
            return None
        if v.op == "not":
            return self.pick_literal(v.args[0], old)
        if v is old:
            return None
        return v

    def close_cell(self, key, tk, old, new, idxs, pre, extra=()):
        try:
            return self.close_cell_(key, tk, old, new, idxs, pre, extra)
        except LoopFail:
            # the optimistic reading of some location may be what is wrong
            ok = False
            for k2, reads in self.ctx.reads.items():
                if reads and self.ctx.mode.get(k2) == "opt" and self.mode.get(k2, "opt") == "opt":
                    ok = self.downgrade(k2) or ok
            if ok:
                return None
            raise

    def close_cell_(self, key, tk, old, new, idxs, pre, extra=()):
        """Content after the loop of one cell family; None = retry."""
        ctx = self.ctx
        facts = self.pre.allfacts() + tuple(extra)
        cases = []
        accum = ZERO
        has_acc = False
        for g, leaf in self.split_cases(new, TRUE, old, key):
            if g is FALSE:
                continue
            if leaf is old or (isinstance(leaf, OldVal) and leaf == old):
                continue
            if has_old(leaf, ctx):
                if isinstance(leaf, P) and isinstance(old, P):
                    leaf = self.own_cell(leaf, old, g, facts)
                    d = leaf - old
                    if not has_old(d, ctx):
                        has_acc = True
                        accum = accum + ite(g, d, ZERO)
                        continue
                raise LoopFail("cell depends on loop-carried values: %r %s: %s when %s" % (
                    key, self.bufobj[key[1]].name if key[0] == "buf" else "", T.show(leaf)[:300] if isinstance(leaf, (P, B)) else repr(leaf)[:300], T.show(g)[:600]))
            cases.append((g, leaf))
        if has_acc:
            if cases:
                raise LoopFail("mixed assignment and accumulation")
            if not isinstance(pre, P):
                raise LoopFail("accumulation on non-number")
            self.kcases.setdefault(key, []).append((tk, idxs, None))
            with with_facts(facts):
                return pre + T.sum_(self.n, self.ka, accum)
        val = pre
        solved = []
        for g, leaf in cases:
            if self.aliases and g.op == "and":
                g = self.alias(g)
                lits = list(g.args) if g.op == "and" else [g]
                for i, l in enumerate(lits):
                    if any(a.op == "ite" for a in free_atoms(l)):
                        mp = {x: TRUE for x in lits[:i] + lits[i + 1:]}
                        mp.update({not_(x): FALSE for x in mp})
                        lits[i] = subst(l, mp)
                g = and_(*lits)
                if g is FALSE:
                    continue
                g = self.squeeze(g, facts)
            kap, h = self.solve_k(g, idxs, facts)
            if kap is None:
                if self.ka not in free_atoms(g):
                    if self.ka in free_atoms_v(leaf):
                        kap, h = self.n - ONE, and_(g, gt(self.n, ZERO))
                    else:
                        kap, h = ZERO, and_(g, gt(self.n, ZERO))
                    self.kcases.setdefault(key, []).append((tk, idxs, ("always", h)))
                    solved.append((kap, h, leaf))
                    continue
                raise LoopFail("cannot invert the written location: %s" % T.show(g)[:3000])
            hf = facts + (tuple(h.args) if h.op == "and" else (h,))
            with with_facts(facts):
                for x in (ge(kap, ZERO), lt(kap, self.n)):
                    if not entails(hf, x):
                        h = and_(h, x)
            solved.append((kap, h, leaf))
            self.kcases.setdefault(key, []).append((tk, idxs, (kap, h)))
        for i in range(len(solved)):
            for j in range(i):
                if solved[i][0] is not solved[j][0]:
                    if not entails(facts + (solved[i][1], solved[j][1]), FALSE):
                        raise LoopFail("overlapping writes of different iterations")
        for kap, h, leaf in solved:
            d = decide(facts, h) if h is not TRUE else True
            if d is False:
                continue
            fs = facts if d is True else facts + (h.args if h.op == "and" else (h,))
            with with_facts(fs):
                v = vsubst(leaf, {self.ka: kap})
                if isinstance(v, (P, B)):
                    v = T.renormalise(v)
            val = v if d is True else mk_choice(h, v, val)
        return val

    def own_cell(self, leaf, old, g, facts):
        """Other spellings of the cell's own index, equal under the guard."""
        oa = T.only_atom(old)
        mp = {}
        fs = tuple(facts) + (tuple(g.args) if g.op == "and" else (g,))
        for a in sorted(free_atoms(leaf)):
            if a is not oa and a.op == "app" and a.args[0] == oa.args[0]:
                if all(x is y or entails(fs, eq(x, y)) for x, y in zip(a.args[1:], oa.args[1:])):
                    mp[a] = old
        return subst(leaf, mp) if mp else leaf

    def squeeze(self, g, facts):
        """i <= f(k) and f(k) < i + 1 on integers: i = f(k)"""
        lits = list(g.args) if g.op == "and" else [g]
        for a in lits:
            for b in lits:
                if a.op == "le" and b.op == "lt" and self.ka in free_atoms(a):
                    # A <= 0 and B < 0 with A + B = -1: A = 0
                    if a.args[0] + b.args[0] is num(-1):
                        return and_(*[x for x in lits if x is not a and x is not b], eq(a.args[0], ZERO))
                if a.op == "le" and b.op == "le" and a is not b and self.ka in free_atoms(a):
                    if a.args[0] + b.args[0] is ZERO:
                        return and_(*[x for x in lits if x is not a and x is not b], eq(a.args[0], ZERO))
        return g

    def solve_k(self, g, idxs, facts):
        """Solve guard g(idx, k) for k: (kappa(idx), rest(idx)) or (None, None)."""
        ka = self.ka
        lits = list(g.args) if g.op == "and" else [g]
        kl = [l for l in lits if ka in free_atoms(l)]
        if not kl:
            return None, None
        for l in list(kl):
            # x // S = t:  S t <= x < S t + S
            if l.op == "eq":
                for m, c in l.args[0].t.items():
                    if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == "fdiv" and ka in free_atoms(m[0][0]):
                        x, S = m[0][0].args
                        if x.is_int and S.is_int and entails(facts, gt(S, ZERO)):
                            t = ap(m[0][0]) - l.args[0] * num(c)
                            kl += [le(S * t - x, ZERO), lt(x - S * t - S, ZERO)]
        rest = and_(*[l for l in lits if ka not in free_atoms(l)])
        if rest is FALSE:
            rest = FALSE
        fct = tuple(facts) + ((rest,) if rest is not TRUE and rest.op != "and" else tuple(rest.args) if rest.op == "and" else ())

        def finish(kap):
            with with_facts(fct):
                h = rest
                for l in kl:
                    x = subst(l, {ka: kap})
                    x = T.renormalise(x) if isinstance(x, B) else x
                    h = and_(h, x)
            return kap, h

        # (a) linear equality
        for l in kl:
            if l.op == "eq":
                t = T.solve_eq_for(l, ka)
                if t is not None:
                    return finish(t)
        # (b) segment ranges
        lows = [l for l in kl if l.op == "le"]
        ups = [l for l in kl if l.op == "lt"] + [l for l in kl if l.op == "le"]
        for lo in lows:
            A = lo.args[0]
            nxt = -subst(A, {ka: self.k + ONE})
            for up in ups:
                if up is lo:
                    continue
                Bv = up.args[0]
                if up.op == "le":
                    Bv = Bv - ONE  # B <= 0 on integers:  B-1 < 0
                diff = Bv - nxt
                if diff.t and not (prove_eq(Bv, nxt, facts, (), 3)[0] is True):
                    continue
                kap = self.invert_seg(A)
                if kap is not None:
                    r = self.seg_rest(A, kap, kl, lo, up, rest, facts)
                    return r if r is not None else finish(kap)
        # (c) part of a segment: PS(k) <= PS(k) + r(k) <= q < ... <= PS(k+1)
        for lo in lows:
            A = lo.args[0]
            r = ZERO
            has = False
            for m, c in A.t.items():
                if any(a.op == "sum" and e == 1 and a.args[0] is self.k for a, e in m):
                    has = True
                elif any(ka in free_atoms(a) for a, e in m):
                    r = r + T.mk_p({m: c})
            if not has:
                continue
            A0 = A - r
            fg = tuple(facts) + tuple(kl) + (ge(self.k, ZERO), lt(self.k, self.n))
            if not entails(fg, ge(r, ZERO)):
                continue
            nxt = -subst(A0, {ka: self.k + ONE})
            if not entails(fg, lt(nxt, ZERO)):
                continue
            kap = self.invert_seg(A0)
            if kap is not None:
                rr = self.seg_rest(A0, kap, kl, None, None, rest, facts)
                return rr if rr is not None else finish(kap)
        # (d) eq with a prefix sum
        for l in kl:
            if l.op == "eq":
                p = l.args[0]
                for sgn in (p, -p):
                    kap = self.invert_seg(sgn)
                    if kap is not None:
                        # uniqueness: the segment of k must be non-empty under the guard
                        fn = self._fn
                        d = T.apply_fn(fn, self.k) if fn is not None else ONE
                        if entails(tuple(facts) + tuple(kl), ge(d, ONE)) and entails(tuple(facts), ge(d, ZERO)):
                            return finish(kap)
        # (e) known terms
        kap = self.known_terms(kl)
        if kap is not None:
            return finish(kap)
        return None, None

    def seg_rest(self, A, kap, kl, lo, up, rest, facts):
        """PS(k) <= q < PS(k+1) for some k in [0, n)  <=>  0 <= q < PS(n), when
        no segment has negative length; other literals are taken at kap."""
        d = T.apply_fn(self._fn, self.k)
        if not entails(tuple(facts) + (ge(self.k, ZERO), lt(self.k, self.n)), ge(d, ZERO)):
            return None
        q = T._ps_term(self._fn, self.k) - A
        if self.ka in free_atoms(q):
            return None
        h = and_(rest, ge(q, ZERO), lt(q, T._ps_term(self._fn, self.n)))
        fs = tuple(facts) + (tuple(h.args) if h.op == "and" else (h,))
        with with_facts(fs):
            for l in kl:
                if l is lo or l is up:
                    continue
                x = subst(l, {self.ka: kap})
                x = T.renormalise(x) if isinstance(x, B) else x
                h = and_(h, x)
        return kap, h

    def invert_seg(self, A):
        """A = PS(d, k) + r - x  ->  k as function of the rest (q = x - r)."""
        ka = self.ka
        self._fn = None
        fn = None
        rest = A
        coefk = ZERO
        for m, c in A.t.items():
            if any(ka in free_atoms(a) for a, e in m):
                s = [a for a, e in m if a.op == "sum" and e == 1 and a.args[0] is self.k]
                if s:
                    a = s[0]
                    cof = [(x, e) for x, e in m if x is not a]
                    if any(ka in free_atoms(x) for x, e in cof):
                        return None
                    body = mul(T.mk_p({tuple(cof): c}), a.args[1])
                    b2 = ("fn", body, self.n, a.args[2])
                    fn = body if fn is None else fn + body
                    fk = a.args[2]
                    self._k_idx = fk
                    rest = rest - T.mk_p({m: c})
                elif any(x is ka and e == 1 for x, e in m):
                    cof = tuple((x, e) for x, e in m if x is not ka)
                    if any(ka in free_atoms(x) for x, e in cof):
                        return None
                    coefk = coefk + T.mk_p({cof: c})
                    rest = rest - T.mk_p({m: c})
                else:
                    return None
        q = -rest
        if fn is None:
            if not coefk.t:
                return None
            self._fn = None
            self._const_d = coefk
            v = fresh("zz", "int", ZERO, None)
            self._fn = T.mk_fn(T.only_atom(v), coefk, self.n)
            return T.floordiv(q, coefk)
        if coefk.t:
            fn = fn + coefk
        # all sum atoms must use the same binder index: rebuild canonically
        v = fresh("zz", "int", ZERO, self.n)
        body = ZERO
        for m, c in A.t.items():
            s = [a for a, e in m if a.op == "sum" and e == 1 and a.args[0] is self.k]
            if s:
                a = s[0]
                cof = tuple((x, e) for x, e in m if x is not a)
                body = body + mul(T.mk_p({cof: c}), subst(a.args[1], {T.mk_atom("bv", (a.args[2],), "int"): v}))
        body = body + coefk
        f = T.mk_fn(T.only_atom(v), body, self.n)
        self._fn = f
        return T.segk(f, q)

    def known_terms(self, kl):
        ka = self.ka
        known = {}
        for l in kl:
            if l.op != "eq":
                continue
            p = l.args[0]
            # v = t(k): one monomial containing k with coefficient +-1, the rest k-free
            dep = {m: c for m, c in p.t.items() if any(ka in free_atoms(a) for a, e in m)}
            if len(dep) == 1:
                ((m, c),) = dep.items()
                if len(m) == 1 and m[0][1] == 1:
                    restp = p - T.mk_p(dep)
                    known[m[0][0]] = restp * num(-1 / c)
        for _ in range(10):
            prog = False
            # inside known terms substitute known values
            atoms = list(known.items())
            for a, v in atoms:
                if a.op in ("segm", "segk"):
                    fn, q = a.args
                    other = "segk" if a.op == "segm" else "segm"
                    for b, w in atoms:
                        if b.op == other and b.args[1] is q and self.same_fn(b.args[0], fn):
                            i, m = (v, w) if a.op == "segk" else (w, v)
                            qq = T._ps_term(fn, i) + m
                            r = self.learn(q, qq, known)
                            prog = prog or r
                elif a.op in ("fdiv", "mod"):
                    x, s = a.args
                    other = "mod" if a.op == "fdiv" else "fdiv"
                    for b, w in atoms:
                        if b.op == other and b.args[0] is x and b.args[1] is s:
                            i, m = (v, w) if a.op == "fdiv" else (w, v)
                            r = self.learn(x, i * s + m, known)
                            prog = prog or r
            if ka in known:
                return known[ka]
            # substitute
            mp = {a: v for a, v in known.items() if a is not ka}
            new = {}
            for a, v in known.items():
                a2 = subst(ap(a), {b: w for b, w in mp.items() if b is not a})
                if len(a2.t) == 1:
                    ((m, c),) = a2.t.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] is not a and m[0][0] not in known:
                        new[m[0][0]] = v
            for l in kl:
                # equations that become one-sided once known terms are replaced
                if l.op == "eq" and mp:
                    q = subst(l.args[0], mp)
                    dep = {m: c for m, c in q.t.items() if any(ka in free_atoms(a) for a, e in m)}
                    if len(dep) == 1:
                        ((m, c),) = dep.items()
                        if len(m) == 1 and m[0][1] == 1 and m[0][0] not in known and m[0][0] not in new:
                            new[m[0][0]] = (q - T.mk_p(dep)) * num(-1 / c)
            if new:
                known.update(new)
                prog = True
            if not prog:
                break
        return known.get(ka)

    def same_fn(self, f, g):
        return f == g

    def learn(self, q, val, known):
        """q (a polynomial in k) equals val."""
        dep = {m: c for m, c in q.t.items() if any(self.ka in free_atoms(a) for a, e in m)}
        if len(dep) != 1:
            return False
        ((m, c),) = dep.items()
        if len(m) == 1 and m[0][1] == 1:
            v = (val - (q - T.mk_p(dep))) * num(1 / c)
            if m[0][0] not in known:
                known[m[0][0]] = v
                return True
        return False

    # ------------------------------------------------------------ growing array closed form
    def close_larr(self, lk, d):
        I = self.I
        post = self.post
        pshape, pget = self.larr_post(lk, d)
        key = ("buf", d["buf"].id)
        c0 = self.ctx.larr_c[lk]
        oldc = c0
        dims_k = c0.shape
        nshape = tuple(d["dims_final"](self.n))
        # element of the post array at generic index
        ivs = []
        import itertools

        conc = []
        for sh in nshape:
            c = sh.as_int()
            if c is not None and c <= V.CONC:
                ivs.append(None)
                conc.append(range(c))
            else:
                ivs.append(T.only_atom(fresh("i", "int", ZERO, sh)))
        table = {}
        idx_atoms = tuple(a for a in ivs if a is not None)
        for tk in itertools.product(*conc):
            it = iter(tk)
            idx = tuple(num(next(it)) if a is None else ap(a) for a in ivs)
            with with_facts(post.allfacts()):
                v = pget(idx)
                for j, sh in enumerate(pshape):
                    if d["vary"][j]:
                        # cells at or past the current length are not observable
                        v = mk_choice(lt(idx[j], sh), v, I.raw_get(oldc, (), (), idx))
            old = I.raw_get(oldc, (), (), idx)
            if any(s_.as_int() == 0 for s_ in d["shape"]):
                pre = UNDEF
            else:
                pre = I.raw_get(d["precontent"], (), (), idx)
            v = self.alias(v)
            ex = tuple(x for a, sh in zip(ivs, nshape) if a is not None for x in (ge(ap(a), ZERO), lt(ap(a), sh)))
            r = self.close_cell(key, tk, old, v, idx_atoms, pre, extra=ex)
            if r is None:
                return None
            table[tk] = r
        return BufC(nshape, tuple(ivs), table)

    # ------------------------------------------------------------ reads
    def read_ok(self, key, idx, fs):
        """No iteration before k wrote the location read in iteration k."""
        for tk, idxs, cs in self.kcases.get(key, ()):
            mp = dict(zip(idxs, idx))
            if cs is None:
                return False
            if cs[0] == "always":
                h = subst(cs[1], mp)
                if not entails(tuple(fs) + (h,), eq(self.k, ZERO)):
                    return False
                continue
            kap, h = cs
            with with_facts(fs):
                kk = subst(kap, mp)
                hh = subst(h, mp)
            if not entails(tuple(fs) + (hh, lt(kk, self.k)), FALSE):
                if not entails(tuple(fs) + (hh, lt(kk, self.k)), FALSE, True, 1000):
                    return False
        return True

    def downgrade(self, key):
        m = self.mode.get(key, "opt")
        if m == "opt":
            self.mode[key] = "carried"
            self.scal = {}
            return True
        return False

    # ------------------------------------------------------------ result
    def apply(self, res, larr_res):
        I = self.I
        st = self.st
        post = self.post
        r = post.copy()
        # contents
        for key, v in res.items():
            if key[0] == "buf":
                r.bufs[key[1]] = v
            else:
                r.fields[key[1]] = v
        at_end = {self.ka: self.n - ONE}
        for lk, d in self.larr.items():
            if lk[0] != "fld":
                continue
            nb = Buf(d["kind"], d["buf"].dtype, tuple(I.binders), d["buf"].name)
            c = larr_res[lk]
            r.bufs[nb.id] = c
            own = tuple(ap(x) for x in nb.vars)
            self.lset(r, lk, ListRef(nb, own) if d["kind"] == "list" else ArrRef(nb, own, tuple(("ax", i, ZERO, 1) for i in range(len(c.shape))), c.shape))
        for f in self.frames():
            fr = dict(r.frames[f])
            for nm in list(fr):
                v = fr[nm]
                lk = (f, nm)
                if lk in self.given:
                    fr[nm] = self.given[lk](I, r, self.n)
                elif lk in self.larr:
                    d = self.larr[lk]
                    nb = Buf(d["kind"], d["buf"].dtype, (), d["buf"].name)
                    nb.vars = ()
                    c = larr_res[lk]
                    # the new array lives outside the loop but inside outer loops
                    nb = Buf(d["kind"], d["buf"].dtype, tuple(I.binders), d["buf"].name)
                    r.bufs[nb.id] = c
                    own = tuple(ap(x) for x in nb.vars)
                    if d["kind"] == "list":
                        fr[nm] = ListRef(nb, own)
                    else:
                        fr[nm] = ArrRef(nb, own, tuple(("ax", i, ZERO, 1) for i in range(len(c.shape))), c.shape)
                elif lk in self.scal:
                    fr[nm] = self.scal[lk](self.n)
                elif lk in self.locals:
                    x0 = self.pre.frames[f].get(nm, UNDEF)
                    if has_old(v, self.ctx) or self.mentions_placeholder(v):
                        fr[nm] = Opaque("value of %s after loop" % nm)
                        continue
                    w = vsubst(v, at_end) if contains_var(v, self.ka) else v
                    if not self.nonempty:
                        w = mk_choice(gt(self.n, ZERO), w, x0)
                    fr[nm] = w
            r.frames[f] = fr
        # path condition and facts
        base_facts = self.start.facts
        nf = []
        for x in post.facts:
            if x in self.pre.facts:
                nf.append(x)
            elif self.ka not in free_atoms(x) and not has_old(x, self.ctx):
                if x in (ge(self.k, ZERO), lt(self.k, self.n)):
                    continue
                nf.append(implies(gt(self.n, ZERO), x))
        r.facts = tuple(nf)
        guards = []
        for ex in self.raise_exits:
            g = and_(*ex.st.pc[len(self.pre.pc):]) if ex.st.pc[: len(self.pre.pc)] == self.pre.pc else and_(*ex.st.pc)
            guards.append((g, ex.val, ex.st.facts))
        pc = self.pre.pc
        r.pc = pc
        for g, exc, fct in guards:
            gg = g
            if entails(tuple(fct) + (g.args if g.op == "and" else (g,)), FALSE):
                continue
            if has_old(gg, self.ctx):
                raise LoopFail("raise guard depends on carried state")
            ex_g = not_(T.forall(self.n, self.ka, not_(gg)))
            if ex_g is FALSE:
                continue
            s2 = r.copy()
            s2.branch(ex_g)
            if I.raise_sinks and I.raise_sinks[-1] is not None:
                I.raise_sinks[-1].append(Exit("raise", exc, s2))
            else:
                I.raise_log(and_(*s2.pc), exc, s2)
            r.branch(T.forall(self.n, self.ka, not_(gg)))
        for g, exc, cur, fct in self.raw_raises:
            if entails(tuple(fct) + (g.args if g.op == "and" else (g,)), FALSE):
                continue
            if has_old(g, self.ctx):
                raise LoopFail("raise guard depends on carried state")
            if self.ka in free_atoms(g):
                g = not_(T.forall(self.n, self.ka, not_(g)))
            I.raises.append((g, exc, cur, tuple(x for x in fct if self.ka not in free_atoms(x))))
        # purge placeholder buffers
        I.adopt(st, r)

    def mentions_placeholder(self, v):
        atoms = set()
        for ph in self.locals.values():
            if isinstance(ph, P):
                atoms.add(T.only_atom(ph))
        if isinstance(v, P):
            return bool(atoms & set(free_atoms(v)))
        if isinstance(v, ArrRef):
            return v.buf.id in self.larr_ids()
        return False


def free_atoms_v(v):
    if isinstance(v, (P, B)):
        return free_atoms(v)
    out = set()

    def walk(x):
        if isinstance(x, (P, B)):
            out.update(free_atoms(x))
        elif isinstance(x, (Ref, ListRef)):
            for y in x.owner:
                walk(y)
        elif isinstance(x, ArrRef):
            for y in x.owner:
                walk(y)
            for a in x.axes:
                walk(a[1] if a[0] == "pt" else a[2])
            for y in x.shape:
                walk(y)
        elif isinstance(x, Choice):
            walk(x.c)
            walk(x.a)
            walk(x.b)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, SStr):
            walk(x.p)
        elif isinstance(x, StrCat):
            for y in x.parts:
                walk(y)

    walk(v)
    return out
