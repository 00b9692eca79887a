"""Values and memory of the symbolic interpreter."""
from terms import *  # noqa
import terms as T
from prover import decide, entails, with_facts

CONC = 40  # axes up to this constant size are expanded


class Raised(Exception):
    """A Python exception raised on every path from here (engine internal)."""

    def __init__(self, exc):
        self.exc = exc


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Opaque:
    """A value that may not be looked at."""

    def __init__(self, why, key=None):
        self.why, self.key = why, key

    def __repr__(self):
        return "Opaque(%s)" % self.why


class OpaqueUse(Unsupported):
    def __init__(self, o):
        super().__init__("use of opaque value: %s" % (o.why,))
        self.o = o


class SStr:
    """Symbolic string: an integer-coded term."""

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "SStr(%r)" % (self.p,)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.p is self.p

    def __hash__(self):
        return hash(self.p)


_str_codes = {}


def str_code(s):
    if s not in _str_codes:
        _str_codes[s] = 1000 + len(_str_codes)
    return num(_str_codes[s])


def code_str(k):
    for s, c in _str_codes.items():
        if c == k:
            return s
    return None


class StrCat:
    """Concatenation of string pieces (str, SStr, ('fmt', value, spec))."""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "StrCat%r" % (self.parts,)


class Ref:
    __slots__ = ("fam", "owner")

    def __init__(self, fam, owner=()):
        self.fam, self.owner = fam, tuple(owner)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.fam is self.fam and o.owner == self.owner

    def __hash__(self):
        return hash((id(self.fam), self.owner))

    def __repr__(self):
        return "<%s%s>" % (self.fam.name, list(self.owner) if self.owner else "")


class Fam:
    n = 0

    def __init__(self, cls, vars_, name=None):
        Fam.n += 1
        self.id = Fam.n
        self.cls = cls
        self.vars = tuple(vars_)
        self.name = name or (getattr(cls, "name", str(cls)) + "#%d" % self.id)
        self.partial = False  # an input of which only some attributes are given
        self.lazy = None  # attr -> value builder

    def __repr__(self):
        return self.name


class ArrRef:
    """View on an array buffer."""

    __slots__ = ("buf", "owner", "axes", "shape")

    # axes: per buffer axis ('pt', P) | ('ax', result axis, start P, step int)
    def __init__(self, buf, owner, axes, shape):
        self.buf, self.owner = buf, tuple(owner)
        self.axes, self.shape = tuple(axes), tuple(shape)

    def __eq__(self, o):
        return (
            isinstance(o, ArrRef)
            and o.buf is self.buf
            and o.owner == self.owner
            and o.axes == self.axes
            and o.shape == self.shape
        )

    def __hash__(self):
        return hash((id(self.buf), self.owner, self.axes))

    def __repr__(self):
        return "Arr(%s%s shape=%s)" % (
            self.buf.name,
            list(self.owner) if self.owner else "",
            list(self.shape),
        )


class ListRef:
    __slots__ = ("buf", "owner")

    def __init__(self, buf, owner=()):
        self.buf, self.owner = buf, tuple(owner)

    def __eq__(self, o):
        return isinstance(o, ListRef) and o.buf is self.buf and o.owner == self.owner

    def __hash__(self):
        return hash((id(self.buf), self.owner))

    def __repr__(self):
        return "List(%s%s)" % (self.buf.name, list(self.owner) if self.owner else "")


class Buf:
    n = 0

    def __init__(self, kind, dtype, vars_, name=None):
        Buf.n += 1
        self.id = Buf.n
        self.kind = kind  # 'arr' | 'list'
        self.dtype = dtype  # 'real' 'int' 'bool' 'obj'
        self.vars = tuple(vars_)
        self.name = name or "%s%d" % (kind, self.id)

    def __repr__(self):
        return self.name


class BufC:
    """Content: shape over vars; table over concrete axes; ivars for symbolic."""

    __slots__ = ("shape", "ivars", "table")

    def __init__(self, shape, ivars, table):
        self.shape = tuple(shape)
        self.ivars = tuple(ivars)  # Atom or None per axis
        self.table = table


class FieldMap:
    __slots__ = ("vars", "val")

    def __init__(self, vars_, val):
        self.vars, self.val = tuple(vars_), val


class OldVal:
    """Placeholder object value read from a loop-modified location."""

    __slots__ = ("ctx", "key", "idx")

    def __init__(self, ctx, key, idx):
        self.ctx, self.key, self.idx = ctx, key, tuple(idx)

    def __eq__(self, o):
        return isinstance(o, OldVal) and (o.ctx, o.key, o.idx) == (
            self.ctx,
            self.key,
            self.idx,
        )

    def __hash__(self):
        return hash((self.ctx, self.key, self.idx))

    def __repr__(self):
        return "Old(%s,%s)" % (self.key, list(self.idx))


class Choice:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, Choice) and o.c is self.c and o.a == self.a and o.b == self.b

    def __hash__(self):
        return hash((self.c, "choice"))

    def __repr__(self):
        return "Choice(%r ? %r : %r)" % (self.c, self.a, self.b)


class FuncVal:
    def __init__(self, node, mod, env=None, name=None, cls=None, defaults=None):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = defaults

    @property
    def qual(self):
        return "%s.%s%s" % (
            self.mod.name,
            (self.cls.name + ".") if self.cls else "",
            self.name,
        )

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassVal:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.methods = {}
        self.props = {}
        self.attrs = {}

    def __repr__(self):
        return "<class %s>" % self.name


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class ModuleVal:
    def __init__(self, name):
        self.name = name
        self.attrs = {}

    def __repr__(self):
        return "<module %s>" % self.name


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls, tuple(self.args))


class SliceVal:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class PyDict:
    """Concrete-keyed dictionary."""

    def __init__(self, items):
        self.items = dict(items)


class SymFun:
    """An arbitrary (user supplied) function of the contract's inputs."""

    state = False  # fn also takes the interpreter and the state
    py = None  # its concrete counterpart, when it is not fn itself

    def __init__(self, fn, *idx):
        self.fn, self.idx = fn, idx

    def like(self, idx):
        r = SymFun(self.fn, *idx)
        r.state, r.py = self.state, self.py
        return r

    def __eq__(self, o):
        return isinstance(o, SymFun) and o.fn is self.fn and o.idx == self.idx

    def __hash__(self):
        return hash((id(self.fn), self.idx))


# --------------------------------------------------------------------------
def vsubst(v, mp, cache=None):
    if not mp:
        return v
    if isinstance(v, (P, B)):
        return subst(v, mp)
    if isinstance(v, Ref):
        if not v.owner:
            return v
        return Ref(v.fam, tuple(subst(o, mp) for o in v.owner))
    if isinstance(v, ArrRef):
        return ArrRef(
            v.buf,
            tuple(subst(o, mp) for o in v.owner),
            tuple(
                ("pt", subst(a[1], mp))
                if a[0] == "pt"
                else ("ax", a[1], subst(a[2], mp), a[3])
                for a in v.axes
            ),
            tuple(subst(s, mp) for s in v.shape),
        )
    if isinstance(v, ListRef):
        if not v.owner:
            return v
        return ListRef(v.buf, tuple(subst(o, mp) for o in v.owner))
    if isinstance(v, Choice):
        return mk_choice(subst(v.c, mp), vsubst(v.a, mp), vsubst(v.b, mp))
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    if isinstance(v, OldVal):
        return OldVal(v.ctx, v.key, tuple(subst(o, mp) for o in v.idx))
    if isinstance(v, SStr):
        return SStr(subst(v.p, mp))
    if isinstance(v, StrCat):
        return StrCat(tuple(vsubst(x, mp) for x in v.parts))
    if isinstance(v, SymFun):
        return v.like([subst(o, mp) for o in v.idx]) if v.idx else v
    if isinstance(v, BoundMethod):
        return BoundMethod(v.func, vsubst(v.self_, mp))
    if isinstance(v, PyDict):
        return PyDict({k: vsubst(x, mp) for k, x in v.items.items()})
    return v


def mk_choice(c, a, b):
    """Merged value."""
    c = to_b(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if same_value(a, b):
        return a
    if isinstance(a, bool):
        a = TRUE if a else FALSE
    if isinstance(b, bool):
        b = TRUE if b else FALSE
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.fam is b.fam:
        return Ref(a.fam, tuple(ite(c, x, y) for x, y in zip(a.owner, b.owner)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(mk_choice(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        pa = a.p if isinstance(a, SStr) else str_code(a)
        pb = b.p if isinstance(b, SStr) else str_code(b)
        return SStr(ite(c, pa, pb))
    # resolve nested choices on the same condition
    a = resolve_choice(a, c, True)
    b = resolve_choice(b, c, False)
    if same_value(a, b):
        return a
    cc, sw = T.canon_cond(c)
    if sw:
        a, b = b, a
    return Choice(cc, a, b)


def resolve_choice(v, c, val):
    while isinstance(v, Choice):
        if v.c is c:
            v = v.a if val else v.b
        elif v.c is not_(c):
            v = v.b if val else v.a
        else:
            break
    return v


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (P, B)) or isinstance(b, (P, B)):
        return False
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


class State:
    __slots__ = ("frames", "fields", "bufs", "pc", "facts")

    def __init__(self):
        self.frames = {}
        self.fields = {}
        self.bufs = {}
        self.pc = ()
        self.facts = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.fields = dict(self.fields)
        s.bufs = dict(self.bufs)
        s.pc = self.pc
        s.facts = self.facts
        return s

    def allfacts(self):
        return self.pc + self.facts

    def assume(self, b):
        if b is TRUE:
            return
        if b.op == "and":
            self.facts = self.facts + tuple(x for x in b.args if x not in self.facts)
        else:
            if b not in self.facts:
                self.facts = self.facts + (b,)

    def branch(self, b):
        if b is TRUE:
            return
        if b.op == "and":
            self.pc = self.pc + tuple(x for x in b.args if x not in self.pc)
        elif b not in self.pc:
            self.pc = self.pc + (b,)
