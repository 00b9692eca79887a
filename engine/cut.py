"""Cut point: run a real method with its last loop replaced by one iteration
from a havoced state.

The method's own source is transformed mechanically, at every run: everything
before the loop is kept; the loop

    for TARGET in ITER: BODY

becomes   space = ITER; <havoc>; TARGET = <iteration>; BODY; return space

so BODY is the code of /repo, executed from any state the contract's loop
invariant allows.  Dropped: the code after the loop and the other iterations
(the invariant stands for them).

With verif_after=True the loop becomes   <havoc>; TARGET = <last value>   and
the code after it is kept (dropped: every iteration).

With verif_carried=True the one local the loop carries from iteration to
iteration is havoced too:  CARRIED = <havoc>(CARRIED, space)  and the cut returns
(space, CARRIED).  verif_loop: which of the outermost loops is cut (-1: last)."""
import ast
import copy


class NoCut(Exception):
    pass


class _Cont(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(ast.Name("verif_space_", ast.Load())), n)

    def visit_Break(self, n):
        raise NoCut("break in the loop that is cut")

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def _find(stmts, out=None):
    """[(list, index)] of the outermost loops, in order"""
    out = [] if out is None else out
    for i, s in enumerate(stmts):
        if isinstance(s, ast.For):
            out.append((stmts, i))
        else:
            for f in ("body", "orelse", "finalbody"):
                sub = getattr(s, f, None)
                if isinstance(sub, list) and not isinstance(s, (ast.While, ast.FunctionDef, ast.ClassDef)):
                    _find(sub, out)
    return out


def _stored(nodes):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def transform(node, after=False, carried=False, which=-1):
    node = copy.deepcopy(node)
    h = _find(node.body)
    if not -len(h) <= which < len(h):
        raise NoCut("no such loop in %s" % node.name)
    lst, i = h[which]
    loop = lst[i]
    if loop.orelse:
        raise NoCut("loop with else")

    def nm(x, ctx=ast.Load()):
        return ast.Name(x, ctx)

    c = None
    if carried:
        if lst is not node.body:
            raise NoCut("nested loop")
        cs = _stored(lst[:i]) & _stored(loop.body)
        if len(cs) != 1:
            raise NoCut("%d carried locals" % len(cs))
        c = cs.pop()
    space = loop.iter if after else nm("verif_space_")
    havoc = ast.Assign([nm(c, ast.Store())], ast.Call(nm("verif_havoc_"), [nm(c), space], [])) if c else ast.Expr(ast.Call(nm("verif_havoc_"), [], []))
    if after:
        new = [havoc, ast.Assign([loop.target], nm("verif_iter_"))]
        lst[i : i + 1] = [ast.copy_location(s, loop) for s in new]
        return _finish(node)
    if c and any(isinstance(x, ast.Continue) for s in loop.body for x in ast.walk(s)):
        raise NoCut("continue in the loop that is cut")
    body = [_Cont().visit(s) for s in loop.body]
    new = [
        ast.Assign([nm("verif_space_", ast.Store())], loop.iter),
        havoc,
        ast.Assign([loop.target], nm("verif_iter_")),
        *body,
        ast.Return(ast.Tuple([nm("verif_space_"), nm(c)], ast.Load()) if c else nm("verif_space_")),
    ]
    lst[i:] = [ast.copy_location(s, loop) if not hasattr(s, "lineno") else s for s in new]
    return _finish(node)


def _finish(node):
    node.args.kwonlyargs = list(node.args.kwonlyargs) + [ast.arg("verif_havoc_"), ast.arg("verif_iter_")]
    node.args.kw_defaults = list(node.args.kw_defaults) + [None, None]
    node.decorator_list = []
    ast.fix_missing_locations(node)
    return node


def concrete(method, it, havoc, verif_after=False, verif_carried=False, verif_loop=-1, **kw):
    import inspect
    import textwrap

    func = getattr(method, "__func__", method)
    src = textwrap.dedent(inspect.getsource(func))
    try:
        node = transform(ast.parse(src).body[0], verif_after, verif_carried, verif_loop)
    except NoCut as e:
        from contract import Skip

        raise Skip(str(e))
    ns = dict(func.__globals__)
    exec(compile(ast.Module([node], []), "<cut %s>" % node.name, "exec"), ns)
    first = [method.__self__] if hasattr(method, "__self__") else []
    return ns[node.name](*first, verif_havoc_=havoc, verif_iter_=it, **kw)


def symbolic(I, st, method, it, havoc, verif_after=False, verif_carried=False, verif_loop=-1, **kw):
    from values import FuncVal, Unsupported

    flag = lambda x: bool(x is True or getattr(x, "op", None) == "true")
    f = method if isinstance(method, FuncVal) else method.func
    try:
        node = transform(f.node, flag(verif_after), flag(verif_carried), verif_loop if isinstance(verif_loop, int) else verif_loop.as_int())
    except NoCut as e:
        raise Unsupported(str(e))
    f2 = FuncVal(node, f.mod, f.env, f.name, f.cls, f.defaults)
    return I.call_func(st, f2, [] if f is method else [method.self_], dict(kw, verif_havoc_=havoc, verif_iter_=it))
