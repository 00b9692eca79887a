"""C07: meshes tile the surface between the placed camber lines."""
from world import *
import c13
import c19

ONE_ = ONE


# ---- the camber line of a section, sampled and placed

@contract("C07", "camber line at fractions of its length")
def downsampled(cx):
    n, m = cx.dim("n") + 1, cx.dim("m")
    af = cx.obj("geometry.Airfoil", mcl_coordinates=cx.arr("xy", (n, num(2))))
    cx.let(af=af, at=cx.arr("at", (m,), lo=0.0, hi=1.0))
    xy = lambda k, c: T.app("xy", k, num(c))
    step = lambda k: T.sqrt((xy(k, 0) - xy(k + 1, 0)) ** 2 + (xy(k, 1) - xy(k + 1, 1)) ** 2)
    cx.let(D=cx.tab((n,), lambda k: cx.I.lib.red(cx.st, k, step) / cx.I.lib.red(cx.st, n - ONE, step)))
    cx.exec("r = af.get_downsampled_mcl(at)")
    cx.post("one point per fraction", "r.shape", lambda: (m, num(2)))
    cx.post("interpolated over the normalised arc length", "(r[k, 0], r[k, 1])", "(np.interp(at, D, af.mcl_coordinates[:, 0])[k], np.interp(at, D, af.mcl_coordinates[:, 1])[k])", over=[("k", m)])


@contract("C07", "axes of a section")
def axes(cx):
    m, c = cx.vec("m"), cx.vec("c")
    t = cx.real("tw", lo=-60, hi=60)
    M_, C_ = cx.v3(m), cx.v3(c)
    cx.require(gt(dot(M_, M_), ZERO))
    n = tuple(x / norm(M_) for x in M_)
    sec = cx.obj("geometry.WingCrossSection", twist=t, wing_unit_chordwise_vector=c, unit_normal_vector=m)
    cx.let(s=sec)
    cx.exec("uc, up = s.unit_chordwise_vector, s.unit_up_vector")
    a = deg(t)
    w = lambda: add(add(scale(T.cos(a), C_), scale(T.sin(a), cross(n, C_))), scale((ONE - T.cos(a)) * dot(n, C_), n))
    cx.post("chordwise: the wing's, turned by the twist about the normal", "uc", w)
    cx.post("up: chordwise cross normal", "up", lambda: cross(w(), M_))


# ---- wings whose sections are described by these contracts

def kept(cx, cls, **props):
    """Properties of a class by contracts proved elsewhere: what an object's
    own field says."""
    for q, a in props.items():
        cx.summary(cls + "." + q, (lambda a: lambda I, st, env: I.get_field(st, env["self"], a))(a))
    old = cx.conc_patch

    def patch(ns):
        u = old(ns) if old else None
        m, c = cls.split(".")
        C = getattr(getattr(ns["ps"], m), c)
        saved = {q: C.__dict__[q] for q in props}
        for q, a in props.items():
            setattr(C, q, property(lambda self, a=a: self.__dict__[a]))

        def undo():
            for q, f in saved.items():
                setattr(C, q, f)
            u and u()

        return undo

    cx.conc_patch = patch


class Sections:
    """Any wing of X sections."""

    def __init__(self, cx, X):
        self.cx, self.X = cx, X
        kept(cx, "geometry.WingCrossSection", unit_chordwise_vector="verif_uc", unit_up_vector="verif_up")
        self.M = cx.dim("M")
        for k in range(2):
            cx.num_funs["MC%d" % k] = (lambda k: lambda x, d, h, f: float(np.sin(1.7 * float(x) + k) * float(f) + 0.01 * float(d) * float(f) ** 2 + 0.1 * float(h) * (k + 1)))(k)
        cx.real("d", ZERO, lo=-20.0, hi=20.0)
        secs = cx.lst(X, self.section)
        cx.vec("un")
        cx.salted["un"] = lambda r, salt, c: [np.cos(salt) * np.cos(1.0 + salt), np.sin(salt) * np.cos(1.0 + salt), np.sin(1.0 + salt)][int(c)]
        self.un = tuple(T.app("un", num(c)) for c in range(3))
        self.wing = cx.obj("geometry.Wing", wing_cross_sections=secs, leading_edge=cx.vec("o"), symmetric=cx.boolean("sym"), num_chordwise_panels=self.M,
                           chordwise_spacing=c13.pick(cx, "cs", "cosine", "uniform"), unit_normal_vector=cx.vec("un"))
        cx.let(w=self.wing)

    def N(self, x):
        return self.cx.dim("N", x)

    def section(self, x):
        cx = self.cx

        def camber(I, st, x, d, h, f):
            F = I.lib.nd(st, f)

            def get(i):
                t = I.lib.n(F.get((i[0],)))
                v = [T.app("MC%d" % k, x, d, h, t) for k in range(2)]
                return v[i[1].as_int()] if i[1].as_int() is not None else I.lib.select(v, i[1])

            return I.alloc(st, (F.shape[0], num(2)), get, "real")

        def turn(I, st, x, deflection=ZERO, hinge_point=num(Fraction(3, 4))):
            o = I.new_obj(st, cx.cls("geometry.Airfoil"), "Airfoil")
            o.fam.partial = True
            g = fun(camber, x, state=True)
            g.idx = (to_p(x), I.lib.n(deflection), I.lib.n(hinge_point))
            I.set_field(st, o, "get_downsampled_mcl", g)
            return o

        def py(x, deflection=0.0, hinge_point=0.75):
            class A:
                def get_downsampled_mcl(self, mcl_fractions):
                    return np.array([[cx.num_funs["MC%d" % k](x, deflection, hinge_point, f) for k in range(2)] for f in mcl_fractions])

            return A()

        af = cx.obj("geometry.Airfoil", add_control_surface=fun(turn, x, state=True, py=py))
        return cx.obj("geometry.WingCrossSection", airfoil=af, leading_edge=cx.vec("le", x), chord=cx.pos("c", x), verif_uc=cx.vec("uc", x), verif_up=cx.vec("up", x),
                      control_surface_deflection=cx.real("d", x, lo=-20.0, hi=20.0), control_surface_hinge_point=cx.real("h", x, lo=0.3, hi=0.9),
                      control_surface_type=self.kind(x), num_spanwise_panels=self.N(x), spanwise_spacing=self.pick("ss", x, "cosine", "uniform"))

    def kind(self, x):
        return self.pick("ct", x, "symmetric", "asymmetric")

    def pick(self, nm, x, a, b):
        """one of two strings, for every section"""
        return V.mk_choice(self.cx.boolean(nm, x), a, b)

    # the specification
    def spaced(self, cosine, i, n):
        return ite(cosine, H - H * T.cos(T.PI * i / n), to_p(i) / n)

    def placed(self, x, d, h, i):
        """point i of section x's camber line with control surface (d, h)"""
        v = lambda nm: tuple(T.app(nm, x, num(c)) for c in range(3))
        o = tuple(T.app("o", num(c)) for c in range(3))
        f = self.spaced(c19.is_str(self.cx.field(self.wing, "chordwise_spacing"), "cosine"), i, self.M)
        y = add(scale(T.app("MC0", x, d, h, f), v("uc")), scale(T.app("MC1", x, d, h, f), v("up")))
        return add(add(o, v("le")), scale(T.app("c", x), y))

    def node(self, s, i, j, left=False):
        """node (i, j) of the section between s and s + 1, counted outwards"""
        d, h = T.app("d", s), T.app("h", s)
        if left:
            d = ite(T.pred("ct", s), d, -d)
        a, b = self.placed(s, d, h, i), self.placed(s + 1, d, h, i)
        t = self.spaced(T.pred("ss", s), j, self.N(s))
        p = add(a, scale(t, sub(b, a)))
        if left:
            o = tuple(T.app("o", num(c)) for c in range(3))
            p = sub(p, scale(2 * dot(sub(p, o), self.un), self.un))
        return p

    def panel(self, s, i, j, left=False):
        """corners of panel (i, j), j counted from the left"""
        if left:
            n = self.N(s)
            q = [(i, n - j), (i, n - j - 1), (i + 1, n - j), (i + 1, n - j - 1)]
        else:
            q = [(i, j), (i, j + 1), (i + 1, j), (i + 1, j + 1)]
        return tuple(x for a, b in q for x in self.node(s, a, b, left))


CORNERS = "({0}.front_left_vertex, {0}.front_right_vertex, {0}.back_left_vertex, {0}.back_right_vertex)"


def whole(X, sym):
    """the mesh of a wing of two or three sections"""

    def c(cx):
        S = Sections(cx, num(X))
        cx.setf(S.wing, "symmetric", TRUE if sym else FALSE)
        N = [S.N(num(x)) for x in range(X - 1)]
        half = sum(N[1:], N[0])
        tot = 2 * half if sym else half
        cx.setf(S.wing, "num_spanwise_panels", tot)
        starts, start = [], half if sym else ZERO
        for x in range(X - 1):
            starts.append((start, tot - start - N[x]))
            cx.let(**{"r%d" % x: starts[x][0], "l%d" % x: starts[x][1]})
            start = start + N[x]
        cx.exec("ps.meshing.mesh_wing(w)")
        cx.post("grid", "w.panels.shape", lambda: (S.M, tot))
        over = lambda n: [("i", S.M), ("j", n)]
        for x in range(X - 1):
            cx.post("corners of section %d" % x, CORNERS.format("w.panels[i, r%d + j]" % x), lambda i, j, x=x: S.panel(num(x), i, j), over=over(N[x]))
            if sym:
                cx.post("corners of the mirrored section %d" % x, CORNERS.format("w.panels[i, l%d + j]" % x), lambda i, j, x=x: S.panel(num(x), i, j, True), over=over(N[x]))
        marks(cx, S.M, tot)

    return c


def marks(cx, M, N):
    cx.post("position", "(w.panels[i, j].local_chordwise_position, w.panels[i, j].local_spanwise_position)", lambda i, j: (i, j), over=[("i", M), ("j", N)])
    cx.post("edge markers", "(w.panels[i, j].is_leading_edge, w.panels[i, j].is_trailing_edge, w.panels[i, j].is_left_edge, w.panels[i, j].is_right_edge)",
            lambda i, j: (eq(i, ZERO), eq(i, M - ONE), eq(j, ZERO), eq(j, N - ONE)), over=[("i", M), ("j", N)])


contract("C07", "one-sided wing of two sections")(whole(2, False))
contract("C07", "symmetric wing of two sections")(whole(2, True))
contract("C07", "one-sided wing of three sections")(whole(3, False))
contract("C07", "symmetric wing of three sections")(whole(3, True))


def step(sym):
    """any number of sections: one more section, after any others"""

    def c(cx):
        X = cx.dim("X", hi=3) + 1
        s = cx.integer("s", lo=0, hi=1)
        T.NONNEG_APPS.add("s")
        cx.require(le(s, X - 2))
        S = Sections(cx, X)
        cx.setf(S.wing, "symmetric", TRUE if sym else FALSE)
        C = cx.dim("C")
        N = S.N(s)
        old = cx.objarr((S.M, C), lambda i, j: cx.obj("panel.Panel", tag=cx.real("tag", i, j)))
        cx.let(s=s, old=old, n=X - 1, start=N if sym else ZERO, C=C)
        cx.exec("""
        before = []
        def havoc(v, space):
            verif_need(len(space) == n)
            before.append(v)
            return old
        space, r = verif_cut(ps.meshing.mesh_wing, s, havoc, verif_carried=True, verif_loop=0, wing=w)
        """)
        cx.post("nothing meshed before the first section", "before[0].shape", lambda: (S.M, ZERO))
        cx.post("grid", "r.shape", lambda: (S.M, C + N * (2 if sym else 1)))
        over = lambda n: [("i", S.M), ("j", n)]
        cx.post("the sections meshed before stay", "r[i, start + j].tag", lambda i, j: T.app("tag", i, j), over=over(C))
        for nm, at, left in [("", "start + C + j", False)] + ([("mirrored ", "j", True)] if sym else []):
            cx.post("corners of the %ssection" % nm, CORNERS.format("r[i, %s]" % at), lambda i, j, left=left: S.panel(s, i, j, left), over=over(N))
            cx.post("edge markers of the %ssection" % nm, "(r[i, {0}].is_leading_edge, r[i, {0}].is_trailing_edge)".format(at), lambda i, j: (eq(i, ZERO), eq(i, S.M - ONE)), over=over(N))

    return c


contract("C07", "one more section of a one-sided wing")(step(False))
contract("C07", "one more section of a symmetric wing")(step(True))


@contract("C07", "positions and edges of any grid")
def positions(cx):
    X = cx.dim("X", hi=3) + 1
    S = Sections(cx, X)
    C = cx.dim("C")
    cx.setf(S.wing, "num_spanwise_panels", C)
    old = cx.objarr((S.M, C), lambda i, j: cx.obj("panel.Panel", tag=cx.real("tag", i, j), is_leading_edge=eq(i, ZERO), is_trailing_edge=eq(i, S.M - ONE)))
    cx.let(old=old, n=X - 1)
    cx.exec("""
    def havoc(v, space):
        verif_need(len(space) == n)
        return old
    verif_cut(ps.meshing.mesh_wing, n - 1, havoc, verif_after=True, verif_carried=True, verif_loop=0, wing=w)
    """)
    cx.post("the wing's panels are the meshed ones", "w.panels[i, j].tag", lambda i, j: T.app("tag", i, j), over=[("i", S.M), ("j", C)])
    cx.post("grid", "w.panels.shape", lambda: (S.M, C))
    marks(cx, S.M, C)


# ---- neighbouring panels share their corners, in the order of the grid

@contract("C07", "panels of a section share corners")
def shared(cx):
    M, N = cx.dim("M"), cx.dim("N")
    S = Sections(cx, num(2))
    cx.setf(S.wing, "symmetric", FALSE)
    cx.setf(S.wing, "num_spanwise_panels", S.N(ZERO))
    cx.exec("ps.meshing.mesh_wing(w)")
    cx.post("with the panel behind", "(w.panels[i, j].back_left_vertex, w.panels[i, j].back_right_vertex)", "(w.panels[i + 1, j].front_left_vertex, w.panels[i + 1, j].front_right_vertex)",
            over=[("i", S.M - ONE), ("j", S.N(ZERO))])
    cx.post("with the panel to the right", "(w.panels[i, j].front_right_vertex, w.panels[i, j].back_right_vertex)", "(w.panels[i, j + 1].front_left_vertex, w.panels[i, j + 1].back_left_vertex)",
            over=[("i", S.M), ("j", S.N(ZERO) - ONE)])
