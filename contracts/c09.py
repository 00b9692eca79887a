"""C09 frames."""
from spec import *

IDEN = tuple(num(1 if i == j else 0) for i in range(3) for j in range(3))


def rad(x):
    return x * T.PI / 180


@contract("C09", "wind axes")
def wind(cx):
    a, b, V = cx.real("alpha", lo=-170.0, hi=170.0), cx.real("beta", lo=-170.0, hi=170.0), cx.real("V")
    cx.let(a=a, b=b, V=V)
    cx.exec("""
    op = ps.operating_point.OperatingPoint(density=1.2, velocity=V, alpha=a, beta=b)
    R = op.calculate_rotation_matrix_wind_to_geometry()
    d = op.calculate_freestream_direction_geometry_axes()
    f = op.calculate_freestream_velocity_geometry_axes()
    """)
    ca, sa, cb, sb = T.cos(rad(a)), T.sin(rad(a)), T.cos(rad(b)), T.sin(rad(b))
    want = (ca * cb, -sb, sa * cb)
    cx.post("shape", "R.shape", lambda: (num(3), num(3)))
    cx.post("orthogonal", "R @ R.T", lambda: IDEN)
    cx.post("orthogonal (transpose)", "R.T @ R", lambda: IDEN)
    cx.post("determinant +1", "R[0,0]*(R[1,1]*R[2,2]-R[1,2]*R[2,1]) - R[0,1]*(R[1,0]*R[2,2]-R[1,2]*R[2,0]) + R[0,2]*(R[1,0]*R[2,1]-R[1,1]*R[2,0])", lambda: ONE)
    cx.post("freestream direction", "d", lambda: want)
    cx.post("unit direction", "d @ d", lambda: ONE)
    cx.post("freestream velocity", "f", lambda: scale(V, want))
    cx.post("speed", "f @ f", lambda: V * V)
    # upstream x axis, z axis down: the whole matrix is fixed by alpha, beta
    cx.post("freestream comes from the wind x axis", "R @ np.array([-1.0, 0.0, 0.0])", lambda: want)
    cx.post("wind z axis points down in the symmetry plane", "R @ np.array([0.0, 0.0, 1.0])", lambda: (sa, ZERO, -ca))
    cx.post("wind y axis", "R @ np.array([0.0, 1.0, 0.0])", lambda: (ca * sb, cb, sa * sb))


@contract("C09", "dynamic pressure")
def dyn(cx):
    rho, V = cx.real("rho"), cx.real("V")
    cx.let(rho=rho, V=V)
    cx.exec("""
    op = ps.operating_point.OperatingPoint(density=rho, velocity=V)
    q = op.calculate_dynamic_pressure()
    """)
    cx.post("dynamic pressure", "q", lambda: rho * V * V * H)


def rotation(normalised):
    def c(cx):
        th = cx.real("theta", lo=-7.0, hi=7.0)
        ax = cx.vec("axis")
        A = cx.v3(ax)
        x = cx.vec("x")
        X = cx.v3(x)
        if normalised:
            cx.require(eq(dot(A, A), ONE))
        else:
            cx.require(gt(dot(A, A), ZERO))
        cx.let(th=th, ax=ax, x=x)
        cx.exec("""
        R = ps.functions.angle_axis_rotation_matrix(th, ax%s)
        y = R @ x
        """ % (", True" if normalised else ""))
        n = ONE if normalised else norm(A)
        u = tuple(t / n for t in A)
        c_, s_ = T.cos(th), T.sin(th)
        ux = cross(u, X)
        k = dot(u, X)
        cx.post("Rodrigues", "y", lambda: tuple(X[i] * c_ + ux[i] * s_ + u[i] * k * (1 - c_) for i in range(3)))
        if not normalised:
            cx.post("orthogonal", "R @ R.T", lambda: IDEN)
            cx.post("orthogonal (transpose)", "R.T @ R", lambda: IDEN)
            cx.post("determinant +1", "R[0,0]*(R[1,1]*R[2,2]-R[1,2]*R[2,1]) - R[0,1]*(R[1,0]*R[2,2]-R[1,2]*R[2,0]) + R[0,2]*(R[1,0]*R[2,1]-R[1,1]*R[2,0])", lambda: ONE)
            cx.post("axis kept", "R @ ax", lambda: A)
            cx.post("trace", "R[0,0]+R[1,1]+R[2,2]", lambda: ONE + 2 * c_)
        cx.post("axis argument not changed", "ax", lambda: A)

    return c


contract("C09", "rotation about any axis")(rotation(False))
contract("C09", "rotation about a unit axis", concrete=False)(rotation(True))


@contract("C09", "reflection")
def reflect(cx):
    """The plane's unit normal is n / |n| for an arbitrary non-zero n."""
    p, n, q, r = (cx.vec(s) for s in ("p", "n", "q", "r"))
    P_, N_, Q_, R_ = (cx.v3(s) for s in (p, n, q, r))
    cx.require(gt(dot(N_, N_), ZERO))
    cx.let(p=p, n=n, q=q, r=r)
    cx.exec("""
    u = n / np.linalg.norm(n)
    m = ps.functions.reflect_point_across_plane(p, u, q)
    mm = ps.functions.reflect_point_across_plane(m, u, q)
    mr = ps.functions.reflect_point_across_plane(r, u, q)
    on = r - np.dot(r - q, u) * u
    mon = ps.functions.reflect_point_across_plane(on, u, q)
    """)
    nn = dot(N_, N_)
    k = dot(sub(P_, Q_), N_) / nn
    cx.post("mirror image", "m", lambda: tuple(P_[i] - 2 * k * N_[i] for i in range(3)))
    cx.post("involution", "mm", lambda: P_)
    cx.post("distances kept", "(m - mr) @ (m - mr)", lambda: dot(sub(P_, R_), sub(P_, R_)))
    cx.post("plane fixed", "mon", "on")
    cx.post("arguments not changed", "p", lambda: P_)
    cx.post("midpoint on the plane", "np.dot((m + p) / 2 - q, u)", lambda: ZERO)


@contract("C09", "centroid")
def centroid(cx):
    v = {k: cx.vec(k) for k in ("fl", "fr", "bl", "br")}
    V = {k: cx.v3(x) for k, x in v.items()}
    cx.let(**v)
    cx.exec("c = ps.functions.numba_centroid_of_quadrilateral(fl, fr, bl, br)")
    cx.post("mean of the corners", "c", lambda: tuple((V["fl"][i] + V["fr"][i] + V["bl"][i] + V["br"][i]) * Q for i in range(3)))


@contract("C09", "cross product")
def crossp(cx):
    N = cx.dim("N", hi=4)
    cx.let(a=cx.arr("a", (N, num(3))), b=cx.arr("b", (N, num(3))))
    cx.exec("c = ps.functions.numba_1d_explicit_cross(a, b)")
    g = lambda nm, i: tuple(T.app(nm, i, num(k)) for k in range(3))
    cx.post("row-wise cross product", "c[i]", lambda i: cross(g("a", i), g("b", i)), over=[("i", N)])
    cx.post("shape", "c.shape", lambda: (N, num(3)))
