"""C01: Transform3d is the algebra of 4x4 row-vector transforms."""
import torch
from vt.ctx import contract
from pytorch3d.transforms import Transform3d, Translate, Scale, Rotate, RotateAxisAngle
from pytorch3d.transforms import transform3d as T3

F = torch.float64
MOD = "pytorch3d.transforms.transform3d."
CORE = [MOD + "Transform3d." + n for n in ("__init__", "compose", "get_matrix", "transform_points", "inverse", "_get_matrix_inverse")] \
    + [MOD + "_broadcast_bmm"]


def hom(c, p, M):
    """row-vector homogeneous image of point p (3 scalars) under 4x4 M"""
    h = [p[0], p[1], p[2], 1]
    return [c.dot(h, [M[k][j] for k in range(4)]) for j in range(4)]


def affine(c, name, N):
    A = c.real(name, (N, 3, 3), F)
    t = c.real(name + "t", (N, 3), F)

    def f(n, i, j):
        if type(i) is int and type(j) is int:
            if j < 3:
                return c.g(A, n, i, j) if i < 3 else c.g(t, n, j)
            return 1.0 if i == 3 else 0.0
        return c.ite(c.ieq(j, 3), c.ite(c.ieq(i, 3), 1.0, 0.0), c.ite(c.ieq(i, 3), c.g(t, n, c.ite(c.ieq(j, 3), 0, j)),
                     c.g(A, n, c.ite(c.ieq(i, 3), 0, i), c.ite(c.ieq(j, 3), 0, j))))
    return c.tensor((N, 4, 4), f, F)


@contract("C01", "transform_points is the homogeneous row-vector product", CORE, [dict(pb=b, tb=t) for b in ("N", "1", "none") for t in ("N", "1")])
def _(c, pb, tb):
    N, P = c.dim("N"), c.dim("P")
    nb = {"N": N, "1": 1}
    M = c.real("M", (nb[tb], 4, 4), F)
    pts = c.real("p", (P, 3) if pb == "none" else (nb[pb], P, 3), F)
    keep = c.unchanged("input points", pts)
    out = Transform3d(matrix=M, dtype=F).transform_points(pts)
    keep()
    B = N if (tb == "N" or pb == "N") else 1
    ret2 = pb == "none" and tb == "1"

    def want(n, k):
        p = c.vec(pts, k) if pb == "none" else c.vec(pts, n if pb == "N" else 0, k)
        return hom(c, p, c.mat(M, n if tb == "N" else 0, n=4))
    if pb == "none" and tb == "N":
        c.require(c.lt(1, N)) if c.sym else c.require(N > 1)
    c.shape("shape", out, (P, 3) if ret2 else (B, P, 3))
    c.require_all((B, P), lambda n, k: c.not_(c.eq(want(n, k)[3], 0)))

    def ok(n, k, j):
        h = want(n, k)
        got = c.g(out, k, j) if ret2 else c.g(out, n, k, j)
        return c.eq(got, h[j] / h[3])
    c.check("value", (B, P, 3), ok)


@contract("C01", "eps clamps the homogeneous denominator away from zero", CORE)
def _(c):
    N, P = c.dim("N"), c.dim("P")
    M = c.real("M", (N, 4, 4), F)
    pts = c.real("p", (N, P, 3), F)
    e = c.scalar("eps", 0.01, 1.0)
    c.require(e > 0)
    out = Transform3d(matrix=M, dtype=F).transform_points(pts, eps=e)

    def ok(n, k, j):
        h = hom(c, c.vec(pts, n, k), c.mat(M, n, n=4))
        w = h[3]
        d = c.ite(w < 0, c.min(w, -e), c.max(w, e))
        return c.eq(c.g(out, n, k, j), h[j] / d)
    c.check("value", (N, P, 3), ok)


@contract("C01", "compose multiplies matrices left to right and applies in order", CORE,
          [dict(a=a, b=b) for a in ("N", "1") for b in ("N", "1")])
def _(c, a, b):
    N, P = c.dim("N"), c.dim("P")
    nb = {"N": N, "1": 1}
    A, B, D = c.real("A", (nb[a], 4, 4), F), c.real("B", (nb[b], 4, 4), F), c.real("D", (1, 4, 4), F)
    ta, tb, td = Transform3d(matrix=A), Transform3d(matrix=B), Transform3d(matrix=D)
    kA = c.unchanged("first operand", A)
    t = ta.compose(tb, td)
    t2 = ta.compose(tb).compose(td)
    M = t.get_matrix()
    kA()
    n0 = N if "N" in (a, b) else 1
    c.shape("shape", M, (n0, 4, 4))

    def prod(n):
        return c.mm(c.mm(c.mat(A, n if a == "N" else 0, n=4), c.mat(B, n if b == "N" else 0, n=4)), c.mat(D, 0, n=4))
    c.check("matrix", (n0, 4, 4), lambda n, i, j: c.eq(c.g(M, n, i, j), prod(n)[int(i)][int(j)]))
    c.same("associative", t2.get_matrix(), M)
    c.same("operand matrix kept", ta.get_matrix(), A)


@contract("C01", "composed points equal sequential application (affine)", CORE)
def _(c):
    N, P = c.dim("N"), c.dim("P")
    A, B = affine(c, "A", N), affine(c, "B", N)
    pts = c.real("p", (N, P, 3), F)
    ta, tb = Transform3d(matrix=A), Transform3d(matrix=B)
    c.same("points", ta.compose(tb).transform_points(pts), tb.transform_points(ta.transform_points(pts)))


@contract("C01", "inverse undoes the transform", CORE, [dict(k=k) for k in ("general", "composed", "invert_composed", "nested", "nested_chain", "broadcast")], seconds=90)
def _(c, k):
    N = c.dim("N")
    if k == "general":
        A = c.real("A", (N, 4, 4), F)
        t = Transform3d(matrix=A)
        c.require_all((N,), lambda n: c.not_(c.abs(det4(c, c.mat(A, n, n=4))) < 0.05) if not c.sym else
                      c.not_(c.eq(det4(c, c.mat(A, n, n=4)), 0)))
        X, Y = t.get_matrix(), t.inverse().get_matrix()
    else:
        v = c.real("v", (N, 3), F)
        s = c.real("s", (N, 3), F, lo=0.2, hi=2.5)
        c.require_all((N, 3), lambda n, i: c.not_(c.eq(c.g(s, n, i), 0)) if c.sym else abs(c.g(s, n, i)) > 0.05)
        R = c.rotation("R", (N,))
        if k == "broadcast":
            t = Translate(v[:1], dtype=F).compose(Scale(s, dtype=F), Rotate(R[:1], dtype=F))
        elif k == "nested":
            t = Rotate(R, dtype=F).compose(Scale(s, dtype=F).compose(Translate(v, dtype=F)))
        elif k == "nested_chain":
            t = Translate(v, dtype=F).compose(Scale(s, dtype=F).translate(v), Translate(v, dtype=F).compose(Translate(v, dtype=F).scale(s)))
        else:
            t = Translate(v, dtype=F).compose(Scale(s, dtype=F), Rotate(R, dtype=F))
        keep = [q._matrix for q in [t] + t._transforms]
        t.inverse()
        c.fact("operands kept", len(t._transforms) == len(keep) - 1 and all(a is q._matrix for a, q in zip(keep, [t] + t._transforms)))
        X, Y = t.get_matrix(), t.inverse(invert_composed=(k == "invert_composed")).get_matrix()
    c.shape("shape", Y, (N, 4, 4))

    def ok(n, i, j):
        i, j = int(i), int(j)
        r = c.dot([c.g(X, n, i, m) for m in range(4)], [c.g(Y, n, m, j) for m in range(4)])
        return c.eq(r, 1 if i == j else 0)
    c.check("T T^-1 = I", (N, 4, 4), ok)


def det4(c, M):
    r = 0
    for j in range(4):
        m = [[M[i][k] for k in range(4) if k != j] for i in range(1, 4)]
        x = M[0][j] * c.det3(m)
        r = r + x if j % 2 == 0 else r - x
    return r


KINDS = ("translate", "scale", "rotate", "axisangle")


def make(c, kind, N, dt=F):
    if kind == "translate":
        v = c.real("v", (N, 3), dt)
        return Translate(v, dtype=dt), lambda n, p: [p[i] + c.g(v, n, i) for i in range(3)]
    if kind == "scale":
        s = c.real("v", (N, 3), dt, lo=0.2, hi=2.5)
        c.require_all((N, 3), lambda n, i: c.not_(c.eq(c.g(s, n, i), 0)) if c.sym else abs(c.g(s, n, i)) > 0.05)
        return Scale(s, dtype=dt), lambda n, p: [p[i] * c.g(s, n, i) for i in range(3)]
    if kind == "rotate":
        R = c.rotation("R", (N,), dt)
        return Rotate(R, dtype=dt), lambda n, p: [c.dot(p, [c.g(R, n, k, i) for k in range(3)]) for i in range(3)]
    a = c.real("a", (N,), dt)
    ax = kind[-1]
    return RotateAxisAngle(a, axis=ax, degrees=False, dtype=dt), lambda n, p: axrot(c, ax, c.g(a, n), p)


def axrot(c, ax, t, p):
    s, k = c.sin(t), c.cos(t)
    x, y, z = p
    if ax in "xX":
        return [x, k * y - s * z, s * y + k * z]
    if ax in "yY":
        return [k * x + s * z, y, -s * x + k * z]
    return [k * x - s * y, s * x + k * y, z]


@contract("C01", "primitive transforms act as documented and invert themselves",
          CORE + [MOD + k + m for k in ("Translate", "Scale", "Rotate") for m in (".__init__", "._get_matrix_inverse")]
          + [MOD + "RotateAxisAngle.__init__", MOD + "_handle_input", MOD + "_handle_angle_input"],
          [dict(kind=k) for k in ("translate", "scale", "rotate", "axisX", "axisY", "axisZ")])
def _(c, kind):
    N, P = c.dim("N"), c.dim("P")
    t, f = make(c, kind, N)
    pts = c.real("p", (N, P, 3), F)
    out = t.transform_points(pts)
    c.shape("shape", out, (N, P, 3))
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), f(n, c.vec(pts, n, k))[int(i)]))
    c.same("inverse", t.inverse().transform_points(out), pts)


@contract("C01", "builders chain the primitive transforms", [MOD + "Transform3d." + n for n in ("translate", "scale", "rotate", "rotate_axis_angle")])
def _(c):
    N, P = c.dim("N"), c.dim("P")
    v, s = c.real("v", (N, 3), F), c.real("s", (N, 3), F)
    R = c.rotation("R", (N,))
    a = c.real("a", (N,), F)
    pts = c.real("p", (N, P, 3), F)
    t = Transform3d(dtype=F).translate(v).scale(s).rotate(R).rotate_axis_angle(a, axis="Y", degrees=False)
    out = t.transform_points(pts)

    def want(n, k):
        p = [c.g(pts, n, k, i) + c.g(v, n, i) for i in range(3)]
        p = [p[i] * c.g(s, n, i) for i in range(3)]
        p = [c.dot(p, [c.g(R, n, m, i) for m in range(3)]) for i in range(3)]
        return axrot(c, "Y", c.g(a, n), p)
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), want(n, k)[int(i)]))


@contract("C01", "angles in degrees", [MOD + "RotateAxisAngle.__init__"], [dict(ax=a) for a in "XYZ"])
def _(c, ax):
    N = c.dim("N")
    a = c.real("a", (N,), F, lo=-200, hi=200)
    M = RotateAxisAngle(a, axis=ax, degrees=True, dtype=F).get_matrix()

    def ok(n, i, j):
        e = [1.0 if k == int(i) else 0.0 for k in range(3)]
        return c.eq(c.g(M, n, i, j), axrot(c, ax, c.g(a, n) * c.pi / 180, e)[int(j)])
    c.check("matrix", (N, 3, 3), ok)


@contract("C01", "scalar and per-axis arguments broadcast", [MOD + "_handle_input", MOD + "_handle_coord"], [dict(k=k) for k in ("T", "S", "S1")])
def _(c, k):
    N = c.dim("N")
    x = c.real("x", (N,), F)
    y, z = c.scalar("y"), c.scalar("z")
    if k == "T":
        M = Translate(x, y, z, dtype=F).get_matrix()
    elif k == "S":
        M = Scale(x, y, z, dtype=F).get_matrix()
    else:
        M = Scale(x, dtype=F).get_matrix()

    def want(n, i, j):
        i, j = int(i), int(j)
        d = [c.g(x, n), y, z] if k != "S1" else [c.g(x, n)] * 3
        if k == "T":
            return d[j] if (i == 3 and j < 3) else float(i == j)
        return d[i] if (i == j and i < 3) else float(i == j)
    c.shape("shape", M, (N, 4, 4))
    c.check("matrix", (N, 4, 4), lambda n, i, j: c.eq(c.g(M, n, i, j), want(n, i, j)))


@contract("C01", "normals stay orthogonal to transformed tangents", [MOD + "Transform3d.transform_normals"])
def _(c):
    N, P = c.dim("N"), c.dim("P")
    A = affine(c, "A", N)
    nr, v = c.real("n", (N, P, 3), F), c.real("v", (N, P, 3), F)
    c.require_all((N,), lambda n: c.not_(c.eq(c.det3(c.mat(A, n)), 0)) if c.sym else abs(c.det3(c.mat(A, n))) > 0.05)
    out = Transform3d(matrix=A).transform_normals(nr)
    c.shape("shape", out, (N, P, 3))

    def ok(n, k):
        tv = [c.dot(c.vec(v, n, k), [c.g(A, n, m, j) for m in range(3)]) for j in range(3)]
        return c.eq(c.dot(c.vec(out, n, k), tv), c.dot(c.vec(nr, n, k), c.vec(v, n, k)))
    c.check("n'.t' = n.t", (N, P), ok)


@contract("C01", "stack concatenates the batches", [MOD + "Transform3d.stack"])
def _(c):
    N, M = c.dim("N"), c.dim("M")
    A, B = c.real("A", (N, 4, 4), F), c.real("B", (M, 4, 4), F)
    S = Transform3d(matrix=A).stack(Transform3d(matrix=B)).get_matrix()
    c.shape("shape", S, (N + M, 4, 4))
    c.check("first", (N, 4, 4), lambda n, i, j: c.eq(c.g(S, n, i, j), c.g(A, n, i, j)))
    c.check("second", (M, 4, 4), lambda n, i, j: c.eq(c.g(S, N + n, i, j), c.g(B, n, i, j)))


@contract("C01", "indexing selects batch elements and keeps dtype and kind",
          [MOD + k + ".__getitem__" for k in ("Transform3d", "Translate", "Scale", "Rotate")],
          [dict(kind=k, ix=i, dt=d) for k in ("general", "translate", "scale", "rotate", "axisX") for i, d in
           (("int", "f64"), ("neg", "f32"), ("list", "f64"), ("slice", "f32"), ("tensor", "f64"))], tol=1e-5)
def _(c, kind, ix, dt):
    dt = F if dt == "f64" else torch.float32
    N = c.dim("N", 3)
    if kind == "general":
        t = Transform3d(matrix=c.real("A", (N, 4, 4), dt))
    else:
        t, _ = make(c, kind, N, dt)
    M = t.get_matrix()
    if ix == "int":
        s, sel = t[1], [1]
    elif ix == "neg":
        s, sel = t[-1], [N - 1]
    elif ix == "list":
        s, sel = t[[2, 0]], [2, 0]
    elif ix == "slice":
        s, sel = t[1:], None
    else:
        s, sel = t[torch.tensor([0, 2])], [0, 2]
    R = s.get_matrix()
    c.fact("dtype", s.dtype == dt and R.dtype == dt)
    c.fact("kind", isinstance(s, Transform3d))
    if sel is None:
        c.shape("shape", R, (N - 1, 4, 4))
        c.check("slice", (N - 1, 4, 4), lambda n, i, j: c.eq(c.g(R, n, i, j), c.g(M, n + 1, i, j)))
    else:
        c.shape("shape", R, (len(sel), 4, 4))
        c.check("selected", (len(sel), 4, 4), lambda n, i, j: c.eq(c.g(R, n, i, j), c.g(M, sel[int(n)], i, j)))


@contract("C01", "composed transforms are stacked, indexed, converted and applied like their matrix",
          CORE + [MOD + "Transform3d." + n for n in ("stack", "__getitem__", "__len__", "clone", "to", "transform_normals")])
def _(c):
    N, P = c.dim("N", 2), c.dim("P")
    A, B, C = affine(c, "A", N), affine(c, "B", 1), affine(c, "C", N)
    t = Transform3d(matrix=A).compose(Transform3d(matrix=B).compose(Transform3d(matrix=C)))
    M = t.get_matrix()
    m = Transform3d(matrix=M)
    c.eq(len(t), N) if not c.sym else None
    S = t.stack(Transform3d(matrix=B).compose(t)).get_matrix()
    c.shape("stack shape", S, (2 * N, 4, 4))
    c.check("stack first", (N, 4, 4), lambda n, i, j: c.eq(c.g(S, n, i, j), c.g(M, n, i, j)))
    BM = Transform3d(matrix=B).compose(m).get_matrix()
    c.check("stack second", (N, 4, 4), lambda n, i, j: c.eq(c.g(S, N + n, i, j), c.g(BM, n, i, j)))
    I = t[1].get_matrix()
    c.shape("index shape", I, (1, 4, 4))
    c.check("index", (1, 4, 4), lambda n, i, j: c.eq(c.g(I, n, i, j), c.g(M, 1, i, j)))
    c.same("clone", t.clone().get_matrix(), M)
    u = t.to("cpu", dtype=torch.float32, copy=True)
    c.fact("dtype of the parts", all(q.dtype == torch.float32 and q._matrix.dtype == torch.float32 for q in [u] + u._transforms) and t.dtype == F)
    p = c.real("p", (N, P, 3), F)
    c.same("points", t.transform_points(p), m.transform_points(p))
    c.require_all((N,), lambda n: c.not_(c.eq(c.det3(c.mat(M, n)), 0)) if c.sym else abs(c.det3(c.mat(M, n))) > 0.05)
    c.same("normals", t.transform_normals(p), m.transform_normals(p))


@contract("C01", "clone and to are independent copies with the same transform", [MOD + "Transform3d.clone", MOD + "Transform3d.to"])
def _(c):
    N = c.dim("N")
    A, B = c.real("A", (N, 4, 4), F), c.real("B", (N, 4, 4), F)
    t = Transform3d(matrix=A).compose(Transform3d(matrix=B))
    k = t.clone()
    c.same("clone", k.get_matrix(), t.get_matrix())
    M0 = t.get_matrix()
    k._matrix[:, 0, 0] = 7.0
    k._transforms[0]._matrix[:, 1, 1] = 5.0
    c.same("independent", t.get_matrix(), M0)
    u = t.to("cpu", dtype=torch.float32)
    c.fact("dtype", u.dtype == torch.float32 and u.get_matrix().dtype == torch.float32 and t.get_matrix().dtype == F)
    c.fact("same object", t.to("cpu") is t and t.to("cpu", copy=True) is not t)
