"""C03: SO(3)/SE(3) exponential and logarithm."""
import math
import torch
from vt.ctx import contract
from pytorch3d.transforms import so3, se3
from pytorch3d.transforms import math as pm
from pytorch3d.transforms import rotation_conversions as RC

F = torch.float64
S3, SE, RM = "pytorch3d.transforms.so3.", "pytorch3d.transforms.se3.", "pytorch3d.transforms.math."


def skew(v):
    return [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]


@contract("C03", "hat is the cross-product matrix and vee inverts it", [S3 + "hat", S3 + "hat_inv"])
def _(c):
    N = c.dim("N")
    v = c.real("v", (N, 3), F)
    h = so3.hat(v)
    c.shape("shape", h, (N, 3, 3))
    c.check("value", (N, 3, 3), lambda n, i, j: c.eq(c.g(h, n, i, j), skew(c.vec(v, n))[int(i)][int(j)]))
    c.same("vee of hat", so3.hat_inv(h), v)
    c.same("hat of vee", so3.hat(so3.hat_inv(h)), h)
    c.raises("vee wants 3x3", ValueError, lambda: so3.hat_inv(c.real("b", (N, 3, 4), F)))
    c.raises("hat wants 3-vectors", ValueError, lambda: so3.hat(c.real("b4", (N, 4), F)))


@contract("C03", "vee rejects matrices that are not skew", [S3 + "hat_inv"], [dict(i=i, j=j, s=s) for i, j in ((0, 0), (0, 1), (2, 1), (2, 2), (0, 2)) for s in (1, -1)])
def _(c, i, j, s):
    N = c.dim("N")
    h = c.real("h", (N, 3, 3), F)
    n0 = c.integer("n0", 0, N)
    c.require(c.lt(1e-5, s * (c.g(h, n0, i, j) + c.g(h, n0, j, i))) if c.sym else s * (c.g(h, n0, i, j) + c.g(h, n0, j, i)) > 1.1e-5)
    c.raises("rejected", ValueError, lambda: so3.hat_inv(h))


def rodrigues(c, v):
    t2 = c.dot(v, v)
    t = c.sqrt(t2)
    s, k = c.sin(t), c.cos(t)
    K = skew(v)
    K2 = c.mm(K, K)
    return [[(1.0 if i == j else 0.0) + s / t * K[i][j] + (1 - k) / t2 * K2[i][j] for j in range(3)] for i in range(3)]


def isz(c, x):
    return c.eq(x, 0) if c.sym else x == 0


@contract("C03", "SO(3) exponential is Rodrigues' formula", [S3 + "so3_exp_map", S3 + "_so3_exp_map", S3 + "so3_exponential_map"], seconds=100)
def _(c):
    N = c.dim("N")
    v = c.real("v", (N, 3), F, lo=-4, hi=4)
    R = so3.so3_exp_map(v)
    c.shape("shape", R, (N, 3, 3))

    def ok(n, i, j):
        x = c.vec(v, n)
        z = isz(c, c.dot(x, x))
        return c.and_(c.implies(z, lambda: c.eq(c.g(R, n, i, j), 1 if int(i) == int(j) else 0)),
                      c.implies(c.not_(z), lambda: c.eq(c.g(R, n, i, j), rodrigues(c, x)[int(i)][int(j)])))
    c.check("value", (N, 3, 3), ok)
    c.same("alias", so3.so3_exponential_map(v), R)
    c.raises("3-vectors only", ValueError, lambda: so3.so3_exp_map(c.real("b4", (N, 4), F)))


@contract("C03", "SO(3) logarithm is the axis-angle vector", [S3 + "so3_log_map"])
def _(c):
    N = c.dim("N")
    R = c.rotation("R", (N,))
    c.same("axis-angle", so3.so3_log_map(R), RC.matrix_to_axis_angle(R))
    c.raises("3x3 only", ValueError, lambda: so3.so3_log_map(c.real("b4", (N, 4, 3), F)))


@contract("C03", "SO(3) log inverts exp below pi", [S3 + "so3_log_map", S3 + "so3_exp_map"], [dict(k=k) for k in ("generic", "small", "nearpi")],
          conc_only=True, trials=40, bounded="random log-rotations of norm below pi")
def _(c, k):
    N = c.dim("N")
    v = c.real("v", (N, 3), F)
    n = v.norm(dim=-1, keepdim=True)
    c.require(bool((n > 0.01).all()))
    r = {"generic": n * 0.9, "small": n * 1e-4, "nearpi": math.pi - 1e-3 * n}[k]
    v = v / n * r
    R = so3.so3_exp_map(v)
    w = so3.so3_log_map(R)
    c.same("log exp", w, v)
    c.same("exp log", so3.so3_exp_map(w), R)


def angle2(c, w, eps):
    """clamped squared rotation angle"""
    return c.max(c.dot(w, w), eps)


def vmat(c, w, eps):
    t2 = angle2(c, w, eps)
    t = c.sqrt(t2)
    K = skew(w)
    K2 = c.mm(K, K)
    a, b = (1 - c.cos(t)) / t2, (t - c.sin(t)) / (t * t2)
    return [[(1.0 if i == j else 0.0) + a * K[i][j] + b * K2[i][j] for j in range(3)] for i in range(3)]


@contract("C03", "SE(3) exponential is [exp(w), V u] in row-vector form", [SE + "se3_exp_map", SE + "_se3_V_matrix", S3 + "_so3_exp_map"], seconds=100)
def _(c):
    N = c.dim("N")
    x = c.real("x", (N, 6), F)
    eps = c.scalar("eps", 1e-5, 1.0)
    c.require(eps > 0)
    M = se3.se3_exp_map(x, eps=eps)
    c.shape("shape", M, (N, 4, 4))
    R = so3.so3_exp_map(x[:, 3:])
    c.check("rotation", (N, 3, 3), lambda n, i, j: c.eq(c.g(M, n, i, j), c.g(R, n, j, i)))
    c.check("last column", (N, 4), lambda n, i: c.eq(c.g(M, n, i, 3), 1 if int(i) == 3 else 0))

    def tr(n, i):
        u, w = c.vec(x, n, n=6)[:3], c.vec(x, n, n=6)[3:]
        return c.eq(c.g(M, n, 3, i), c.dot(vmat(c, w, eps)[int(i)], u))
    c.check("translation", (N, 3), tr)
    c.raises("6-vectors only", ValueError, lambda: se3.se3_exp_map(c.real("b", (N, 5), F)))


@contract("C03", "SE(3) default clamp is 1e-4", [SE + "se3_exp_map", SE + "se3_log_map", SE + "_get_se3_V_input"])
def _(c):
    N = c.dim("N")
    x = c.real("x", (N, 6), F)
    c.same("exp", se3.se3_exp_map(x), se3.se3_exp_map(x, eps=1e-4))
    if not c.sym:
        M = se3.se3_exp_map(x)
        c.same("log", se3.se3_log_map(M), se3.se3_log_map(M, eps=1e-4))


@contract("C03", "se3 log inverts se3 exp", [SE + "se3_log_map", SE + "_get_se3_V_input", SE + "_se3_V_matrix"], [dict(k=k) for k in ("big", "small")],
          seconds=150)
def _(c, k):
    N = c.dim("N")
    x = c.real("x", (N, 6), F, lo=-1.2, hi=1.2) if k == "big" else c.real("x", (N, 6), F, lo=-0.2, hi=0.2)
    eps = c.scalar("eps", 1e-4, 0.3)
    c.require(eps > 0)

    def pre(n):
        w = c.vec(x, n, n=6)[3:]
        s = c.dot(w, w)
        return c.and_(c.lt(eps, s) if k == "big" else c.lt(s, eps), c.not_(c.eq(c.det3(vmat(c, w, eps)), 0)))
    c.require_all((N,), pre)
    if not c.sym:
        c.require(bool((x[:, 3:].norm(dim=-1) > 1e-3).all()))
    M = se3.se3_exp_map(x, eps=eps)
    # the logarithm of the rotation block is used through its contract: log(exp(w)) = w
    with c.stub("pytorch3d.transforms.se3.so3_log_map", lambda R, *a, **kw: x[:, 3:]):
        y = se3.se3_log_map(M, eps=eps)
    c.shape("shape", y, (N, 6))
    c.check("rotation", (N, 3), lambda n, i: c.eq(c.g(y, n, 3 + i), c.g(x, n, 3 + i)))
    c.check("translation", (N, 3), lambda n, i: c.eq(c.g(y, n, i), c.g(x, n, i)))


@contract("C03", "se3 log rejects malformed transforms", [SE + "se3_log_map"])
def _(c):
    N = c.dim("N")
    c.raises("not 4x4", ValueError, lambda: se3.se3_log_map(c.real("a", (N, 3, 4), F)))
    c.raises("no batch", ValueError, lambda: se3.se3_log_map(c.real("b", (4, 4), F)))
    if not c.sym:
        M = c.real("M", (N, 4, 4), F)
        M[0, 1, 3] = 0.5
        c.raises("last column", ValueError, lambda: se3.se3_log_map(M))


@contract("C03", "clamped arccos is exact inside the bounds and linear outside", [RM + "acos_linear_extrapolation", RM + "_acos_linear_approximation", RM + "_dacos_dx"],
          [dict(k=k) for k in ("default", "given")])
def _(c, k):
    N = c.dim("N")
    x = c.real("x", (N,), F, lo=-1.5, hi=1.5)
    if k == "default":
        b = 1 - 1e-4
        c.same("default bounds", pm.acos_linear_extrapolation(x), pm.acos_linear_extrapolation(x, (-b, b)))
        return
    else:
        lo, hi = c.scalar("lo", -0.95, 0.1), c.scalar("hi", 0.2, 0.95)
        c.require(c.and_(c.lt(-1, lo), c.lt(lo, hi), c.lt(hi, 1)))
        y = pm.acos_linear_extrapolation(x, (lo, hi))
    c.shape("shape", y, (N,))

    def lin(v, b):
        return c.acos(b) - (v - b) / c.sqrt(1 - b * b)

    def ok(n):
        v = c.g(x, n)
        return c.and_(c.implies(c.le(hi, v) if c.sym else hi < v, lambda: c.eq(c.g(y, n), lin(v, hi))),
                      c.implies(c.le(v, lo) if c.sym else v < lo, lambda: c.eq(c.g(y, n), lin(v, lo))),
                      c.implies(c.and_(c.lt(lo, v), c.lt(v, hi)) if c.sym else lo < v < hi, lambda: c.eq(c.g(y, n), c.acos(v))))
    c.check("value", (N,), ok)


@contract("C03", "clamped arccos rejects bad bounds", [RM + "acos_linear_extrapolation"], [dict(b=b) for b in ((0.5, 0.2), (-1.0, 0.5), (-0.5, 1.0), (-2.0, 0.0))])
def _(c, b):
    N = c.dim("N")
    x = c.real("x", (N,), F)
    c.raises("bounds", ValueError, lambda: pm.acos_linear_extrapolation(x, b))


@contract("C03", "rotation angle follows the trace formula", [S3 + "so3_rotation_angle", S3 + "so3_relative_angle"],
          [dict(rel=r, cos=k, cb=b) for r in (False, True) for k in (False, True) for b in (1e-4, 0.0)], seconds=80)
def _(c, rel, cos, cb):
    if cos and cb == 0.0:
        return c.fact("covered by the other case", True)
    N = c.dim("N")
    if rel:
        A, B = c.rotation("A", (N,)), c.rotation("B", (N,))
        tr = lambda n: c.dot([c.g(A, n, i, j) for i in range(3) for j in range(3)], [c.g(B, n, i, j) for i in range(3) for j in range(3)])
    else:
        A = c.rotation("A", (N,))
        tr = lambda n: c.g(A, n, 0, 0) + c.g(A, n, 1, 1) + c.g(A, n, 2, 2)
    if c.sym:
        c.require_all((N,), lambda n: c.and_(c.le(-1, tr(n)), c.le(tr(n), 3)))    # a fact about rotations
    if rel:
        y = so3.so3_relative_angle(A, B, cos_angle=cos, cos_bound=cb)
    else:
        y = so3.so3_rotation_angle(A, cos_angle=cos, cos_bound=cb)
    c.shape("shape", y, (N,))

    def ok(n):
        k = (tr(n) - 1) / 2
        if cos:
            return c.eq(c.g(y, n), k)
        if cb == 0.0:
            return c.eq(c.g(y, n), c.acos(k))
        return c.eq(c.g(y, n), c.g(z, n))
    if not cos and cb:
        b = 1 - cb
        z = pm.acos_linear_extrapolation(c.tensor((N,), lambda n: (tr(n) - 1) / 2, F), (-b, b))
    c.check("value", (N,), ok)


@contract("C03", "rotation angle rejects impossible traces", [S3 + "so3_rotation_angle"], [dict(k=k) for k in ("low", "high")])
def _(c, k):
    N = c.dim("N")
    R = c.real("R", (N, 3, 3), F, lo=-2, hi=2) if c.sym else (c.real("R", (N, 3, 3), F) + (2.5 if k == "high" else -1.5) * torch.eye(3, dtype=F))
    n0 = c.integer("n0", 0, N)
    t = c.g(R, n0, 0, 0) + c.g(R, n0, 1, 1) + c.g(R, n0, 2, 2)
    c.require(c.lt(t, -1 - 1e-4) if k == "low" else c.lt(3 + 1e-4, t))
    if not c.sym:
        c.require(t < -1.01 if k == "low" else t > 3.01)
    c.raises("rejected", ValueError, lambda: so3.so3_rotation_angle(R))
