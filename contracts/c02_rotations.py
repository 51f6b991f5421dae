"""C02: rotation representations convert into each other without changing the rotation."""
import math
import torch
from vt.ctx import contract
from pytorch3d import transforms as T
from pytorch3d.transforms import rotation_conversions as RC

F = torch.float64
MOD = "pytorch3d.transforms.rotation_conversions."
CONV = [a + b + d for a in "XYZ" for b in "XYZ" for d in "XYZ" if a != b and b != d]


def qmat(c, q):
    """the matrix of a unit quaternion, from its definition"""
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def unitq(c, name, shape):
    """unit quaternions"""
    q = c.real(name, tuple(shape) + (4,), F)
    if c.sym:
        c.require_all(shape, lambda *i: c.eq(c.dot(c.vec(q, *i, n=4), c.vec(q, *i, n=4)), 1))
        return q
    n = q.norm(dim=-1, keepdim=True)
    if bool((n < 1e-2).any()):
        c.require(False)
    return q / n


def orthonormal(c, label, R, N):
    c.check(label + " orthogonal", (N, 3, 3), lambda n, i, j: c.eq(c.dot(c.vec(R, n, i), c.vec(R, n, j)), c.ite(c.ieq(i, j), 1.0, 0.0)))
    c.check(label + " det", (N,), lambda n: c.eq(c.det3(c.mat(R, n)), 1))


@contract("C02", "quaternion to matrix is the rotation p -> q p q*", [MOD + "quaternion_to_matrix"])
def _(c):
    N, M = c.dim("N"), c.dim("M")
    q = c.real("q", (N, M, 4), F)
    c.require_all((N, M), lambda n, m: c.lt(0, c.dot(c.vec(q, n, m, n=4), c.vec(q, n, m, n=4))) if c.sym else
                  c.dot(c.vec(q, n, m, n=4), c.vec(q, n, m, n=4)) > 1e-3)
    R = RC.quaternion_to_matrix(q)
    c.shape("shape", R, (N, M, 3, 3))

    def want(n, m, i, j):
        v = c.vec(q, n, m, n=4)
        return c.eq(c.g(R, n, m, i, j) * c.dot(v, v), qmat(c, v)[int(i)][int(j)])
    c.check("value", (N, M, 3, 3), want)
    c.check("orthogonal", (N, M, 3, 3), lambda n, m, i, j: c.eq(c.dot(c.vec(R, n, m, i), c.vec(R, n, m, j)), 1 if int(i) == int(j) else 0))
    c.check("det", (N, M), lambda n, m: c.eq(c.det3(c.mat(R, n, m)), 1))


def prot(c, q):
    return [[c.eq(x, y) for x, y in zip(r, s)] for r, s in q]


@contract("C02", "matrix to quaternion recovers the quaternion up to sign", [MOD + "matrix_to_quaternion", MOD + "_sqrt_positive_part",
          MOD + "standardize_quaternion"], [dict(i=i) for i in range(4)], seconds=200)
def _(c, i):
    N = c.dim("N")
    q = unitq(c, "q", (N,))
    R = c.tensor((N, 3, 3), lambda n, a, b: pick(c, qmat(c, c.vec(q, n, n=4)), a, b), F)
    r = RC.matrix_to_quaternion(R)
    c.shape("shape", r, (N, 4))
    if i == 0:
        c.check("real part", (N,), lambda n: c.le(0, c.g(r, n, 0)))
    # r r^T = q q^T, hence r = q or r = -q and both stand for R
    c.check("same rotation", (N, 4), lambda n, j: c.eq(c.g(r, n, i) * c.g(r, n, j), c.g(q, n, i) * c.g(q, n, j)) if int(j) >= i else True)


def pick(c, M, i, j):
    if type(i) is int and type(j) is int:
        return M[i][j]
    r = M[2][2]
    for a in range(3):
        for b in range(3):
            if (a, b) != (2, 2):
                r = c.ite(c.and_(c.ieq(i, a), c.ieq(j, b)), M[a][b], r)
    return r


@contract("C02", "matrix to quaternion rejects wrong shapes and keeps batch dims", [MOD + "matrix_to_quaternion"])
def _(c):
    N, M = c.dim("N"), c.dim("M")
    q = unitq(c, "q", (N, M))
    c.shape("shape", RC.matrix_to_quaternion(RC.quaternion_to_matrix(q)), (N, M, 4))
    c.raises("wrong shape", ValueError, lambda: RC.matrix_to_quaternion(c.real("bad", (N, 3, 4), F)))


@contract("C02", "euler angles to matrix is the product of the axis rotations", [MOD + "euler_angles_to_matrix", MOD + "_axis_angle_rotation"],
          [dict(conv=k) for k in CONV])
def _(c, conv):
    N = c.dim("N")
    a = c.real("a", (N, 3), F, lo=-4, hi=4)
    R = RC.euler_angles_to_matrix(a, conv)
    c.shape("shape", R, (N, 3, 3))

    def want(n):
        M = c.eye(3)
        for k, ax in enumerate(conv):
            M = c.mm(M, axm(c, ax, c.g(a, n, k)))
        return M
    c.check("value", (N, 3, 3), lambda n, i, j: c.eq(c.g(R, n, i, j), want(n)[int(i)][int(j)]))


def axm(c, ax, t):
    s, k = c.sin(t), c.cos(t)
    if ax == "X":
        return [[1, 0, 0], [0, k, -s], [0, s, k]]
    if ax == "Y":
        return [[k, 0, s], [0, 1, 0], [-s, 0, k]]
    return [[k, -s, 0], [s, k, 0], [0, 0, 1]]


@contract("C02", "matrix to euler angles returns angles of the same rotation", [MOD + "matrix_to_euler_angles", MOD + "_angle_from_tan",
          MOD + "_index_from_letter"], [dict(conv=k) for k in CONV], seconds=100)
def _(c, conv):
    N = c.dim("N")
    a = c.real("a", (N, 3), F, lo=-3.1, hi=3.1)
    # away from gimbal lock
    f = c.cos if conv[0] != conv[2] else c.sin
    c.require_all((N,), lambda n: c.not_(c.eq(f(c.g(a, n, 1)), 0)) if c.sym else abs(f(c.g(a, n, 1))) > 0.02)
    R = RC.euler_angles_to_matrix(a, conv)
    b = RC.matrix_to_euler_angles(R, conv)
    c.shape("shape", b, (N, 3))
    S = RC.euler_angles_to_matrix(b, conv)
    c.check("same rotation", (N, 3, 3), lambda n, i, j: c.eq(c.g(S, n, i, j), c.g(R, n, i, j)))
    lo, hi = (-0.5, 0.5) if conv[0] != conv[2] else (0, 1)
    c.check("central range", (N,), lambda n: c.and_(c.le(lo * c.pi, c.g(b, n, 1)), c.le(c.g(b, n, 1), hi * c.pi)))
    c.check("outer range", (N,), lambda n: c.and_(*[c.and_(c.le(-c.pi, c.g(b, n, k)), c.le(c.g(b, n, k), c.pi)) for k in (0, 2)]))


@contract("C02", "invalid euler conventions are rejected", [MOD + "euler_angles_to_matrix", MOD + "matrix_to_euler_angles"],
          [dict(conv=k) for k in ("XX", "XXY", "XYY", "XYW", "xyz", "XYZX")])
def _(c, conv):
    N = c.dim("N")
    a, M = c.real("a", (N, 3), F), c.rotation("R", (N,))
    c.raises("to matrix", ValueError, lambda: RC.euler_angles_to_matrix(a, conv))
    c.raises("to euler", ValueError, lambda: RC.matrix_to_euler_angles(M, conv))


def rodrigues(c, v):
    """matrix of the rotation by |v| about v (v != 0)"""
    t2 = c.dot(v, v)
    t = c.sqrt(t2)
    s, k = c.sin(t), c.cos(t)
    K = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
    K2 = c.mm(K, K)
    return [[(1.0 if i == j else 0.0) + s / t * K[i][j] + (1 - k) / t2 * K2[i][j] for j in range(3)] for i in range(3)]


@contract("C02", "axis-angle to matrix is Rodrigues' formula", [MOD + "axis_angle_to_matrix", MOD + "axis_angle_to_quaternion"],
          [dict(fast=f) for f in (False, True)], seconds=150)
def _(c, fast):
    N, M = c.dim("N"), c.dim("M")
    v = c.real("v", (N, M, 3), F, lo=-4, hi=4)
    R = RC.axis_angle_to_matrix(v, fast=fast)
    c.shape("shape", R, (N, M, 3, 3))

    def ok(n, m, i, j):
        x = c.vec(v, n, m)
        z = c.eq(c.dot(x, x), 0) if c.sym else c.dot(x, x) == 0
        return c.and_(c.implies(z, lambda: c.eq(c.g(R, n, m, i, j), 1 if int(i) == int(j) else 0)),
                      c.implies(c.not_(z), lambda: c.eq(c.g(R, n, m, i, j), rodrigues(c, x)[int(i)][int(j)])))
    c.check("value", (N, M, 3, 3), ok)


@contract("C02", "axis-angle to quaternion is (cos, sin axis) of the half angle", [MOD + "axis_angle_to_quaternion"])
def _(c):
    N = c.dim("N")
    v = c.real("v", (N, 3), F, lo=-5, hi=5)
    q = RC.axis_angle_to_quaternion(v)
    c.shape("shape", q, (N, 4))

    def ok(n, j):
        x = c.vec(v, n)
        t = c.norm(x)
        j = int(j)
        if j == 0:
            return c.eq(c.g(q, n, 0), c.cos(t / 2))
        z = c.eq(t, 0) if c.sym else t == 0
        return c.and_(c.implies(z, lambda: c.eq(c.g(q, n, j), 0)), c.implies(c.not_(z), lambda: c.eq(c.g(q, n, j), c.sin(t / 2) * x[j - 1] / t)))
    c.check("value", (N, 4), ok)
    c.check("unit", (N,), lambda n: c.eq(c.dot(c.vec(q, n, n=4), c.vec(q, n, n=4)), 1))


@contract("C02", "quaternion to axis-angle is twice the half angle along the axis", [MOD + "quaternion_to_axis_angle"], seconds=60)
def _(c):
    N = c.dim("N")
    q = unitq(c, "q", (N,))
    v = RC.quaternion_to_axis_angle(q)
    c.shape("shape", v, (N, 3))

    def ok(n, i):
        w, *x = c.vec(q, n, n=4)
        i = int(i)
        s = c.norm(x)
        z = c.eq(s, 0) if c.sym else s < 1e-12
        # h in [0, pi] has cos h = w and sin h = s
        h = c.atan2(s, w)
        return c.and_(c.implies(c.and_(z, w > 0), lambda: c.eq(c.g(v, n, i), 0)), c.implies(c.not_(z), lambda: c.eq(c.g(v, n, i), 2 * h * x[i] / s)))
    c.check("value", (N, 3), ok)
    if not c.sym:
        r = RC.axis_angle_to_quaternion(v)
        c.check("round trip", (N, 4), lambda n, j: c.eq(c.g(r, n, j), c.g(q, n, j)))


@contract("C02", "matrix to axis-angle is quaternion to axis-angle of its quaternion", [MOD + "matrix_to_axis_angle"])
def _(c):
    N = c.dim("N")
    R = c.rotation("R", (N,))
    c.same("composition", RC.matrix_to_axis_angle(R), RC.quaternion_to_axis_angle(RC.matrix_to_quaternion(R)))


@contract("C02", "matrix to axis-angle and back is the identity", [MOD + "matrix_to_axis_angle", MOD + "axis_angle_to_matrix"],
          [dict(fast=f, near=k) for f in (False, True) for k in ("generic", "half turn", "half turn axis", "mixed")], conc_only=True, trials=60, tol=3e-5)
def _(c, fast, near):
    N = c.dim("N")
    v = c.real("v", (N, 3), F)
    n = v.norm(dim=-1, keepdim=True)
    c.require(bool((n > 0.1).all()))
    if near == "half turn":
        v = v / n * math.pi
    elif near == "half turn axis":
        v = torch.eye(3, dtype=F)[torch.tensor([k % 3 for k in range(N)])] * math.pi
    elif near == "mixed":
        k = torch.tensor([k % 2 == 0 for k in range(N)])
        v[k] = (v / n * math.pi)[k]
    R = RC.axis_angle_to_matrix(v)
    w = RC.matrix_to_axis_angle(R, fast=fast)
    c.same("round trip", RC.axis_angle_to_matrix(w), R)
    c.check("norm", (N,), lambda n: c.le(c.norm(c.vec(w, n)), math.pi))


def hamilton(a, b):
    return [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
            a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]


@contract("C02", "quaternion products represent matrix products", [MOD + "quaternion_raw_multiply", MOD + "quaternion_multiply", MOD + "quaternion_invert",
          MOD + "standardize_quaternion"], seconds=100)
def _(c):
    N = c.dim("N")
    a, b = c.real("a", (N, 4), F), c.real("b", (N, 4), F)
    r = RC.quaternion_raw_multiply(a, b)
    m = RC.quaternion_multiply(a, b)
    c.shape("shape", r, (N, 4))
    c.shape("shape2", m, (N, 4))
    c.check("raw", (N, 4), lambda n, j: c.eq(c.g(r, n, j), hamilton(c.vec(a, n, n=4), c.vec(b, n, n=4))[int(j)]))
    c.check("standard", (N, 4), lambda n, j: c.eq(c.g(m, n, j), c.ite(c.g(r, n, 0) < 0, -c.g(r, n, j), c.g(r, n, j))))
    c.check("matrix of the product", (N, 3, 3), lambda n, i, j: c.eq(
        qmat(c, c.vec(r, n, n=4))[int(i)][int(j)], c.mm(qmat(c, c.vec(a, n, n=4)), qmat(c, c.vec(b, n, n=4)))[int(i)][int(j)]))
    v = RC.quaternion_invert(a)
    w = RC.quaternion_raw_multiply(a, v)
    c.check("inverse", (N, 4), lambda n, j: c.eq(c.g(w, n, j), c.dot(c.vec(a, n, n=4), c.vec(a, n, n=4)) if int(j) == 0 else 0))
    c.fact("dtype", v.dtype == F)


@contract("C02", "standardised quaternion is the equivalent one with non-negative real part", [MOD + "standardize_quaternion"])
def _(c):
    N, M = c.dim("N"), c.dim("M")
    a = c.real("a", (N, M, 4), F)
    keep = c.unchanged("argument", a)
    s = RC.standardize_quaternion(a)
    keep()
    c.shape("shape", s, (N, M, 4))
    c.check("real part", (N, M), lambda n, m: c.le(0, c.g(s, n, m, 0)))
    c.check("value", (N, M, 4), lambda n, m, j: c.eq(c.g(s, n, m, j), c.ite(c.g(a, n, m, 0) < 0, -c.g(a, n, m, j), c.g(a, n, m, j))))


@contract("C02", "quaternion application is the matrix-vector product", [MOD + "quaternion_apply"], [dict(b=b) for b in ("same", "bcast")])
def _(c, b):
    N, P = c.dim("N"), c.dim("P")
    q = unitq(c, "q", (N, P) if b == "same" else (N, 1))
    p = c.real("p", (N, P, 3), F)
    r = RC.quaternion_apply(q, p)
    c.shape("shape", r, (N, P, 3))
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(r, n, k, i), c.dot(
        qmat(c, c.vec(q, n, k if b == "same" else 0, n=4))[int(i)], c.vec(p, n, k))))
    c.raises("points must be 3D", ValueError, lambda: RC.quaternion_apply(q, c.real("p4", (N, P, 4), F)))


@contract("C02", "6D to matrix is Gram-Schmidt of the two rows", [MOD + "rotation_6d_to_matrix"], seconds=100)
def _(c):
    # every pair of independent vectors is (al b1, be b1 + ga b2) for orthonormal b1, b2 and al, ga > 0;
    # Gram-Schmidt returns exactly b1, b2, b1 x b2
    N = c.dim("N")
    R = c.rotation("R", (N,))
    al, be, ga = c.real("al", (N,), F, lo=0.01, hi=3), c.real("be", (N,), F), c.real("ga", (N,), F, lo=0.01, hi=3)
    c.require_all((N,), lambda n: c.and_(c.lt(1e-6, c.g(al, n)), c.lt(1e-6, c.g(ga, n))))

    def vec6(n, j):
        v = [c.g(al, n) * c.g(R, n, 0, k) for k in range(3)] + [c.g(be, n) * c.g(R, n, 0, k) + c.g(ga, n) * c.g(R, n, 1, k) for k in range(3)]
        if type(j) is int:
            return v[j]
        r = v[5]
        for k in range(5):
            r = c.ite(c.ieq(j, k), v[k], r)
        return r
    d = c.tensor((N, 6), vec6, F)
    keep = c.unchanged("argument", d)
    M = RC.rotation_6d_to_matrix(d)
    keep()
    c.same("value", M, R)


@contract("C02", "matrix to 6D keeps the first two rows and round-trips", [MOD + "matrix_to_rotation_6d", MOD + "rotation_6d_to_matrix"], seconds=100)
def _(c):
    N = c.dim("N")
    R = c.rotation("R", (N,))
    d = RC.matrix_to_rotation_6d(R)
    c.shape("shape", d, (N, 6))
    c.check("value", (N, 6), lambda n, j: c.eq(c.g(d, n, j), c.g(R, n, int(j) // 3, int(j) % 3)))
    c.same("round trip", RC.rotation_6d_to_matrix(d), R)


@contract("C02", "random rotations are rotations", [MOD + "random_quaternions", MOD + "random_rotations", MOD + "random_rotation"], conc_only=True,
          bounded="random draws")
def _(c):
    N = c.dim("N")
    q = RC.random_quaternions(N, dtype=F)
    c.shape("shape", q, (N, 4))
    c.check("unit", (N,), lambda n: c.eq(c.dot(c.vec(q, n, n=4), c.vec(q, n, n=4)), 1))
    c.check("standard", (N,), lambda n: c.le(0, c.g(q, n, 0)))
    R = RC.random_rotations(N, dtype=F)
    orthonormal(c, "random_rotations", R, N)
    R1 = RC.random_rotation(dtype=F)
    c.shape("one", R1, (3, 3))
    orthonormal(c, "random_rotation", R1[None], 1)
