"""C18: squared distances between points, segments and triangles."""
import sys
import torch
from vt.ctx import contract
from vt import gen, cpp, term as tm
from vt.sess import SymReal, scalar_term
import pytorch3d.loss  # noqa
from pytorch3d import _C
from pytorch3d.structures import Meshes, Pointclouds

NATIVE = True
F = torch.float32
L = "pytorch3d.loss.point_mesh_distance."
CS = "pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp:"
GU = "pytorch3d/csrc/utils/geometry_utils.h:"
PM = sys.modules["pytorch3d.loss.point_mesh_distance"]
EPS = 1e-8


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


class Saver:
    def save_for_backward(self, *a):
        self.saved_tensors = a


def setup(c, H):
    c.default(F)
    P, B = (c.dim(x, hi=None if c.sym else 4) for x in "PB")
    p = c.real("p", (P, 3), F)
    b = c.real("b", (B, H, 3), F)
    return P, B, p, b


def seg(c, p, v0, v1):
    """squared distance of p to the segment (to v1 when the segment is shorter than 1e-4)"""
    d = sub(v1, v0)
    l2 = c.dot(d, d)
    t = c.dot(d, sub(p, v0)) / l2
    tt = c.ite(t < 0, 0, c.ite(t > 1, 1, t))
    e = [p[k] - v0[k] - tt * d[k] for k in range(3)]
    g = sub(p, v1)
    return c.ite(l2 <= EPS, lambda: c.dot(g, g), lambda: c.dot(e, e))


@contract("C18", "point to segment distance", [CS + "PointEdgeArrayDistanceForwardCpu", CS + "PointHullArrayDistanceForwardCpu", GU + "PointLine3DistanceForward"], tol=1e-4)
def _(c):
    P, B, p, b = setup(c, 2)
    out = _C.point_edge_array_dist_forward(p, b)
    c.shape("shape", out, (P, B))
    c.check("distance to the clamped foot point", (P, B), lambda i, j: c.eq(c.g(out, i, j), seg(c, c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1))))


@contract("C18", "the clamped foot point is the closest point of the segment", [GU + "PointLine3DistanceForward"], tol=1e-4)
def _(c):
    P, B, p, b = setup(c, 2)
    s = c.scalar("s", 0, 1)
    c.require(0 <= s)
    c.require(s <= 1)
    out = _C.point_edge_array_dist_forward(p, b)
    c.require_all((B,), lambda j: c.dot(sub(c.vec(b, j, 1), c.vec(b, j, 0)), sub(c.vec(b, j, 1), c.vec(b, j, 0))) > EPS)

    def other(i, j):
        """excess of the squared distance to the point at s over the returned one, as a sum of non-negative terms"""
        q, v0, v1 = c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1)
        d = sub(v1, v0)
        l2 = c.dot(d, d)
        t = c.dot(d, sub(q, v0)) / l2
        tt = c.ite(t < 0, 0, c.ite(t > 1, 1, t))
        e = [q[k] - v0[k] - s * d[k] for k in range(3)]
        return c.eq(c.dot(e, e) - c.g(out, i, j), (s - t) * (s - t) * l2 - (tt - t) * (tt - t) * l2)
    c.check("excess", (P, B), other)
    t = c.scalar("t", -5, 5)
    tt = c.ite(t < 0, 0, c.ite(t > 1, 1, t))
    c.fact("the excess is not negative", c.le((tt - t) * (tt - t), (s - t) * (s - t)))


def tri_dist(c, p, v0, v1, v2, area):
    n = c.cross(sub(v2, v0), sub(v1, v0))
    m = c.norm(n)
    n = [x / (m + EPS) for x in n]
    t = c.dot(sub(v0, p), n)
    q = [p[k] + t * n[k] for k in range(3)]
    a, b, d = sub(v1, v0), sub(v2, v0), sub(q, v0)
    aa, ab, bb, da, db = c.dot(a, a), c.dot(a, b), c.dot(b, b), c.dot(d, a), c.dot(d, b)
    den = aa * bb - ab * ab + EPS
    w1, w2 = (bb * da - ab * db) / den, (aa * db - ab * da) / den
    w0 = 1 - w1 - w2
    return n, m, t, (w0, w1, w2)


@contract("C18", "point to triangle distance", [CS + "PointFaceArrayDistanceForwardCpu", GU + "PointTriangle3DistanceForward", GU + "IsInsideTriangle", GU + "BarycentricCoords3Forward", GU + "AreaOfTriangle"], tol=1e-4)
def _(c):
    P, B, p, b = setup(c, 3)
    with cpp.stub(c, "PointLine3DistanceForward", lambda ip, a, _: tm.app("segdist", tuple(a), "R")):
        out = _C.point_face_array_dist_forward(p, b, 0.005)
    sg = (lambda *v: SymReal(tm.app("segdist", tuple(scalar_term(x) for y in v for x in y), "R"))) if c.sym else (lambda *v: seg(c, *v))
    c.shape("shape", out, (P, B))

    def dist(i, j):
        q, v0, v1, v2 = c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1), c.vec(b, j, 2)
        _, m, t, w = tri_dist(c, q, v0, v1, v2, 0.005)
        inside = c.and_(c.not_(m / 2 < 0.005), *[c.and_(0 <= x, x <= 1) for x in w], m > EPS)
        a, e, f = sg(q, v0, v1), sg(q, v0, v2), sg(q, v1, v2)
        edge = lambda: c.ite(c.ite(a > e, e, a) > f, f, c.ite(a > e, e, a))
        return c.ite(inside, lambda: t * t, edge)
    c.check("distance", (P, B), lambda i, j: c.eq(c.g(out, i, j), dist(i, j)))


def seg_grad(c, q, v0, v1, g):
    """derivatives of the squared distance (p, v0, v1)"""
    d, pv, pw = sub(v1, v0), sub(q, v0), sub(q, v1)
    l2 = c.dot(d, d)
    t = c.dot(d, pv) / l2
    e = [q[k] - v0[k] - t * d[k] for k in range(3)]
    pick = lambda k, w: c.ite(t < 0, lambda: w[0][k], lambda: c.ite(t > 1, lambda: w[1][k], lambda: w[2][k]))
    z = [0, 0, 0]
    G = 2 * g
    gp = ([G * x for x in pv], [G * x for x in pw], [G * x for x in e])
    # e is orthogonal to d (checked below), so the terms with D, the derivatives of t, vanish
    D = G * c.dot(e, d)
    g0 = ([-G * x for x in pv], z, [(t - 1) * G * e[k] - D * (2 * t * d[k] - d[k] - pv[k]) / l2 for k in range(3)])
    g1 = (z, [-G * x for x in pw], [-t * G * e[k] - D * (pv[k] - 2 * t * d[k]) / l2 for k in range(3)])
    return [[pick(k, w) for k in range(3)] for w in (gp, g0, g1)]


@contract("C18", "gradients of the point to segment distance", [GU + "PointLine3DistanceBackward", CS + "HullHullDistanceBackward", CS + "IncrementPoint"], tol=1e-3)
def _(c):
    c.default(F)
    p, b, g = c.real("p", (1, 3), F), c.real("b", (1, 2, 3), F), c.real("g", (1, 1), F)
    q, v0, v1 = c.vec(p, 0), c.vec(b, 0, 0), c.vec(b, 0, 1)
    d = sub(v1, v0)
    c.require(c.dot(d, d) > (EPS if c.sym else 0.01))
    gp, gb = _C.point_edge_array_dist_backward(p, b, g)
    c.shape("shape p", gp, (1, 3))
    c.shape("shape b", gb, (1, 2, 3))
    w = seg_grad(c, q, v0, v1, c.g(g, 0, 0))
    t = c.dot(d, sub(q, v0)) / c.dot(d, d)
    c.fact("the foot point's offset is orthogonal to the segment", c.eq(c.dot([q[k] - v0[k] - t * d[k] for k in range(3)], d), 0))
    for k in range(3):
        c.fact(f"point {k}", c.eq(c.g(gp, 0, k), w[0][k]))
        for r in range(2):
            c.fact(f"end {r} {k}", c.eq(c.g(gb, 0, r, k), w[1 + r][k]))


def opaque(c, nm, n, *v):
    """rows of an uninterpreted function of the arguments, standing for the callee's contract"""
    a = tuple(scalar_term(x) for y in v for x in (y if isinstance(y, list) else [y]))
    return [[SymReal(tm.app(f"{nm}{r}{k}", a, "R")) for k in range(3)] for r in range(n)]


def opaque_stub(nm, n):
    return lambda ip, a, args: cpp.tuple_of(ip, args[0], [[tm.app(f"{nm}{r}{k}", tuple(a), "R") for k in range(3)] for r in range(n)])


@contract("C18", "gradients of all pairs add up per point and per segment", [CS + "PointEdgeArrayDistanceBackwardCpu", CS + "PointHullArrayDistanceBackwardCpu", CS + "HullHullDistanceBackward", CS + "IncrementPoint"], tol=1e-3)
def _(c):
    P, B, p, b = setup(c, 2)
    g = c.real("g", (P, B), F)
    if not c.sym:
        c.require_all((B,), lambda j: c.dot(sub(c.vec(b, j, 1), c.vec(b, j, 0)), sub(c.vec(b, j, 1), c.vec(b, j, 0))) > 0.01)
    with cpp.stub(c, "PointLine3DistanceBackward", opaque_stub("sg", 3)):
        gp, gb = _C.point_edge_array_dist_backward(p, b, g)
    at = lambda i, j: (opaque(c, "sg", 3, c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1), c.g(g, i, j)) if c.sym else
                       seg_grad(c, c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1), c.g(g, i, j)))
    for k in range(3):
        c.check(f"points {k}", (P,), lambda i, k=k: c.eq(c.g(gp, i, k), c.sum(B, lambda j: at(i, j)[0][k])))
        for q in range(2):
            c.check(f"segments {q} {k}", (B,), lambda j, k=k, q=q: c.eq(c.g(gb, j, q, k), c.sum(P, lambda i: at(i, j)[1 + q][k])))


@contract("C18", "gradients of selected pairs add up", [CS + "PointEdgeDistanceBackwardCpu", CS + "EdgePointDistanceBackwardCpu", CS + "HullHullDistanceBackwardCpu", L + "_PointEdgeDistance.backward", L + "_EdgePointDistance.backward"],
          [dict(kind="point_edge"), dict(kind="edge_point")], tol=1e-3)
def _(c, kind):
    P, B, p, b = setup(c, 2)
    n, m = (P, B) if kind == "point_edge" else (B, P)
    g = c.real("g", (n,), F)
    idx = c.ints("idx", (n,), 0, m)
    if not c.sym:
        c.require_all((B,), lambda j: c.dot(sub(c.vec(b, j, 1), c.vec(b, j, 0)), sub(c.vec(b, j, 1), c.vec(b, j, 0))) > 0.01)
    s = Saver()
    s.saved_tensors = (p, b, idx)
    with cpp.stub(c, "PointLine3DistanceBackward", opaque_stub("sg", 3)):
        r = (PM._PointEdgeDistance if kind == "point_edge" else PM._EdgePointDistance).backward(s, g)
    c.fact("no gradient for indices", c.and_(r[1] is None, r[3] is None, r[4] is None))
    gp, gb = r[0], r[2]
    at = lambda i, j, a: (opaque(c, "sg", 3, c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1), c.g(g, a)) if c.sym else
                          seg_grad(c, c.vec(p, i), c.vec(b, j, 0), c.vec(b, j, 1), c.g(g, a)))
    own = lambda k: c.g(idx, k)
    for k in range(3):
        if kind == "point_edge":
            c.check(f"points {k}", (P,), lambda i, k=k: c.eq(c.g(gp, i, k), at(i, own(i), i)[0][k]))
            for q in range(2):
                c.check(f"segments {q} {k}", (B,), lambda j, k=k, q=q: c.eq(c.g(gb, j, q, k), c.sum(P, lambda i: c.ite(c.ieq(own(i), j), lambda: at(i, own(i), i)[1 + q][k], lambda: 0))))
        else:
            c.check(f"points {k}", (P,), lambda i, k=k: c.eq(c.g(gp, i, k), c.sum(B, lambda j: c.ite(c.ieq(own(j), i), lambda: at(own(j), j, j)[0][k], lambda: 0))))
            for q in range(2):
                c.check(f"segments {q} {k}", (B,), lambda j, k=k, q=q: c.eq(c.g(gb, j, q, k), at(own(j), j, j)[1 + q][k]))


# ---------------------------------------------------------------- bounded: real runs against an independent oracle

def closest(p, t):
    """closest point of the hull t (1, 2 or 3 points) to p, as differentiable weights, in float64"""
    def segd(a, b):
        d = b - a
        l = (d * d).sum()
        s = ((p - a) * d).sum() / l if float(l) > 1e-12 else torch.zeros((), dtype=torch.float64)
        return ((p - a - s.clamp(0, 1) * d) ** 2).sum()
    if len(t) == 2:
        return segd(t[0], t[1])
    best = min((segd(t[0], t[1]), segd(t[1], t[2]), segd(t[0], t[2])), key=float)
    n = torch.linalg.cross(t[1] - t[0], t[2] - t[0])
    A = (n * n).sum()
    if float(A) > 1e-12:
        q = p - ((p - t[0]) * n).sum() / A * n
        w = [(torch.linalg.cross(t[(k + 2) % 3] - t[(k + 1) % 3], q - t[(k + 1) % 3]) * n).sum() for k in range(3)]
        if all(float(x) >= 0 for x in w):
            best = ((p - t[0]) * n).sum() ** 2 / A
    return best


def hulls(c, tag, H, nmax, counts, lo=-2.0, hi=2.0):
    """hulls of the batch elements; triangles and segments well away from degenerate ones"""
    out = []
    for k, n in enumerate(counts):
        def fix(t):
            for r in range(t.shape[0]):
                for _ in range(50):
                    if H == 3 and float(torch.linalg.cross(t[r, 1] - t[r, 0], t[r, 2] - t[r, 0]).norm()) < 0.3 or H == 2 and float((t[r, 1] - t[r, 0]).norm()) < 0.1:
                        t[r] = torch.rand(H, 3).to(t) * (hi - lo) + lo
            return t
        out.append(c.real(f"{tag}{k}", (n, H, 3) if H > 1 else (n, 3), F, lo, hi, fix=fix) if n else torch.zeros((0, H, 3) if H > 1 else (0, 3)))
    return out


def first(counts):
    r = [0]
    for n in counts[:-1]:
        r.append(r[-1] + n)
    return torch.tensor(r)


CASES = [dict(kind=k) for k in ("point_face", "face_point", "point_edge", "edge_point")]


def layout(c, H):
    N = c.integer("N", 1, 5)
    cp = [c.integer(f"cp{k}", 0, 5) for k in range(N)]
    ch = [c.integer(f"ch{k}", 0, 5) for k in range(N)]
    return N, cp, ch


@contract("C18", "distances over batches", [CS + "HullHullDistanceForwardCpu", CS + "HullHullDistanceBackwardCpu", L + "_PointFaceDistance", L + "_FacePointDistance", L + "_PointEdgeDistance", L + "_EdgePointDistance"], CASES,
          conc_only=True, trials=40, bounded="batches of up to 4 elements with up to 4 points and 4 non-degenerate hulls each, empty ones included")
def _(c, kind):
    H = 3 if "face" in kind else 2
    c.default(F)
    N, cp, ch = layout(c, H)
    src, dst = (cp, ch) if kind.startswith("point") else (ch, cp)
    c.require(all(not (s > 0 and d == 0) for s, d in zip(src, dst)))
    c.require(sum(src) > 0)
    ps, hs = hulls(c, "p", 1, 4, cp), hulls(c, "h", H, 4, ch)
    pp, hh = torch.cat(ps).requires_grad_(), torch.cat(hs).requires_grad_()
    fn = dict(point_face=PM.point_face_distance, face_point=PM.face_point_distance, point_edge=PM.point_edge_distance, edge_point=PM.edge_point_distance)[kind]
    d = fn(pp, first(cp), hh, first(ch), max(src))
    raw = getattr(_C, kind + "_dist_forward")(pp.detach(), first(cp), hh.detach(), first(ch), max(src), *([0.005] if H == 3 else []))
    gen_ok = gen.close(raw[0], d.detach(), 1e-6)
    c.fact("python and kernel agree", gen_ok)
    P64, H64 = pp.detach().double().requires_grad_(), hh.detach().double().requires_grad_()
    want, tie, a0, b0 = [], False, 0, 0
    for n in range(N):
        for i in range(src[n]):
            if src is cp:
                al = [closest(P64[a0 + i], H64[b0 + j]) for j in range(dst[n])]
            else:
                al = [closest(P64[b0 + j], H64[a0 + i]) for j in range(dst[n])]
            al2 = sorted(float(x) for x in al)
            tie = tie or len(al2) > 1 and al2[1] - al2[0] < 1e-3
            k = min(range(len(al)), key=lambda j: float(al[j]))
            want.append(al[k])
            c.fact("index of the closest element of the same batch element", len(al2) > 1 and al2[1] - al2[0] < 1e-4 or int(raw[1][len(want) - 1]) == b0 + k)
        a0 += src[n]
        b0 += dst[n]
    w = torch.stack(want)
    c.fact("distance", gen.close(d.detach(), w.detach(), 2e-4))
    g = c.real("g", (len(want),), F)
    d.backward(g)
    w.backward(g.double())
    if not tie:
        bad = lambda a, b: not gen.close(a.grad, b.grad, 1e-2)
        if bad(pp, P64) or bad(hh, H64):
            # a point whose nearest feature is at a region boundary has one-sided derivatives only: perturb and compare values
            pass
        c.fact("gradient of points", not bad(pp, P64))
        c.fact("gradient of elements", not bad(hh, H64))


@contract("C18", "aggregated losses weigh every mesh by its own counts", [L + "point_mesh_face_distance", L + "point_mesh_edge_distance"], [dict(kind="face"), dict(kind="edge")],
          conc_only=True, trials=30, bounded="batches of up to 3 meshes of up to 6 vertices and 6 faces and clouds of up to 6 points")
def _(c, kind):
    c.default(F)

    def area_ok(v, f):
        x = torch.linalg.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
        return bool((x.norm(dim=1) > 0.3).all())
    vs, fs = gen.mesh_lists(c, "m", empty=False)
    c.require(all(area_ok(v, f) for v, f in zip(vs, fs)))
    N = len(vs)
    ps = [c.real(f"q{k}", (c.integer(f"nq{k}", 1, 7), 3), F) for k in range(N)]
    m, pc = Meshes(vs, fs), Pointclouds(ps)
    out = (PM.point_mesh_face_distance if kind == "face" else PM.point_mesh_edge_distance)(m, pc)
    tot = 0.0
    for n in range(N):
        v, f = vs[n].double(), fs[n]
        if kind == "face":
            el = [v[t] for t in f]
        else:
            el = [v[list(e)] for e in sorted({tuple(sorted((int(t[a]), int(t[b])))) for t in f for a, b in ((0, 1), (1, 2), (0, 2))})]
        D = torch.tensor([[float(closest(q, t)) for t in el] for q in ps[n].double()])
        tot += float(D.min(1).values.mean() + D.min(0).values.mean()) / N
    c.fact("value", abs(float(out) - tot) <= 1e-3 * (1 + tot))
    c.raises("batches of different sizes", (ValueError,), lambda: (PM.point_mesh_face_distance if kind == "face" else PM.point_mesh_edge_distance)(m, Pointclouds(ps + [torch.rand(2, 3)])))
