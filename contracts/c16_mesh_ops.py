"""C16: geometry operators on meshes."""
import sys
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa
from pytorch3d.ops import interp_face_attrs as IF, graph_conv as GC, mesh_filtering as MF, subdivide_meshes as SD, laplacian_matrices as LM
from pytorch3d.structures import Meshes
from pytorch3d.renderer import TexturesVertex

NATIVE = True
F = torch.float32
O = "pytorch3d.ops."
CS = "pytorch3d/csrc/"
FA = sys.modules["pytorch3d.ops.mesh_face_areas_normals"]
SP = sys.modules["pytorch3d.ops.sample_points_from_meshes"]


class Saver:
    def save_for_backward(self, *a):
        self.saved_tensors = a


def mesh(c, V="V", Fn="F"):
    c.default(F)
    V = c.dim(V, lo=3, hi=None if c.sym else 6)
    Fn = c.dim(Fn, hi=None if c.sym else 5)
    v = c.real("verts", (V, 3), F)
    f = c.ints("faces", (Fn, 3), 0, V)
    return V, Fn, v, f


def tri(c, v, f, k):
    return [c.vec(v, c.g(f, k, j)) for j in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def facecross(c, v, f, k):
    a, b, d = tri(c, v, f, k)
    return c.cross(sub(b, a), sub(d, a))


@contract("C16", "face areas and normals", [O + "mesh_face_areas_normals._MeshFaceAreasNormals.forward", CS + "face_areas_normals/face_areas_normals_cpu.cpp:FaceAreasNormalsForwardCpu"], tol=1e-4)
def _(c):
    V, Fn, v, f = mesh(c)
    ar, n = FA._MeshFaceAreasNormals.forward(Saver(), v, f)
    c.shape("areas shape", ar, (Fn,))
    c.shape("normals shape", n, (Fn, 3))
    c.check("area", (Fn,), lambda k: c.eq(c.g(ar, k), c.norm(facecross(c, v, f, k)) / 2))
    for j in range(3):
        def want(k, j=j):
            x = facecross(c, v, f, k)
            m = c.norm(x)
            return x[j] / c.ite(m < 1e-6, lambda: 1e-6, lambda: m)
        c.check(f"normal {j}", (Fn,), lambda k, j=j: c.eq(c.g(n, k, j), want(k)))


@contract("C16", "face area and normal arguments", [O + "mesh_face_areas_normals._MeshFaceAreasNormals.forward"])
def _(c):
    V, Fn, v, f = mesh(c)
    v2, f2, fi = c.real("v2", (V, 2), F), c.ints("f2", (Fn, 4), 0, V), f.to(torch.int32)
    v3 = c.real("v3", (V, 3, 1), F)
    go = lambda *a: (lambda: FA._MeshFaceAreasNormals.forward(Saver(), *a))
    c.raises("two coordinates", ValueError, go(v2, f))
    c.raises("rank", ValueError, go(v3, f))
    c.raises("four corners", ValueError, go(v, f2))
    c.raises("index type", ValueError, go(v, fi))


@contract("C16", "face area and normal gradients", [O + "mesh_face_areas_normals._MeshFaceAreasNormals.backward", CS + "face_areas_normals/face_areas_normals_cpu.cpp:FaceAreasNormalsBackwardCpu"], tol=1e-3, seconds=100)
def _(c):
    V, Fn, v, f = mesh(c)
    ga, gn = c.real("ga", (Fn,), F), c.real("gn", (Fn, 3), F)
    c.require_all((Fn,), lambda k: c.lt(1e-6, c.norm(facecross(c, v, f, k))) if c.sym else float(c.norm(facecross(c, v, f, k))) > 0.05)
    s = Saver()
    FA._MeshFaceAreasNormals.forward(s, v, f)
    out = FA._MeshFaceAreasNormals.backward(s, ga, gn)[0]
    c.shape("shape", out, (V, 3))

    def corner(k):
        """chain rule through area = |x| / 2 and normal = x / |x| with x = (v1 - v0) x (v2 - v0)"""
        p0, p1, p2 = tri(c, v, f, k)
        a, b = sub(p1, p0), sub(p2, p0)
        x = c.cross(a, b)
        m = c.norm(x)
        m = c.ite(m < 1e-6, 1e-6, m)
        g = c.vec(gn, k)
        d = c.dot(g, x)
        gx = [c.g(ga, k) * x[j] / (2 * m) + g[j] / m - x[j] * d / (m * m * m) for j in range(3)]
        gA, gB = c.cross(b, gx), c.cross(gx, a)
        return [[-(gA[j] + gB[j]) for j in range(3)], gA, gB]
    for j in range(3):
        c.check(f"gradient {j}", (V,), lambda p, j=j: c.eq(c.g(out, p, j), sum(c.sum(Fn, lambda k, q=q: c.ite(
            c.ieq(c.g(f, k, q), p), lambda: corner(k)[q][j], lambda: 0)) for q in range(3))))


class Duck:
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("C16", "vertex normals are the normalised sums of face normals weighted by area", ["pytorch3d.structures.Meshes._compute_vertex_normals"], tol=1e-3)
def _(c):
    V, Fn, v, f = mesh(c)
    d = Duck(_verts_normals_packed=None, isempty=lambda: False, faces_packed=lambda: f, verts_packed=lambda: v)
    Meshes._compute_vertex_normals(d)
    n = d._verts_normals_packed
    c.shape("shape", n, (V, 3))

    def cr(k):
        """twice the area times the unit normal: (v2 - v1) x (v0 - v1)"""
        a, b, d = tri(c, v, f, k)
        return c.cross(sub(d, b), sub(a, b))
    for j in range(3):
        c.check(f"face contribution {j}", (Fn,), lambda k, j=j: c.eq(cr(k)[j], facecross(c, v, f, k)[j]))

    def acc(p, j):
        return sum(c.sum(Fn, lambda k, q=q: c.ite(c.ieq(c.g(f, k, q), p), lambda: cr(k)[j], lambda: 0)) for q in range(3))
    if not c.sym:      # rounding: stay away from sums that cancel
        c.require_all((V,), lambda p: c.or_(*[c.ieq(c.g(f, k, q), p) for k in range(Fn) for q in range(3)]) <= (float(c.norm([acc(p, q) for q in range(3)])) > 0.05))
    for j in range(3):
        c.check(f"normal {j}", (V,), lambda p, j=j: c.eq(c.g(n, p, j), acc(p, j) / c.max(c.norm([acc(p, q) for q in range(3)]), 1e-6)))


@contract("C16", "interpolated face attributes are barycentric combinations, zero where no face was hit",
          [O + "interp_face_attrs.interpolate_face_attributes", O + "interp_face_attrs.interpolate_face_attributes_python"])
def _(c):
    c.default(F)
    N, H, W, K, D, Fn = (c.dim(x, hi=None if c.sym else 2) for x in ("N", "H", "W", "K", "D", "F"))
    p = c.ints("pix", (N, H, W, K), -1, Fn)
    b = c.real("bary", (N, H, W, K, 3), F)
    at = c.real("attrs", (Fn, 3, D), F)
    keep = [c.unchanged("inputs untouched", x) for x in (p, b, at)]
    out = IF.interpolate_face_attributes(p, b, at)
    [k() for k in keep]
    c.shape("shape", out, (N, H, W, K, D))
    c.check("value", (N, H, W, K, D), lambda *i: c.eq(c.g(out, *i), c.ite(c.g(p, *i[:4]) < 0, lambda: 0, lambda: sum(
        c.g(b, *i[:4], j) * c.g(at, c.g(p, *i[:4]), j, i[4]) for j in range(3)))))
    a4, p3 = c.real("a4", (Fn, 4, D), F), c.ints("p3", (N, H, W, K, 1), -1, Fn)
    c.raises("three corners", ValueError, lambda: IF.interpolate_face_attributes(p, b, a4))
    c.raises("pixel shape", ValueError, lambda: IF.interpolate_face_attributes(p3, b, at))


@contract("C16", "random barycentric weights are non-negative, sum to one and are uniform", [O + "sample_points_from_meshes._rand_barycentric_coords"], tol=1e-5)
def _(c):
    c.default(F)
    A, B = c.dim("A"), c.dim("B")
    uv = c.real("uv", (2, A, B), F, 0, 1)
    c.require_all((2, A, B), lambda *i: c.and_(c.le(0, c.g(uv, *i)), c.lt(c.g(uv, *i), 1)))
    with c.stub("torch.rand", lambda *s, **k: uv, both=True):
        w = SP._rand_barycentric_coords(A, B, F, torch.device("cpu"))
    for j in range(3):
        c.shape(f"shape {j}", w[j], (A, B))
        c.check(f"non-negative {j}", (A, B), lambda a, b, j=j: c.le(0, c.g(w[j], a, b)))
    c.check("sum to one", (A, B), lambda a, b: c.eq(sum(c.g(x, a, b) for x in w), 1))
    # the area-preserving map of the unit square: (1 - w0)^2 = u, w2 = (1 - w0) v
    c.check("uniform density 0", (A, B), lambda a, b: c.eq((1 - c.g(w[0], a, b)) * (1 - c.g(w[0], a, b)), c.g(uv, 0, a, b)))
    c.check("uniform density 1", (A, B), lambda a, b: c.eq(c.g(w[2], a, b), (1 - c.g(w[0], a, b)) * c.g(uv, 1, a, b)))


# ------------------------------------------------------------------ graph convolution
def graph(c, sq=False):
    c.default(F)
    V, E = c.dim("V", lo=1, hi=None if c.sym else 5), c.dim("E", lo=1, hi=None if c.sym else 6)
    return V, E, c.ints("edges", (E, 2), 0, V)


def nsum(c, E, e, x, p, d, directed, swap=False):
    """sum over the edges leaving p (both ways unless directed) of the neighbour's features"""
    a, b = (1, 0) if swap else (0, 1)
    one = lambda s, t: c.sum(E, lambda k: c.ite(c.ieq(c.g(e, k, s), p), lambda: c.g(x, c.g(e, k, t), d), lambda: 0))
    return one(a, b) if directed else one(a, b) + one(b, a)


@contract("C16", "gather-scatter adds neighbour features over edges", [O + "graph_conv.gather_scatter_python", O + "graph_conv.GatherScatter.forward", O + "graph_conv.GatherScatter.backward",
          CS + "gather_scatter/gather_scatter_cpu.cpp:GatherScatterCpu"], [dict(directed=False), dict(directed=True)], tol=1e-4)
def _(c, directed):
    V, E, e = graph(c)
    D = c.dim("D", hi=None if c.sym else 3)
    x, g = c.real("x", (V, D), F), c.real("g", (V, D), F)
    o1 = GC.gather_scatter_python(x, e, directed)
    s = Saver()
    o2 = GC.GatherScatter.forward(s, x, e, directed)
    gx = GC.GatherScatter.backward(s, g)[0]
    for nm, o, inp, sw in (("python", o1, x, False), ("native", o2, x, False), ("gradient", gx, g, True)):
        c.shape(nm + " shape", o, (V, D))
        c.check(nm, (V, D), lambda p, d, o=o, inp=inp, sw=sw: c.eq(c.g(o, p, d), nsum(c, E, e, inp, p, d, directed, sw)))
    e3, ei = c.ints("e3", (E, 3), 0, V), e.to(torch.int32)
    for nm, h in (("python", lambda *a: GC.gather_scatter_python(*a)), ("native", lambda *a: GC.GatherScatter.forward(Saver(), *a))):
        c.raises(nm + " edge width", ValueError, lambda h=h: h(x, e3))
        c.raises(nm + " edge type", ValueError, lambda h=h: h(x, ei))


@contract("C16", "graph convolution adds self and neighbour terms", [O + "graph_conv.GraphConv.forward"], [dict(directed=False), dict(directed=True)], tol=1e-3)
def _(c, directed):
    V, E, e = graph(c)
    I, D = 2, 3
    x = c.real("x", (V, I), F)
    A0, A1, b0, b1 = c.real("A0", (D, I), F), c.real("A1", (D, I), F), c.real("b0", (D,), F), c.real("b1", (D,), F)
    lin = lambda A, b: (lambda y: torch.nn.functional.linear(y, A, b))
    d = Duck(w0=lin(A0, b0), w1=lin(A1, b1), directed=directed, output_dim=D)
    out = GC.GraphConv.forward(d, x, e)
    c.shape("shape", out, (V, D))
    L = lambda A, b, p, j: sum(c.g(A, j, i) * c.g(x, p, i) for i in range(I)) + c.g(b, j)

    def want(p, j):
        one = lambda s, t: c.sum(E, lambda k: c.ite(c.ieq(c.g(e, k, s), p), lambda: L(A1, b1, c.g(e, k, t), j), lambda: 0))
        return L(A0, b0, p, j) + one(0, 1) + (0 if directed else one(1, 0))
    for j in range(D):
        c.check(f"value {j}", (V,), lambda p, j=j: c.eq(c.g(out, p, j), want(p, j)))


@contract("C16", "graph convolution on an empty graph", [O + "graph_conv.GraphConv.forward", O + "graph_conv.GraphConv.__init__"], conc_only=True, bounded="real runs: construction and the empty graph", trials=4)
def _(c):
    m = GC.GraphConv(3, 5, init="zero")
    c.default(F)
    x = c.real("x", (4, 3), F)
    out = GC.GraphConv(3, 5)(torch.zeros((0, 3)), torch.zeros((0, 2), dtype=torch.int64))
    c.fact("empty", tuple(out.shape) == (0, 5))
    c.fact("zero weights", bool((m.w0.weight == 0).all()) and bool((m.w1.weight == 0).all()))
    c.raises("initialisation", ValueError, lambda: GC.GraphConv(3, 5, init="x"))


# ------------------------------------------------------------------ Laplacians
def dense(x):
    return x.to_dense() if getattr(x, "is_sparse", False) else x


@contract("C16", "uniform Laplacian", [O + "laplacian_matrices.laplacian"], tol=1e-4)
def _(c):
    V, E, e = graph(c)
    c.require_all((E,), lambda k: c.not_(c.ieq(c.g(e, k, 0), c.g(e, k, 1))))
    v = c.real("v", (V, 3), F)
    L = dense(LM.laplacian(v, e))
    c.shape("shape", L, (V, V))
    deg = lambda p: c.sum(E, lambda k: c.ite(c.ieq(c.g(e, k, 0), p), 1.0, 0.0)) + c.sum(E, lambda k: c.ite(c.ieq(c.g(e, k, 1), p), 1.0, 0.0))

    def entry(i, j, s, t):
        return c.sum(E, lambda k: c.ite(c.and_(c.ieq(c.g(e, k, s), i), c.ieq(c.g(e, k, t), j)), lambda: inv(deg(c.g(e, k, s))), lambda: 0))
    inv = lambda d: c.ite(d > 0, lambda: 1 / d, d)     # d is at least one for the end of an edge
    c.check("entry", (V, V), lambda i, j: c.eq(c.g(L, i, j), entry(i, j, 0, 1) + entry(i, j, 1, 0) - c.ite(c.ieq(i, j), 1, 0)))


@contract("C16", "cotangent Laplacian", [O + "laplacian_matrices.cot_laplacian"], tol=2e-2)
def _(c):
    V, Fn, v, f = mesh(c)
    if not c.sym:
        c.require_all((Fn,), lambda k: c.lt(0.1, c.norm(facecross(c, v, f, k))))
    L, ia = LM.cot_laplacian(v, f)
    L = dense(L)
    c.shape("shape", L, (V, V))
    c.shape("area shape", ia, (V, 1))

    def quant(k):
        p = tri(c, v, f, k)
        A, B, C = c.norm(sub(p[1], p[2])), c.norm(sub(p[0], p[2])), c.norm(sub(p[0], p[1]))
        s = (A + B + C) / 2
        area = c.sqrt(c.max(s * (s - A) * (s - B) * (s - C), 1e-12))
        return area, [(B * B + C * C - A * A) / area / 4, (A * A + C * C - B * B) / area / 4, (A * A + B * B - C * C) / area / 4]

    def half(i, j):
        return sum(c.sum(Fn, lambda k, q=q: c.ite(c.and_(c.ieq(c.g(f, k, (q + 1) % 3), i), c.ieq(c.g(f, k, (q + 2) % 3), j)), lambda: quant(k)[1][q], lambda: 0)) for q in range(3))
    c.check("cotangent weights", (V, V), lambda i, j: c.eq(c.g(L, i, j), half(i, j) + half(j, i)))

    def asum(p):
        return sum(c.sum(Fn, lambda k, q=q: c.ite(c.ieq(c.g(f, k, q), p), lambda: quant(k)[0], lambda: 0)) for q in range(3))
    c.check("inverse areas", (V,), lambda p: c.eq(c.g(ia, p, 0), c.ite(asum(p) > 0, lambda: 1 / asum(p), lambda: asum(p))))


@contract("C16", "edge length Laplacian", [O + "laplacian_matrices.norm_laplacian"], tol=1e-3)
def _(c):
    V, E, e = graph(c)
    v = c.real("v", (V, 3), F)
    if not c.sym:
        c.require_all((E,), lambda k: c.lt(0.05, c.norm(sub(c.vec(v, c.g(e, k, 0)), c.vec(v, c.g(e, k, 1))))))
    L = dense(LM.norm_laplacian(v, e))
    c.shape("shape", L, (V, V))
    w = lambda k: 1 / (c.norm(sub(c.vec(v, c.g(e, k, 0)), c.vec(v, c.g(e, k, 1)))) + 1e-12)
    half = lambda i, j: c.sum(E, lambda k: c.ite(c.and_(c.ieq(c.g(e, k, 0), i), c.ieq(c.g(e, k, 1), j)), lambda: w(k), lambda: 0))
    c.check("entry", (V, V), lambda i, j: c.eq(c.g(L, i, j), half(i, j) + half(j, i)))


@contract("C16", "Taubin smoothing alternates the two steps", [O + "mesh_filtering.taubin_smoothing"], [dict(n=1), dict(n=2)], tol=1e-3)
def _(c, n):
    c.default(F)
    V, E = c.dim("V", lo=2, hi=None if c.sym else 4), c.dim("E", hi=None if c.sym else 4)
    v, e = c.real("v", (V, 3), F), c.ints("e", (E, 2), 0, V)
    Ls = [c.real(f"L{k}", (V, V), F, 0.2, 1) for k in range(2 * n)]
    tot = lambda k, p: c.sum(V, lambda q: c.g(Ls[k], p, q))
    for k in range(2 * n):
        c.require_all((V,), lambda p, k=k: c.lt(0, tot(k, p)))
    seen, made = [], []

    def lap(x, ed):
        seen.append((x, ed))
        L = Ls[len(seen) - 1]
        return L if c.sym else L.to_sparse()
    m = Duck(verts_packed=lambda: v, edges_packed=lambda: e, num_verts_per_mesh=lambda: Duck(tolist=lambda: [V]), faces_list=lambda: ["faces"])
    lam, mu = c.scalar("lam", 0.2, 0.8), c.scalar("mu", -0.8, -0.2)
    with c.stub(O + "mesh_filtering.norm_laplacian", lap, both=True), c.stub(O + "mesh_filtering.Meshes", lambda verts, faces: (verts, faces), both=True):
        verts, faces = MF.taubin_smoothing(m, lam, mu, n)
    c.fact("one Laplacian per half step", len(seen) == 2 * n)
    c.fact("same faces", faces == ["faces"])
    c.fact("one mesh", len(verts) == 1)
    c.shape("shape", verts[0], (V, 3))
    xs = [x for x, _ in seen] + [verts[0]]
    c.same("starts from the vertices", xs[0], v)
    for k in range(2 * n):
        c.same(f"edges {k}", seen[k][1], e)
        w = lam if k % 2 == 0 else mu
        c.check(f"half step {k}", (V, 3), lambda p, d, k=k, w=w: c.eq(c.g(xs[k + 1], p, d), (1 - w) * c.g(xs[k], p, d) + w * c.sum(V, lambda q: c.g(Ls[k], p, q) * c.g(xs[k], q, d)) / tot(k, p)))


# ------------------------------------------------------------------ subdivision
@contract("C16", "every face becomes three corner faces and the middle one", [O + "subdivide_meshes.SubdivideMeshes.subdivide_faces"])
def _(c):
    c.default(F)
    V, Fn, E = c.dim("V"), c.dim("F"), c.dim("E")
    v, f, fe = c.real("v", (V, 3), F), c.ints("f", (Fn, 3), 0, V), c.ints("fe", (Fn, 3), 0, E)
    d = Duck(verts_packed=lambda: v, faces_packed=lambda: f, faces_packed_to_edges_packed=lambda: fe)
    out = SD.SubdivideMeshes.subdivide_faces(Duck(), d)
    c.shape("shape", out, (4 * Fn, 3))
    mid = lambda k, q: c.g(fe, k, q) + V          # edge q lies opposite corner q
    for q in range(3):
        want = [lambda k, q=q: c.g(f, k, q), lambda k, q=q: mid(k, (q + 2) % 3), lambda k, q=q: mid(k, (q + 1) % 3)]
        for j in range(3):
            c.check(f"corner face {q} index {j}", (Fn,), lambda k, q=q, j=j, want=want: c.ieq(c.g(out, q * Fn + k, j), want[j](k)))
    for j in range(3):
        c.check(f"middle face index {j}", (Fn,), lambda k, j=j: c.ieq(c.g(out, 3 * Fn + k, j), mid(k, j)))


@contract("C16", "meshes of one topology get edge midpoints and averaged features", [O + "subdivide_meshes.SubdivideMeshes.subdivide_homogeneous"],
          [dict(feats=x) for x in ("none", "padded", "packed")], tol=1e-5)
def _(c, feats):
    c.default(F)
    N, V, E, Fn, D = (c.dim(x, hi=None if c.sym else 4) for x in ("N", "V", "E", "F", "D"))
    v, e = c.real("v", (N, V, 3), F), c.ints("e", (E, 2), 0, V)
    nf = c.ints("nf", (4 * Fn, 3), 0, V)

    class M:
        def verts_padded(self):
            return v

        def __getitem__(self, k):
            return Duck(edges_packed=lambda: e)
    d = Duck(_subdivided_faces=nf, _N=N)
    x = None
    if feats != "none":
        x = c.real("x", (N, V, D) if feats == "padded" else (N * V, D), F)
    with c.stub(O + "subdivide_meshes.Meshes", lambda verts, faces: (verts, faces), both=True):
        out = SD.SubdivideMeshes.subdivide_homogeneous(d, M(), x)
    (nv, fc), nx = (out, None) if feats == "none" else out
    c.shape("vertices shape", nv, (N, V + E, 3))
    c.shape("faces shape", fc, (N, 4 * Fn, 3))
    c.check("old vertices", (N, V, 3), lambda b, p, j: c.eq(c.g(nv, b, p, j), c.g(v, b, p, j)))
    c.check("midpoints", (N, E, 3), lambda b, k, j: c.eq(c.g(nv, b, V + k, j), (c.g(v, b, c.g(e, k, 0), j) + c.g(v, b, c.g(e, k, 1), j)) / 2))
    c.check("faces", (N, 4 * Fn, 3), lambda b, k, j: c.ieq(c.g(fc, b, k, j), c.g(nf, k, j)))
    if x is not None:
        at = (lambda b, p, j: c.g(x, b, p, j)) if feats == "padded" else (lambda b, p, j: c.g(x, b * V + p, j))
        c.shape("features shape", nx, (N, V + E, D))
        c.check("old features", (N, V, D), lambda b, p, j: c.eq(c.g(nx, b, p, j), at(b, p, j)))
        c.check("averaged features", (N, E, D), lambda b, k, j: c.eq(c.g(nx, b, V + k, j), (at(b, c.g(e, k, 0), j) + at(b, c.g(e, k, 1), j)) / 2))


def canon(t):
    t = [tuple(round(float(x), 4) + 0.0 for x in p) for p in t]
    k = t.index(min(t))
    return tuple(t[k:] + t[:k])


@contract("C16", "subdividing batches of different meshes", [O + "subdivide_meshes.SubdivideMeshes.subdivide_heterogenerous", O + "subdivide_meshes.SubdivideMeshes.forward",
          O + "subdivide_meshes._create_verts_index", O + "subdivide_meshes._create_faces_index"], [dict(pre=False), dict(pre=True)], conc_only=True,
          bounded="sorting and interleaving of variable-length meshes: real runs, up to 3 meshes of 6 vertices and 6 faces", trials=60)
def _(c, pre):
    c.default(F)
    vs, fs = gen.mesh_lists(c, empty=not pre, equal=pre)
    if pre:
        fs = [fs[0]] * len(fs)
    c.require(sum(len(v) for v in vs) > 0)
    m = Meshes(vs, fs)
    feats = torch.cat([torch.cat([v * 2 + 1, v[:, :1]], 1) for v in vs])
    op = SD.SubdivideMeshes(m if pre else None)
    new, nf = op(m, feats)
    only = op(m)
    nf = nf.reshape(-1, nf.shape[-1])
    c.fact("batch size", len(new) == len(m))
    o = 0
    for b, (v, f) in enumerate(zip(vs, fs)):
        nv, nfc = new.verts_list()[b], new.faces_list()[b]
        edges = sorted({tuple(sorted((int(t[i]), int(t[j])))) for t in f for i, j in ((0, 1), (1, 2), (2, 0))})
        c.fact("vertex count", nv.shape[0] == len(v) + len(edges))
        c.fact("old vertices first", gen.exact(nv[:len(v)], v))
        mids = sorted(tuple(round(float(x), 4) + 0.0 for x in (v[i] + v[j]) / 2) for i, j in edges)
        c.fact("one midpoint per edge", sorted(tuple(round(float(x), 4) + 0.0 for x in p) for p in nv[len(v):]) == mids)
        want = []
        for t in f.tolist():
            p = [v[i] for i in t]
            q = [(p[1] + p[2]) / 2, (p[2] + p[0]) / 2, (p[0] + p[1]) / 2]
            want += [canon(x) for x in ((p[0], q[2], q[1]), (p[1], q[0], q[2]), (p[2], q[1], q[0]), (q[0], q[1], q[2]))]
        c.fact("face indices", nfc.numel() == 0 or (int(nfc.min()) >= 0 and int(nfc.max()) < len(nv)))
        c.fact("four similar faces each, same orientation", sorted(canon([nv[i] for i in t]) for t in nfc.tolist()) == sorted(want))
        x = nf[o:o + len(nv)]
        o += len(nv)
        c.fact("features", gen.close(x, torch.cat([nv * 2 + 1, nv[:, :1]], 1)))
        c.fact("without features", gen.exact(only.verts_list()[b], nv) and gen.exact(only.faces_list()[b], nfc))
    c.fact("feature rows", o == nf.shape[0])


# ------------------------------------------------------------------ sampling
@contract("C16", "sampled points lie on the selected faces of their own mesh", [O + "sample_points_from_meshes.sample_points_from_meshes"], [dict(tex=False), dict(tex=True)], conc_only=True,
          bounded="random draws over variable-length meshes: real runs, up to 3 meshes of 6 vertices and 6 faces, 40 samples", trials=50)
def _(c, tex):
    c.default(F)
    vs, fs = gen.mesh_lists(c)
    c.require(sum(len(v) for v in vs) > 0)
    aff = torch.tensor([[1.0, 2.0, -1.0, 0.5], [0.5, 0, 1, 1], [0, 1, -2, 0.25]])
    m = Meshes(vs, fs, textures=TexturesVertex([v @ aff for v in vs]) if tex else None)
    S = 40
    out = SP.sample_points_from_meshes(m, S, return_normals=True, return_textures=tex)
    pts, nrm = out[0], out[1]
    c.fact("shapes", tuple(pts.shape) == (len(vs), S, 3) and tuple(nrm.shape) == (len(vs), S, 3))
    only = SP.sample_points_from_meshes(m, S)
    for b, (v, f) in enumerate(zip(vs, fs)):
        if not len(v):
            c.fact("zeros for empty meshes", bool((pts[b] == 0).all()) and bool((nrm[b] == 0).all()) and bool((only[b] == 0).all()) and (not tex or bool((out[2][b] == 0).all())))
            continue
        for p, n in list(zip(pts[b], nrm[b])) + [(x, None) for x in only[b]]:
            ok = False
            for t in f.tolist():
                a, e1, e2 = v[t[0]].double(), (v[t[1]] - v[t[0]]).double(), (v[t[2]] - v[t[0]]).double()
                x = torch.linalg.cross(e1, e2)
                A = torch.stack([e1, e2, x / max(float(x.norm()), 1e-9)], 1)
                if float(x.norm()) < 1e-3:
                    ok = ok or n is None
                    continue
                s = torch.linalg.solve(A, p.double() - a)
                inside = s[0] > -1e-3 and s[1] > -1e-3 and s[0] + s[1] < 1 + 1e-3 and abs(float(s[2])) < 1e-4
                if inside and (n is None or float((x / x.norm() - n.double()).norm()) < 1e-2):
                    ok = True
            c.fact("on a face, with that face's normal", ok)
        if tex:
            c.fact("texture of the same point", gen.close(out[2][b], pts[b] @ aff, 1e-4))


@contract("C16", "faces are selected in proportion to their area", [O + "sample_points_from_meshes.sample_points_from_meshes"], conc_only=True,
          bounded="law of the draws: frequencies over 4000 samples within six standard deviations", trials=6)
def _(c):
    c.default(F)
    h = [1.0 + c.integer(f"h{k}", 0, 5) for k in range(4)]
    vs = torch.tensor([[10.0 * k + d[0], h[k] * d[1], 0] for k in range(4) for d in ((0, 0), (1, 0), (0, 1))])
    fs = torch.arange(12).view(4, 3)
    pre, fpre = torch.rand(5, 3), torch.tensor([[0, 1, 2], [2, 3, 4]])
    m = Meshes([pre, vs[:9], vs], [fpre, fs[:3], fs])
    for b, n in ((1, 3), (2, 4)):
        p = SP.sample_points_from_meshes(m, 4000)[b]
        for k in range(n):
            want = h[k] / sum(h[:n])
            got = float((((p[:, 0] / 10).floor()) == k).float().mean())
            c.fact("frequency", abs(got - want) < 6 * (want * (1 - want) / 4000) ** 0.5)
    c.raises("empty batch", ValueError, lambda: SP.sample_points_from_meshes(Meshes([torch.zeros(0, 3)], [torch.zeros(0, 3).long()])))
    bad = Meshes([torch.tensor([[0, 0, 0], [1, 0, float("nan")], [0, 1, 0]])], [fs[:1]])
    c.raises("not finite", ValueError, lambda: SP.sample_points_from_meshes(bad))
    c.raises("no textures", ValueError, lambda: SP.sample_points_from_meshes(m, 10, return_textures=True))
