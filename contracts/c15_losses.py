"""C15: chamfer distance, edge, Laplacian and normal consistency losses."""
import sys
import contextlib
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.loss  # noqa
from pytorch3d.structures import Meshes, Pointclouds

NATIVE = True
F = torch.float32
L = "pytorch3d.loss."
CH = sys.modules["pytorch3d.loss.chamfer"]
EL = sys.modules["pytorch3d.loss.mesh_edge_loss"]
LS = sys.modules["pytorch3d.loss.mesh_laplacian_smoothing"]
NC = sys.modules["pytorch3d.loss.mesh_normal_consistency"]


class Duck:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __len__(self):
        return self.n


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def ragged(c):
    """sizes and element-to-mesh map of a batch of N meshes with S elements in total"""
    N, S = c.dim("N", hi=None if c.sym else 4), c.dim("S", hi=None if c.sym else 7)
    own = c.ints("own", (S,), 0, N)
    if c.sym:
        cnt = c.ints("cnt", (N,), 1, 1000000)
    else:
        own = own.sort().values
        cnt = torch.bincount(own, minlength=N)
    return N, S, own, cnt


@contract("C15", "edge loss", [L + "mesh_edge_loss.mesh_edge_loss"], tol=1e-4)
def _(c):
    c.default(F)
    N, E, own, cnt = ragged(c)
    V = c.dim("V", hi=None if c.sym else 6)
    v, e, t = c.real("v", (V, 3), F), c.ints("e", (E, 2), 0, V), c.scalar("target")
    m = Duck(isempty=lambda: False, edges_packed=lambda: e, verts_packed=lambda: v, edges_packed_to_mesh_idx=lambda: own, num_edges_per_mesh=lambda: cnt)
    m.n = N
    Duck.__len__ = lambda s: s.n
    out = EL.mesh_edge_loss(m, t)
    d = lambda k: c.norm(sub(c.vec(v, c.g(e, k, 0)), c.vec(v, c.g(e, k, 1)))) - t
    c.shape("scalar", out, ())
    c.fact("value", c.eq(c.g(out), c.sum(E, lambda k: d(k) * d(k) / c.toreal(c.g(cnt, c.g(own, k)))) / c.toreal(N)))


@contract("C15", "Laplacian smoothing loss", [L + "mesh_laplacian_smoothing.mesh_laplacian_smoothing"], [dict(method=m) for m in ("uniform", "cot", "cotcurv")], tol=1e-3)
def _(c, method):
    c.default(F)
    N, V, own, cnt = ragged(c)
    v, M, ia = c.real("v", (V, 3), F), c.real("L", (V, V), F), c.real("ia", (V, 1), F)
    f = c.ints("f", (c.dim("F", hi=None if c.sym else 3), 3), 0, V)
    m = Duck(isempty=lambda: False, faces_packed=lambda: f, verts_packed=lambda: v, verts_packed_to_mesh_idx=lambda: own, num_verts_per_mesh=lambda: cnt, laplacian_packed=lambda: M if c.sym else M.to_sparse())
    m.n = N
    with contextlib.ExitStack() as st:
        if method != "uniform":
            st.enter_context(c.stub(L + "mesh_laplacian_smoothing.cot_laplacian", lambda *a: (M if c.sym else M.to_sparse(), ia), both=True))
        out = LS.mesh_laplacian_smoothing(m, method)
    row = lambda i: c.sum(V, lambda j: c.g(M, i, j))
    lv = lambda i: [c.sum(V, lambda j, k=k: c.g(M, i, j) * c.g(v, j, k)) for k in range(3)]

    def vec(i):
        a, p = lv(i), c.vec(v, i)
        if method == "uniform":
            return a
        r = row(i)
        if method == "cot":
            w = c.ite(r > 0, lambda: 1 / r, lambda: r)
            return [a[k] * w - p[k] for k in range(3)]
        return [(a[k] - r * p[k]) * (c.g(ia, i, 0) * 0.25) for k in range(3)]
    if not c.sym and method == "cot":
        c.require(bool((M.sum(1).abs() > 0.05).all()))
    c.shape("scalar", out, ())
    c.fact("value", c.eq(c.g(out), c.sum(V, lambda i: c.norm(vec(i)) / c.toreal(c.g(cnt, c.g(own, i)))) / c.toreal(N)))


@contract("C15", "losses of empty batches vanish, unknown weightings are rejected", [L + "mesh_edge_loss.mesh_edge_loss", L + "mesh_laplacian_smoothing.mesh_laplacian_smoothing", L + "mesh_normal_consistency.mesh_normal_consistency"],
          conc_only=True, bounded="empty batches of up to 3 meshes")
def _(c):
    n = c.integer("n", 0, 4)
    m = Meshes([torch.zeros((0, 3))] * n, [torch.zeros((0, 3), dtype=torch.int64)] * n)
    for f in (EL.mesh_edge_loss, LS.mesh_laplacian_smoothing, NC.mesh_normal_consistency):
        c.fact("zero", float(f(m)) == 0.0)
    t = Meshes([torch.rand(3, 3)], [torch.tensor([[0, 1, 2]])])
    c.raises("unknown weighting", (ValueError,), lambda: LS.mesh_laplacian_smoothing(t, method="cotangent"))


RED = [dict(point=p, batch=b, single=s, weights=w, norm=n) for (p, b) in (("mean", "mean"), ("mean", "sum"), ("sum", None), ("mean", None), (None, None), ("max", "mean"), ("sum", "mean"))
       for s in (False, True) for w in (False, True) for n in ((1, 2) if p == "mean" and b == "mean" else (2,))]


def chamfer_setup(c):
    c.default(F)
    N, P, Q = (c.dim(x, hi=None if c.sym else 4) for x in "NPQ")
    x, y = c.real("x", (N, P, 3), F), c.real("y", (N, Q, 3), F)
    lx, ly = c.ints("lx", (N,), 1, P + 1), c.ints("ly", (N,), 1, Q + 1)
    return N, P, Q, x, y, lx, ly


@contract("C15", "chamfer distance reductions", [L + "chamfer.chamfer_distance", L + "chamfer._chamfer_distance_single_direction", L + "chamfer._apply_batch_reduction", L + "chamfer._handle_pointcloud_input"],
          [r for r in RED if r["point"] != "max"], tol=1e-3)
def _(c, point, batch, single, weights, norm):
    N, P, Q, x, y, lx, ly = chamfer_setup(c)
    w = None
    if weights:
        w = c.real("w", (N,), F, 0.0, 3.0)
        if c.sym:
            c.require_all((N,), lambda n: 0 <= c.g(w, n))
            c.require(c.sum(N, lambda n: c.g(w, n)) > 0)
        else:
            c.require(float(w.sum()) > 0.1)
    if c.sym:
        tab = {"f": (c.real("df", (N, P, 1), F), c.ints("jf", (N, P, 1), 0, Q)), "b": (c.real("db", (N, Q, 1), F), c.ints("jb", (N, Q, 1), 0, P))}

        def knn(a, b, lengths1=None, lengths2=None, norm=None, K=None, **k):
            fw = a is x
            c.fact("neighbours of the right clouds", c.and_(a is (x if fw else y), b is (y if fw else x), lengths1 is (lx if fw else ly), lengths2 is (ly if fw else lx), norm == nrm, K == 1))
            d, j = tab["f" if fw else "b"]
            return Duck(dists=d.clone(), idx=j)
        nrm = norm
        D = lambda fw, n, i: c.g(tab["f" if fw else "b"][0], n, i, 0)
    else:
        def D(fw, n, i):
            a, b, lb = (x, y, ly) if fw else (y, x, lx)
            r = a[n, i] - b[n, :int(lb[n])]
            return float((r.abs().sum(1) if norm == 1 else (r * r).sum(1)).min())
        knn = None
    with c.stub(L + "chamfer.knn_points", knn):
        out, nn = CH.chamfer_distance(x, y, lx, ly, weights=w, batch_reduction=batch, point_reduction=point, norm=norm, single_directional=single)
    c.fact("no normal term", nn is None)
    W = lambda n: c.g(w, n) if weights else 1

    def term(fw, n, i):
        return c.ite(i >= c.g(lx if fw else ly, n), lambda: 0, lambda: D(fw, n, i) * W(n))

    def cloud(fw, n):
        s = c.sum(P if fw else Q, lambda i: term(fw, n, i))
        return s / c.toreal(c.g(lx if fw else ly, n)) if point == "mean" else s
    if point is None:
        outs = (out,) if single else out
        for o, fw in zip(outs, (True, False)):
            c.shape("shape", o, (N, P if fw else Q))
            c.check("forward" if fw else "backward", (N, P if fw else Q), lambda n, i: c.eq(c.g(o, n, i), term(fw, n, i)))
        return
    dirs = (True,) if single else (True, False)
    if batch is None:
        c.shape("shape", out, (N,))
        c.check("per cloud", (N,), lambda n: c.eq(c.g(out, n), sum(cloud(fw, n) for fw in dirs)))
        return
    c.shape("shape", out, ())
    div = 1 if batch == "sum" else c.sum(N, lambda n: c.g(w, n)) if weights else c.toreal(N)
    c.fact("value", c.eq(c.g(out), sum(c.sum(N, lambda n, fw=fw: cloud(fw, n)) for fw in dirs) / div))


def chamfer_def(x, y, nx, ny, w, batch, point, norm, single, abs_cos):
    """the definition over lists of clouds, in float64"""
    N = len(x)

    def one(a, b, na, nb):
        ds, cs = [], []
        for n in range(N):
            if len(a[n]) == 0 or len(b[n]) == 0:
                ds.append(torch.zeros(len(a[n]), dtype=torch.float64))
                cs.append(None if na is None else torch.ones(len(a[n]), dtype=torch.float64))
                continue
            r = a[n][:, None] - b[n][None]
            D = r.abs().sum(-1) if norm == 1 else (r * r).sum(-1)
            d, j = D.min(1)
            ds.append(d)
            if na is not None:
                cc = torch.nn.functional.cosine_similarity(na[n], nb[n][j], dim=1, eps=1e-6)
                cs.append(1 - (cc.abs() if abs_cos else cc))
        return ds, cs if na is not None else None

    def red(v):
        if v is None:
            return None
        v = [t * (w[n] if w is not None else 1) for n, t in enumerate(v)]
        if point is None:
            return v
        if point == "max":
            return torch.stack([t.max() if len(t) else t.sum() for t in v])
        return torch.stack([t.sum() / (max(len(t), 1) if point == "mean" else 1) for t in v])
    fd, fc = one(x, y, nx, ny)
    fd, fc = red(fd), red(fc)
    if not single:
        bd, bc = one(y, x, ny, nx)
        bd, bc = red(bd), red(bc)
        if point is None:
            return (fd, bd), None if fc is None else (fc, bc)
        fd = torch.maximum(fd, bd) if point == "max" else fd + bd
        fc = None if fc is None else fc + bc
    if point is None or batch is None:
        return fd, fc
    div = 1 if batch == "sum" else (float(w.sum()) if w is not None else max(N, 1))
    return fd.sum() / div, None if fc is None else fc.sum() / div


@contract("C15", "chamfer distance equals its definition on batches of clouds", [L + "chamfer.chamfer_distance", "pytorch3d.ops.knn.knn_points", "pytorch3d.ops.knn.knn_gather"], RED,
          conc_only=True, trials=12, bounded="batches of up to 3 clouds of up to 5 points with normals, lengths, padding contents and weights")
def _(c, point, batch, single, weights, norm):
    c.default(F)
    N = c.integer("N", 1, 4)
    kind = c.integer("kind", 0, 3)
    normals = point != "max" and c.boolean("normals")
    absc = c.boolean("absc")
    nx_, ny_ = [c.integer(f"nx{n}", 1, 6) for n in range(N)], [c.integer(f"ny{n}", 1, 6) for n in range(N)]
    X, Y = [c.real(f"x{n}", (k, 3), F) for n, k in enumerate(nx_)], [c.real(f"y{n}", (k, 3), F) for n, k in enumerate(ny_)]
    A, B = [c.real(f"a{n}", (k, 3), F) for n, k in enumerate(nx_)], [c.real(f"b{n}", (k, 3), F) for n, k in enumerate(ny_)]
    for t in X + Y:
        t += 0.01 * torch.rand(t.shape)     # no ties
    for t in A + B:
        t[t.norm(dim=1) < 0.1] = 1.0
    w = c.real("w", (N,), F, 0.0, 2.0) if weights else None
    c.require(w is None or float(w.sum()) > 0.1)
    kw = dict(weights=w, batch_reduction=batch, point_reduction=point, norm=norm, single_directional=single, abs_cosine=absc)
    lx, ly = torch.tensor(nx_), torch.tensor(ny_)
    pad = lambda l, m, junk: torch.stack([torch.cat([t, (torch.rand(m - len(t), 3) * 9 - 4) if junk else torch.zeros(m - len(t), 3)]) for t in l])
    if kind == 0:
        P, Q = Pointclouds(X, normals=A if normals else None), Pointclouds(Y, normals=B if normals else None)
        out = CH.chamfer_distance(P, Q, **kw)
    else:
        ex = c.integer("extra", 0, 2)
        m, q = max(nx_) + ex, max(ny_) + ex
        n1, n2 = (pad(A, m, kind == 2), pad(B, q, kind == 2)) if normals else (None, None)
        out = CH.chamfer_distance(pad(X, m, kind == 2), pad(Y, q, kind == 2), lx, ly, n1, n2, **kw)
    d = lambda l: [t.double() for t in l]
    want = chamfer_def(d(X), d(Y), d(A) if normals else None, d(B) if normals else None, w.double() if weights else None, batch, point, norm, single, absc)
    for o, wv, nm in zip(out, want, ("distance", "normals")):
        if wv is None:
            c.fact(nm + " absent", o is None)
        elif point is None:
            for oo, ww, ls in zip((o,) if single else o, (wv,) if single else wv, (nx_, ny_)):
                for n in range(N):
                    c.fact(nm, gen.close(oo[n, :ls[n]], ww[n], 1e-3))
                    c.fact(nm + " is zero on padding", bool((oo[n, ls[n]:] == 0).all()))
        else:
            c.fact(nm, gen.close(o, wv, 1e-3))


@contract("C15", "chamfer arguments", [L + "chamfer.chamfer_distance", L + "chamfer._validate_chamfer_reduction_inputs"], conc_only=True, bounded="fixed arguments")
def _(c):
    c.default(F)
    x = torch.rand(2, 3, 3)
    bad = lambda nm, *a, **k: c.raises(nm, (ValueError,), lambda: CH.chamfer_distance(*a, **k))
    bad("batch reduction", x, x, batch_reduction="max")
    bad("point reduction", x, x, point_reduction="min")
    bad("batch reduction of unreduced points", x, x, point_reduction=None)
    bad("norm", x, x, norm=3)
    bad("normals with max", x, x, x_normals=x, y_normals=x, point_reduction="max")
    bad("negative weights", x, x, weights=torch.tensor([1.0, -0.5]))
    bad("number of weights", x, x, weights=torch.ones(3))
    bad("dimension", x, torch.rand(2, 3, 2))
    bad("batch", x, torch.rand(3, 3, 3))
    bad("length", x, x, torch.tensor([1, 4]))
    z, _ = CH.chamfer_distance(x, x + 1, weights=torch.zeros(2))
    c.fact("zero weights", float(z) == 0)
    c.fact("identical clouds", float(CH.chamfer_distance(x, x.flip(1))[0]) < 1e-6)


def unique_edges(f):
    return sorted({tuple(sorted((int(t[a]), int(t[b])))) for t in f for a, b in ((0, 1), (1, 2), (0, 2))})


def rigid(c, vs):
    q = c.real("rot", (4,), torch.float64)
    c.require(float(q.norm()) > 0.2)
    r, i, j, k = (q / q.norm()).tolist()
    R = torch.tensor([[1 - 2 * (j * j + k * k), 2 * (i * j - k * r), 2 * (i * k + j * r)], [2 * (i * j + k * r), 1 - 2 * (i * i + k * k), 2 * (j * k - i * r)],
                      [2 * (i * k - j * r), 2 * (j * k + i * r), 1 - 2 * (i * i + j * j)]]).float()
    t = c.real("shift", (3,), F)
    return [v @ R + t for v in vs]


@contract("C15", "mesh losses equal their definitions on batches", [L + "mesh_edge_loss.mesh_edge_loss", L + "mesh_laplacian_smoothing.mesh_laplacian_smoothing", L + "mesh_normal_consistency.mesh_normal_consistency",
          "pytorch3d/csrc/mesh_normal_consistency/mesh_normal_consistency_cpu.cpp:MeshNormalConsistencyFindVerticesCpu"], conc_only=True, trials=60, bounded="batches of up to 3 meshes (empty ones included) of up to 6 vertices and 6 non-degenerate faces")
def _(c):
    c.default(F)
    vs, fs = gen.mesh_lists(c, "m")
    N = len(vs)
    c.require(sum(len(v) for v in vs) > 0)
    for v, f in zip(vs, fs):
        x = torch.linalg.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]])
        c.require(bool((x.norm(dim=1) > 0.3).all()))
    target = c.scalar("target", 0, 2)
    m = Meshes(vs, fs)

    def defs(vs):
        el = lu = lc = lk = nc = 0.0
        for v, f in zip(vs, fs):
            v = v.double()
            V = len(v)
            if V == 0:
                continue
            E = unique_edges(f)
            el += sum((float((v[a] - v[b]).norm()) - target) ** 2 for a, b in E) / len(E) / N
            nb = {i: set() for i in range(V)}
            for a, b in E:
                nb[a].add(b)
                nb[b].add(a)
            W = torch.zeros(V, V, dtype=torch.float64)
            A = torch.zeros(V, dtype=torch.float64)
            for t in f.tolist():
                ar = 0.5 * float(torch.linalg.cross(v[t[1]] - v[t[0]], v[t[2]] - v[t[0]]).norm())
                for q in range(3):
                    o, a, b = t[q], t[(q + 1) % 3], t[(q + 2) % 3]
                    cot = float((v[a] - v[o]) @ (v[b] - v[o])) / (2 * ar)
                    W[a, b] += cot
                    W[b, a] += cot
                    A[t[q]] += ar
            for i in range(V):
                u = sum((v[j] for j in nb[i]), torch.zeros(3).double()) / max(len(nb[i]), 1) - v[i]
                lu += float(u.norm()) / V / N
                s = float(W[i].sum())
                lc += float(((W[i] @ v) * (1 / s if s > 0 else s) - v[i]).norm()) / V / N
                lk += (float((W[i] @ v - s * v[i]).norm()) * 0.25 / float(A[i]) if A[i] > 0 else 0.0) / V / N
                amb.append(abs(s) < 0.05 and len(nb[i]) > 0)
            pairs = []
            for e in E:
                on = [t for t in f.tolist() if set(e) <= set(t)]
                ns = []
                for t in on:
                    o = (set(t) - set(e)).pop()
                    ns.append(torch.linalg.cross(v[e[1]] - v[e[0]], v[o] - v[e[0]]))
                for a in range(len(ns)):
                    for b in range(a + 1, len(ns)):
                        pairs.append(1 - float(torch.nn.functional.cosine_similarity(ns[a], -ns[b], dim=0)))
            if pairs:
                nc += sum(pairs) / len(pairs) / N
        return el, lu, lc, lk, nc
    amb = []
    want = defs(vs)
    got = lambda m: (float(EL.mesh_edge_loss(m, target)), float(LS.mesh_laplacian_smoothing(m, "uniform")), float(LS.mesh_laplacian_smoothing(m, "cot")), float(LS.mesh_laplacian_smoothing(m, "cotcurv")), float(NC.mesh_normal_consistency(m)))
    g = got(m)
    names = ("edge loss", "uniform Laplacian", "cotangent Laplacian", "cotangent curvature", "normal consistency")
    moved = got(Meshes(rigid(c, vs), fs))
    for nm, a, b, d in zip(names, g, want, moved):
        if nm == "cotangent Laplacian" and any(amb):
            continue
        c.fact(nm, abs(a - b) <= 5e-3 * (1 + abs(b)))
        iso = any(len(v) and len(set(f.flatten().tolist())) < len(v) for v, f in zip(vs, fs))
        if nm in ("edge loss", "cotangent curvature", "normal consistency") or nm == "uniform Laplacian" and not iso:
            c.fact(nm + " does not change under rigid motion", abs(a - d) <= 2e-2 * (1 + abs(a)))


@contract("C15", "losses vanish where nothing is penalised", [L + "mesh_edge_loss.mesh_edge_loss", L + "mesh_normal_consistency.mesh_normal_consistency", L + "mesh_laplacian_smoothing.mesh_laplacian_smoothing"], conc_only=True, trials=20, bounded="flat grids of up to 4x4 vertices")
def _(c):
    c.default(F)
    n, m, s = c.integer("n", 2, 5), c.integer("m", 2, 5), c.scalar("s", 0.3, 2.0)
    v = torch.tensor([[i * s, j * s, 0.0] for i in range(n) for j in range(m)])
    f = torch.tensor([t for i in range(n - 1) for j in range(m - 1) for a in [i * m + j] for t in ([a, a + m, a + m + 1], [a, a + m + 1, a + 1])])
    mesh = Meshes(rigid(c, [v]), [f])
    c.fact("flat mesh", abs(float(NC.mesh_normal_consistency(mesh))) < 1e-4)
    k = torch.tensor([[0.0, 0, 0], [s, 0, 0], [s / 2, s * 3 ** 0.5 / 2, 0]])
    tri = Meshes(rigid(c, [k]), [torch.tensor([[0, 1, 2]])])
    c.fact("edges of the target length", float(EL.mesh_edge_loss(tri, s)) < 1e-6)
