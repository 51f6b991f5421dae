"""C09: nearest neighbours, ball queries, farthest points."""
import sys
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa
from pytorch3d import _C

NATIVE = True
F = torch.float32
KN = sys.modules["pytorch3d.ops.knn"]
BQ = sys.modules["pytorch3d.ops.ball_query"]
FP = sys.modules["pytorch3d.ops.sample_farthest_points"]
UT = sys.modules["pytorch3d.ops.utils"]
CS = "pytorch3d/csrc/"
O = "pytorch3d.ops."
KB = CS + "knn/knn_cpu.cpp:"


@contract("C09", "gathering by padded indices", [O + "utils.masked_gather"], [dict(nd=2), dict(nd=3)])
def _(c, nd):
    c.default(F)
    N, P, D, K = (c.dim(x, hi=None if c.sym else 4) for x in "NPDK")
    sh = (N, K) if nd == 2 else (N, c.dim("L", hi=None if c.sym else 4), K)
    x = c.real("x", (N, P, D), F)
    idx = c.ints("idx", sh, -1, P)
    c.require_all(sh, lambda *i: c.and_(-1 <= c.g(idx, *i), c.g(idx, *i) < P))
    keep = [c.unchanged("inputs untouched", t) for t in (x, idx)]
    out = UT.masked_gather(x, idx)
    [k() for k in keep]
    c.shape("shape", out, (*sh, D))
    c.check("the indexed row, zeros for padding", (*sh, D), lambda *i: c.eq(c.g(out, *i), c.ite(c.g(idx, *i[:-1]) < 0, 0, lambda: c.g(x, i[0], c.g(idx, *i[:-1]), i[-1]))))


@contract("C09", "gathering neighbours", [O + "knn.knn_gather"], [dict(lens=True), dict(lens=False)])
def _(c, lens):
    c.default(F)
    N, P, D, K, L = (c.dim(x, hi=None if c.sym else 4) for x in "NPDKL")
    x = c.real("x", (N, P, D), F)
    idx = c.ints("idx", (N, L, K), 0, P)
    c.require_all((N, L, K), lambda *i: c.and_(0 <= c.g(idx, *i), c.g(idx, *i) < P))
    ln = c.ints("len", (N,), 0, P + 1)
    c.require_all((N,), lambda i: c.and_(0 <= c.g(ln, i), c.g(ln, i) <= P))
    keep = [c.unchanged("inputs untouched", t) for t in (x, idx)]
    out = KN.knn_gather(x, idx, ln if lens else None)
    [k() for k in keep]
    c.shape("shape", out, (N, L, K, D))
    n = lambda i: c.g(ln, i) if lens else P
    c.check("the indexed row, zeros for padding", (N, L, K, D), lambda i, l, k, d: c.eq(c.g(out, i, l, k, d), c.ite(k >= n(i), 0, lambda: c.g(x, i, c.g(idx, i, l, k), d))))


def grad_setup(c, norm, N=None, P1=None, K=None, D=None):
    c.default(F)
    one = lambda s, v: v if v is not None else c.dim(s, hi=None if c.sym else 4)
    N, P1, K, D = one("N", N), one("P1", P1), one("K", K), one("D", D)
    P2 = c.dim("P2", hi=None if c.sym else 4)
    p1, p2 = c.real("p1", (N, P1, D), F), c.real("p2", (N, P2, D), F)
    idx = c.ints("idx", (N, P1, K), -1, P2)
    g = c.real("g", (N, P1, K), F)
    l1, l2 = c.ints("l1", (N,), 0, P1 + 1), c.ints("l2", (N,), 0, P2 + 1)
    c.require_all((N, P1, K), lambda *i: c.and_(-1 <= c.g(idx, *i), c.g(idx, *i) < P2))
    c.require_all((N,), lambda i: c.and_(0 <= c.g(l1, i), c.g(l1, i) <= P1, 0 <= c.g(l2, i), c.g(l2, i) <= P2))
    return N, P1, P2, K, D, p1, p2, idx, g, l1, l2


@contract("C09", "gradient of the returned distances", [KB + "KNearestNeighborBackwardCpu"], [dict(norm=n, K=k) for n in (1, 2) for k in (1, None)], tol=1e-4, seconds=90)
def _(c, norm, K):
    N, P1, P2, K, D, p1, p2, idx, g, l1, l2 = grad_setup(c, norm, K=K)
    g1, g2 = _C.knn_points_backward(p1, p2, l1, l2, idx, norm, g)
    c.shape("shape 1", g1, (N, P1, D))
    c.shape("shape 2", g2, (N, P2, D))

    def term(n, i, k, d, j=None):
        q = c.g(idx, n, i, k)
        ok = c.and_(c.not_(c.ieq(q, -1)), True if j is None else c.ieq(q, j))

        def v():
            a, b = c.g(p1, n, i, d), c.g(p2, n, q, d)
            return (c.g(g, n, i, k) * c.ite(a > b, 1.0, -1.0)) if norm == 1 else 2.0 * c.g(g, n, i, k) * (a - b)
        return c.ite(ok, v, 0)
    used = lambda n: c.ite(c.g(l2, n) < K, c.g(l2, n), K)
    c.check("query points", (N, P1, D), lambda n, i, d: c.eq(c.g(g1, n, i, d), c.ite(i < c.g(l1, n), lambda: c.sum(used(n), lambda k: term(n, i, k, d)), lambda: 0)))
    c.check("searched points", (N, P2, D), lambda n, j, d: c.eq(c.g(g2, n, j, d), c.sum(c.g(l1, n), lambda i: c.sum(used(n), lambda k: -term(n, i, k, d, j)))))


def clouds(c, dmax=4, nmax=3, pmax=7, grid=None):
    N, D = c.integer("N", 1, nmax + 1), c.integer("D", 1, dmax + 1)
    P1, P2 = c.integer("P1", 1, pmax + 1), c.integer("P2", 1, pmax + 1)
    grid = bool(c.integer("grid", 0, 2)) if grid is None else grid
    fix = (lambda t: t.round()) if grid else None        # many ties, exactly representable
    p1, p2 = c.real("p1", (N, P1, D), F, fix=fix), c.real("p2", (N, P2, D), F, fix=fix)
    l1, l2 = c.ints("l1", (N,), 0, P1 + 1), c.ints("l2", (N,), 0, P2 + 1)
    return N, D, P1, P2, p1, p2, l1, l2


def dist(a, b, norm):
    d = a.double()[:, None] - b.double()[None]
    return d.abs().sum(-1) if norm == 1 else (d * d).sum(-1)


@contract("C09", "the K nearest points in ascending order", [KB + "KNearestNeighborIdxCpu", O + "knn.knn_points", O + "knn._knn_points"], [dict(norm=n, srt=s, lens=l) for n in (1, 2) for s in (True, False) for l in (True, False)], trials=40,
          bounded="batches of 3 clouds of up to 7 points in up to 4 dimensions, K up to 9")
def _(c, norm, srt, lens):
    if c.sym:
        return
    c.default(F)
    N, D, P1, P2, p1, p2, l1, l2 = clouds(c)
    K = c.integer("K", 1, 10)
    keep = [c.unchanged("inputs untouched", t) for t in (p1, p2, l1, l2)]
    p1.requires_grad_(True), p2.requires_grad_(True)
    r = KN.knn_points(p1, p2, l1 if lens else None, l2 if lens else None, norm=norm, K=K, return_nn=True, return_sorted=srt)
    [k() for k in keep]
    c.shape("shape", r.dists, (N, P1, K))
    c.fact("shapes", tuple(r.idx.shape) == (N, P1, K) and tuple(r.knn.shape) == (N, P1, K, D))
    w = c.real("w", (N, P1, K), F)
    want1, want2 = torch.zeros(N, P1, D).double(), torch.zeros(N, P2, D).double()
    smooth = True
    for n in range(N):
        a, b = (int(l1[n]), int(l2[n])) if lens else (P1, P2)
        d = dist(p1[n].detach(), p2[n].detach(), norm)
        for i in range(P1):
            m = min(K, b) if i < a else 0
            dd, ix = r.dists[n, i].detach().double(), r.idx[n, i].tolist()
            c.fact("padding", bool((dd[m:] == 0).all()) and all(x == 0 for x in ix[m:]))
            c.fact("valid and different points", len(set(ix[:m])) == m and all(0 <= x < b for x in ix[:m]))
            best = d[i, :b].sort().values[:m]
            c.fact("the smallest distances", gen.close(dd[:m].sort().values, best, 1e-5))
            c.fact("distances belong to the indices", gen.close(dd[:m], d[i, ix[:m]] if m else dd[:0], 1e-5))
            if srt:
                c.fact("ascending", bool((dd[:m].diff() >= 0).all()))
            for k in range(K):
                c.fact("neighbours", gen.exact(r.knn[n, i, k], p2[n, ix[k]] if k < b else torch.zeros(D)))
            for k in range(m):
                e = (p1[n, i] - p2[n, ix[k]]).detach().double()
                smooth &= norm == 2 or bool((e != 0).all())
                e = w[n, i, k].double() * (2 * e if norm == 2 else e.sign())
                want1[n, i] += e
                want2[n, ix[k]] -= e
    if smooth:
        (r.dists * w).sum().backward()
        c.fact("gradient of the query points", gen.close(p1.grad, want1, 1e-4))
        c.fact("gradient of the searched points", gen.close(p2.grad, want2, 1e-4))


@contract("C09", "the first K points strictly inside the ball", [CS + "ball_query/ball_query_cpu.cpp:BallQueryCpu", O + "ball_query.ball_query", O + "ball_query._ball_query"], [dict(skip=s, lens=l) for s in (True, False) for l in (True, False)], trials=40,
          bounded="batches of 3 clouds of up to 7 points in up to 4 dimensions, K up to 9")
def _(c, skip, lens):
    if c.sym:
        return
    c.default(F)
    N, D, P1, P2, p1, p2, l1, l2 = clouds(c)
    K = c.integer("K", 1, 10)
    radius = float(c.integer("r2", 1, 8)) / 2
    keep = [c.unchanged("inputs untouched", t) for t in (p1, p2, l1, l2)]
    p1.requires_grad_(True), p2.requires_grad_(True)
    r = BQ.ball_query(p1, p2, l1 if lens else None, l2 if lens else None, K=K, radius=radius, return_nn=True, skip_points_outside_cube=skip)
    [k() for k in keep]
    c.shape("shape", r.dists, (N, P1, K))
    w = c.real("w", (N, P1, K), F)
    want1, want2 = torch.zeros(N, P1, D).double(), torch.zeros(N, P2, D).double()
    for n in range(N):
        a, b = (int(l1[n]), int(l2[n])) if lens else (P1, P2)
        d = dist(p1[n].detach(), p2[n].detach(), 2)
        for i in range(P1):
            c.require(all(x == radius ** 2 or abs(x - radius ** 2) > 1e-4 for x in d[i].tolist()))
            ix = [j for j in range(b) if float(d[i, j]) < radius ** 2][:K] if i < a else []
            m = len(ix)
            c.fact("indices", r.idx[n, i].tolist() == ix + [-1] * (K - m))
            c.fact("distances", gen.close(r.dists[n, i].detach()[:m], d[i, ix] if m else torch.zeros(0), 1e-5) and bool((r.dists[n, i, m:] == 0).all()))
            c.fact("points", all(gen.exact(r.knn[n, i, k], p2[n, ix[k]] if k < m else torch.zeros(D)) for k in range(K)))
            for k in range(m):
                e = 2 * w[n, i, k].double() * (p1[n, i] - p2[n, ix[k]]).detach().double()
                want1[n, i] += e
                want2[n, ix[k]] -= e
    (r.dists * w).sum().backward()
    c.fact("gradient of the query points", gen.close(p1.grad, want1, 1e-4))
    c.fact("gradient of the searched points", gen.close(p2.grad, want2, 1e-4))


@contract("C09", "every sampled point is farthest from the ones before it", [CS + "sample_farthest_points/sample_farthest_points_cpu.cpp:FarthestPointSamplingCpu", O + "sample_farthest_points.sample_farthest_points", O + "sample_farthest_points.sample_farthest_points_naive"],
          [dict(naive=v, rnd=r, form=f) for v in (False, True) for r in (False, True) for f in ("int", "list", "tensor")], trials=30, bounded="batches of 3 clouds of up to 7 points in up to 4 dimensions, K up to 9")
def _(c, naive, rnd, form):
    if c.sym:
        return
    c.default(F)
    N, D, P, _, p, _, ln, _ = clouds(c)
    lens = bool(c.integer("lens", 0, 2))
    if naive and lens and rnd:
        c.require(bool((ln > 0).all()))
    K = c.integer("K", 1, 10)
    ks = c.ints("ks", (N,), 0, 10)
    ks[0] = max(1, int(ks[0]))
    arg = {"int": K, "list": ks.tolist(), "tensor": ks}[form]
    keep = [c.unchanged("inputs untouched", t) for t in (p, ln)]
    f = FP.sample_farthest_points_naive if naive else FP.sample_farthest_points
    pts, idx = f(p, ln if lens else None, K=arg, random_start_point=rnd)
    [k() for k in keep]
    mk = K if form == "int" else int(ks.max())
    c.shape("shape", idx, (N, mk))
    c.shape("points", pts, (N, mk, D))
    for n in range(N):
        L = int(ln[n]) if lens else P
        m = min(L, K if form == "int" else int(ks[n]))
        ix = idx[n].tolist()
        c.fact("padding", all(x == -1 for x in ix[m:]) and bool((pts[n, m:] == 0).all()))
        c.fact("valid", all(0 <= x < L for x in ix[:m]))
        c.fact("gathered", all(gen.exact(pts[n, k], p[n, ix[k]]) for k in range(m)))
        if m and not rnd:
            c.fact("starts at the first point", ix[0] == 0)
        d = dist(p[n, :L], p[n, :L], 2)
        for k in range(1, m):
            near = d[ix[:k]].min(0).values
            c.fact("a farthest point", float(near[ix[k]]) >= float(near.max()) * (1 - 1e-5) - 1e-6)
