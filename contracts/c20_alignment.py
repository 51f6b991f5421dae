"""C20: alignment of corresponding points and cameras."""
import sys
import warnings
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa
from pytorch3d.renderer.cameras import PerspectiveCameras
from pytorch3d.structures import Pointclouds

D64 = torch.float64
PA = sys.modules["pytorch3d.ops.points_alignment"]
CA = sys.modules["pytorch3d.ops.cameras_alignment"]
UT = sys.modules["pytorch3d.ops.utils"]
O = "pytorch3d.ops."


@contract("C20", "a similarity transform scales, rotates, translates", [O + "points_alignment._apply_similarity_transform"])
def _(c):
    c.default(D64)
    N, P, D = (c.dim(x, hi=None if c.sym else 4) for x in "NPD")
    x, R, T, s = c.real("x", (N, P, D), D64), c.real("R", (N, D, D), D64), c.real("T", (N, D), D64), c.real("s", (N,), D64)
    keep = [c.unchanged("inputs untouched", t) for t in (x, R, T, s)]
    out = PA._apply_similarity_transform(x, R, T, s)
    [k() for k in keep]
    c.shape("shape", out, (N, P, D))
    c.check("s x R + T", (N, P, D), lambda n, p, d: c.eq(c.g(out, n, p, d), c.g(s, n) * c.sum(D, lambda k: c.g(x, n, p, k) * c.g(R, n, k, d)) + c.g(T, n, d)))


@contract("C20", "weighted mean", [O + "utils.wmean"], [dict(w=w, keep=k) for w in (True, False) for k in (True, False)])
def _(c, w, keep):
    c.default(D64)
    N, P, D = (c.dim(x, hi=None if c.sym else 4) for x in "NPD")
    x, wt = c.real("x", (N, P, D), D64), c.real("w", (N, P), D64, 0.0, 2.0)
    un = [c.unchanged("inputs untouched", t) for t in (x, wt)]
    out = UT.wmean(x, wt if w else None, keepdim=keep)
    [k() for k in un]
    c.shape("shape", out, (N, 1, D) if keep else (N, D))

    def want(n, d):
        if not w:
            return c.sum(P, lambda p: c.g(x, n, p, d)) / c.toreal(P)
        tot = c.sum(P, lambda p: c.g(wt, n, p))
        return c.sum(P, lambda p: c.g(x, n, p, d) * c.g(wt, n, p)) / c.ite(tot < 1e-9, 1e-9, tot)
    c.check("sum of x w over the sum of w", (N, D), lambda n, d: c.eq(c.g(out, n, 0, d) if keep else c.g(out, n, d), want(n, d)))


@contract("C20", "identity matrices", [O + "utils.eyes"])
def _(c):
    N = c.dim("N", hi=None if c.sym else 4)
    D = c.dim("D", hi=None if c.sym else 4)
    out = UT.eyes(D, N, dtype=D64)
    c.shape("shape", out, (N, D, D))
    c.check("identity", (N, D, D), lambda n, i, j: c.eq(c.g(out, n, i, j), c.ite(c.ieq(i, j), 1.0, 0.0)))


def rand_rot(c, tag, D, reflect=False):
    for k in range(20):
        A = c.real(f"A{tag}{k}", (D, D), D64)
        if abs(float(torch.det(A))) > 1e-2:
            break
    Q, _ = torch.linalg.qr(A)
    if (float(torch.det(Q)) < 0) != reflect:
        Q[:, 0] = -Q[:, 0]
    return Q


def optimal(X, Y, w, scale, reflect):
    """closed-form weighted Procrustes in float64, written from Umeyama's paper"""
    t = w.sum()
    mx, my = (w[:, None] * X).sum(0) / t, (w[:, None] * Y).sum(0) / t
    a, b = X - mx, Y - my
    C = a.T @ (w[:, None] * b) / t
    U, S, Vh = torch.linalg.svd(C)
    e = torch.ones(len(S), dtype=D64)
    if not reflect and float(torch.det(U @ Vh)) < 0:
        e[-1] = -1
    R = U @ torch.diag(e) @ Vh
    s = (S * e).sum() / ((w[:, None] * a * a).sum() / t) if scale else torch.ones((), dtype=D64)
    return R, my - s * (mx @ R), s, S * e


def cost(X, Y, w, R, T, s):
    return float((w * ((s * X @ R + T - Y) ** 2).sum(-1)).sum())


@contract("C20", "corresponding points: the optimal rigid or similarity transform", [O + "points_alignment.corresponding_points_alignment", O + "utils.convert_pointclouds_to_tensor"],
          [dict(form=f, scale=s, refl=r) for f in ("tensor", "weights", "list", "clouds", "clouds+w") for s in (False, True) for r in (False, True)], trials=80,
          bounded="batches of 3 sets of 4 to 9 points in 2 to 4 dimensions")
def _(c, form, scale, refl):
    if c.sym:
        return
    c.default(D64)
    cl = form in ("clouds", "clouds+w")
    D = 3 if cl else c.integer("D", 2, 5)
    N = c.integer("N", 1, 4)
    hetero = cl and bool(c.integer("hetero", 0, 2))
    P = c.integer("P", D + 1, 10)
    n = [c.integer(f"P{i}", D + 1, 10) if hetero else P for i in range(N)]
    kind = c.integer("kind", 0, 4)                     # noise, exact rotation, exact reflection, flat
    Xs = [c.real(f"x{i}", (n[i], D), D64) for i in range(N)]
    Ys, true = [], []
    for i in range(N):
        R = rand_rot(c, f"R{i}", D, kind == 2)
        T = c.real(f"T{i}", (D,), D64)
        s = float(c.real(f"s{i}", (), D64, 0.3, 3.0)) if scale else 1.0
        if kind == 3:
            Xs[i][:, -1] = 0.0
        Y = s * Xs[i] @ R + T
        if kind == 0:
            Y = c.real(f"y{i}", (n[i], D), D64)
        Ys.append(Y)
        true.append((R, T, s))
    ws = [c.real(f"w{i}", (n[i],), D64, 0.05, 2.0) for i in range(N)]
    zero = bool(c.integer("zero", 0, 2))
    useW = form in ("weights", "list", "clouds+w")
    if useW and zero:
        for i in range(N):
            if n[i] > D + 1:
                ws[i][c.integer(f"z{i}", 0, n[i])] = 0.0
    if cl:
        X, Y = Pointclouds([x.clone() for x in Xs]), Pointclouds([y.clone() for y in Ys])
        W = [w.clone() for w in ws] if useW else None
    else:
        X, Y = torch.stack(Xs), torch.stack(Ys)
        W = None if not useW else torch.stack(ws) if form == "weights" else [w.clone() for w in ws]
    keep = [c.unchanged("inputs untouched", t) for t in ([X.points_padded(), Y.points_padded()] if cl else [X, Y]) + ([] if W is None else W if isinstance(W, list) else [W])]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = PA.corresponding_points_alignment(X, Y, weights=W, estimate_scale=scale, allow_reflection=refl)
    [k() for k in keep]
    c.shape("R", got.R, (N, D, D))
    c.shape("T", got.T, (N, D))
    c.shape("s", got.s, (N,))
    I = torch.eye(D, dtype=D64)
    for i in range(N):
        R, T, s = got.R[i], got.T[i], got.s[i]
        w = ws[i] if useW else torch.ones(n[i], dtype=D64)
        c.fact("orthonormal", gen.close(R @ R.T, I, 1e-8))
        if not refl:
            c.fact("proper rotation", abs(float(torch.det(R)) - 1) < 1e-6)
        if not scale:
            c.fact("unit scale", float(s) == 1.0)
        t = w.sum()
        mx, my = (w[:, None] * Xs[i]).sum(0) / t, (w[:, None] * Ys[i]).sum(0) / t
        c.fact("weighted centroids match", gen.close(s * mx @ R + T, my, 1e-7))
        oR, oT, os, sv = optimal(Xs[i], Ys[i], w, scale, refl)
        best = cost(Xs[i], Ys[i], w, oR, oT, os)
        c.fact("no transform fits better", cost(Xs[i], Ys[i], w, R, T, s) <= best + 1e-7 * (1 + best))
        if scale and kind in (0, 1, 2):
            c.fact("optimal scale", gen.close(s, os, 1e-6))
        if kind in (1, 3) or (kind == 2 and refl):
            c.fact("an exact transform is recovered", gen.close(s * Xs[i] @ R + T, Ys[i], 1e-6))
            if scale and kind != 3:
                c.fact("exact scale", gen.close(s, true[i][2], 1e-6))
            if kind != 3 and float(sv.abs().min()) > 1e-4:
                c.fact("exact rotation", gen.close(R, true[i][0], 1e-5))


@contract("C20", "corresponding points: mismatched sets are rejected", [O + "points_alignment.corresponding_points_alignment"], trials=10,
          bounded="a fixed list of malformed arguments")
def _(c):
    if c.sym:
        return
    c.default(D64)
    x = c.real("x", (2, 6, 3), D64)
    f = PA.corresponding_points_alignment
    c.raises("different numbers of points", (ValueError,), lambda: f(x, x[:, :5]))
    c.raises("different batches", (ValueError,), lambda: f(x, x[:1]))
    c.raises("weights of another shape", (ValueError,), lambda: f(x, x, weights=x[:, :5, 0]))
    c.raises("weights of another length", (ValueError,), lambda: f(x, x, weights=[x[0, :5, 0], x[1, :, 0]]))
    c.raises("clouds of different sizes", (ValueError,), lambda: f(Pointclouds([x[0], x[1, :5]]), Pointclouds([x[0], x[1]])))


@contract("C20", "iterative closest points: consistent solutions", [O + "points_alignment.iterative_closest_point"],
          [dict(form=f, scale=s, init=i) for f in ("tensor", "clouds") for s in (False, True) for i in (False, True)], trials=12, tol=1e-5,
          bounded="batches of 3 clouds of 5 to 10 points, a small initial displacement")
def _(c, form, scale, init):
    if c.sym:
        return
    F = torch.float32
    c.default(F)
    N = c.integer("N", 1, 4)
    P, Q = c.integer("P", 5, 11), c.integer("Q", 5, 11)
    cl = form == "clouds"
    same = bool(c.integer("same", 0, 2))
    xs = [c.real(f"x{i}", (c.integer(f"P{i}", 5, 11) if cl else P, 3), F) + 3.0 for i in range(N)]
    if same:
        from_rot = [torch.linalg.qr(torch.eye(3) + 0.05 * c.real(f"q{i}", (3, 3), F))[0] for i in range(N)]
        from_rot = [q @ torch.diag(torch.sign(torch.diagonal(q))) for q in from_rot]
        ys = [x @ q + 0.02 for x, q in zip(xs, from_rot)]
    else:
        ys = [c.real(f"y{i}", (c.integer(f"Q{i}", 5, 11) if cl else Q, 3), F) + 3.0 for i in range(N)]
    X, Y = (Pointclouds([x.clone() for x in xs]), Pointclouds([y.clone() for y in ys])) if cl else (torch.stack(xs), torch.stack(ys))
    it = None
    if init:
        it = PA.SimilarityTransform(torch.eye(3)[None].repeat(N, 1, 1), torch.full((N, 3), 0.01), torch.ones(N))
    its = c.integer("iters", 1, 4)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        keep = [c.unchanged("inputs untouched", t) for t in ([X.points_padded(), Y.points_padded()] if cl else [X, Y])]
        r = PA.iterative_closest_point(X, Y, init_transform=it, max_iterations=its, estimate_scale=scale)
        [k() for k in keep]
        xt = r.Xt.points_list() if cl else list(r.Xt)
        h = r.t_history
        c.fact("the last transform is returned", gen.exact(h[-1].R, r.RTs.R) and gen.exact(h[-1].T, r.RTs.T) and gen.exact(h[-1].s, r.RTs.s))
        c.fact("iterations", 1 <= len(h) <= its)
        for i in range(N):
            cur = xs[i] if it is None else it.s[i] * xs[i] @ it.R[i] + it.T[i]
            for k, t in enumerate(h):
                d = ((cur[:, None] - ys[i][None]) ** 2).sum(-1)
                if d.shape[1] > 1:
                    two = d.sort(-1).values
                    c.require(bool((two[:, 1] - two[:, 0] > 1e-3).all()))
                nn = ys[i][d.argmin(-1)]
                one = PA.corresponding_points_alignment(xs[i][None].double(), nn[None].double(), estimate_scale=scale)
                fit = lambda a: float(((a.s[0].double() * xs[i].double() @ a.R[0].double() + a.T[0].double() - nn) ** 2).sum())
                tk = PA.SimilarityTransform(t.R[i:i + 1], t.T[i:i + 1], t.s[i:i + 1])
                c.fact("each step aligns the cloud with its nearest neighbours", fit(tk) <= fit(one) + 1e-3 * (1 + fit(one)))
                cur = t.s[i] * xs[i] @ t.R[i] + t.T[i]
            c.fact("the moved cloud", gen.close(xt[i], cur, 1e-4))
            c.fact("root mean squared error", gen.close(r.rmse[i], ((cur - nn) ** 2).sum(-1).mean().sqrt(), 2e-3))


@contract("C20", "identical clouds are already aligned", [O + "points_alignment.iterative_closest_point"], trials=10, bounded="one point to ten points")
def _(c):
    if c.sym:
        return
    P = c.integer("P", 1, 11)
    x = c.real("x", (1, P, 3), torch.float32)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = PA.iterative_closest_point(x, x.clone())
    c.fact("converges", r.converged is True)
    c.fact("does not move", gen.close(r.Xt, x, 1e-4))


@contract("C20", "cameras are aligned by the recovered similarity", [O + "cameras_alignment.corresponding_cameras_alignment", O + "cameras_alignment._align_camera_centers", O + "cameras_alignment._align_camera_extrinsics"],
          [dict(mode=m, scale=s, kind=k) for m in ("centers", "extrinsics") for s in (True, False) for k in ("exact", "noise")], trials=80,
          bounded="up to 8 cameras")
def _(c, mode, scale, kind):
    if c.sym:
        return
    c.default(D64)
    N = c.integer("N", 4 if mode == "centers" else 1, 9)
    R = torch.stack([rand_rot(c, f"R{i}", 3) for i in range(N)])
    T = c.real("T", (N, 3), D64)
    RA, TA = rand_rot(c, "RA", 3), c.real("TA", (3,), D64)
    sA = float(c.real("sA", (), D64, 0.3, 3.0)) if scale and N > 1 else 1.0
    if kind == "exact":
        R2, T2 = RA @ R, TA @ R + T * sA
    else:
        R2, T2 = torch.stack([rand_rot(c, f"S{i}", 3) for i in range(N)]), c.real("T2", (N, 3), D64)
    if mode == "centers":                            # camera centres are computed in single precision
        C0 = -torch.einsum("ni,nji->nj", T, R)
        C0 = C0 - C0.mean(0)
        c.require(float(torch.linalg.svdvals(C0)[-2]) > 0.3)
    Z = torch.float32 if mode == "centers" else D64
    src, tgt = PerspectiveCameras(R=R.to(Z), T=T.to(Z)), PerspectiveCameras(R=R2.to(Z), T=T2.to(Z))
    keep = [c.unchanged("cameras untouched", t) for t in (src.R, src.T, tgt.R, tgt.T)]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = CA.corresponding_cameras_alignment(src, tgt, estimate_scale=scale, mode=mode)
    [k() for k in keep]
    outR, outT = out.R.double(), out.T.double()
    tol = 1e-3 if mode == "centers" else 1e-6
    if kind == "exact":
        c.fact("rotations", gen.close(outR, R2, 10 * tol))
        c.fact("translations", gen.close(outT, T2, 10 * tol))
    A = outR @ R.transpose(1, 2)
    I = torch.eye(3, dtype=D64)
    c.fact("one rotation for all cameras", gen.close(A, A[:1].expand_as(A), tol))
    c.fact("proper rotation", gen.close(A[0] @ A[0].T, I, tol) and abs(float(torch.det(A[0])) - 1) < tol)
    # T_out R^T = T_A + s_A T R^T
    P, Q = torch.einsum("ni,nji->nj", outT, R), torch.einsum("ni,nji->nj", T, R)
    if N > 1:
        p, q = P - P.mean(0), Q - Q.mean(0)
        s = (p * q).sum() / (q * q).sum()
        c.fact("one similarity for all cameras", gen.close(p, s * q, tol))
        if not scale:
            c.fact("unit scale", gen.close(s, 1.0, tol))
    if kind == "noise" and mode == "extrinsics":
        C = (R2 @ R.transpose(1, 2)).mean(0)                # tr(A^T C) is what the rotation maximises
        U, S, Vh = torch.linalg.svd(C)
        e = torch.ones(3, dtype=D64)
        e[-1] = torch.det(U @ Vh)
        c.fact("best rotation", float((A[0] * C).sum()) >= float((S * e).sum()) - 1e-6)
        B = torch.einsum("ni,nji->nj", T2, R)
        c.fact("mean translation", gen.close(P.mean(0), B.mean(0), 1e-6))
        if scale and N > 1:
            c.fact("scale", gen.close(s, (q * (B - B.mean(0))).sum() / (q * q).sum(), 1e-5))
    if kind == "noise" and mode == "centers":
        one = torch.ones(N, dtype=D64)
        c1, c2, c3 = (-torch.einsum("ni,nji->nj", t, r) for t, r in ((T, R), (T2, R2), (outT, outR)))
        oR, oT, os, sv = optimal(c1, c2, one, scale, False)
        fit = float(((c3 - c2) ** 2).sum())
        best = cost(c1, c2, one, oR, oT, os)
        c.fact("best camera centres", fit <= best + 1e-3 * (1 + best))


@contract("C20", "camera alignment rejects what it cannot align", [O + "cameras_alignment.corresponding_cameras_alignment"], trials=4, bounded="a fixed list of malformed arguments")
def _(c):
    if c.sym:
        return
    a, b = PerspectiveCameras(R=torch.eye(3)[None].repeat(3, 1, 1), T=torch.zeros(3, 3)), PerspectiveCameras()
    c.raises("different numbers of cameras", (ValueError,), lambda: CA.corresponding_cameras_alignment(a, b))
    c.raises("unknown mode", (ValueError,), lambda: CA.corresponding_cameras_alignment(a, a, mode="both"))


@contract("C20", "covariances of neighbourhoods", [O + "utils.get_point_covariances"], trials=20, bounded="batches of 3 clouds of 4 to 9 points, 1 to 4 neighbours")
def _(c):
    if c.sym:
        return
    N, P = c.integer("N", 1, 4), c.integer("P", 4, 10)
    x = c.real("x", (N, P, 3), torch.float32)
    ln = c.ints("len", (N,), 4, P + 1)
    K = c.integer("K", 1, 5)
    cov, nn = UT.get_point_covariances(x, ln, K)
    for n in range(N):
        L = int(ln[n])
        d = ((x[n, :L, None] - x[n, None, :L]) ** 2).sum(-1)
        for p in range(L):
            k = x[n, d[p].argsort()[:K]]
            m = k - k.mean(0)
            c.fact("neighbours", gen.close(nn[n, p], k, 1e-6))
            c.fact("covariance", gen.close(cov[n, p], m.T @ m / K, 1e-4))
