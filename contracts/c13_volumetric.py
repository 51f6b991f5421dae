"""C13: ray bundles, ray marching and harmonic embedding."""
import math
import torch
from vt.ctx import contract
from pytorch3d.renderer.implicit import raymarching as RM
from pytorch3d.renderer.implicit import raysampling as RS
from pytorch3d.renderer.implicit import utils as RU
from pytorch3d.renderer.implicit import harmonic_embedding as HE

F = torch.float32
M = "pytorch3d.renderer.implicit.raymarching."
R = "pytorch3d.renderer.implicit.raysampling."
U = "pytorch3d.renderer.implicit.utils."
H = "pytorch3d.renderer.implicit.harmonic_embedding."


def batch(c, nb):
    return tuple(c.dim(x, hi=None if c.sym else 3) for x in "ABC"[:nb])


# ------------------------------------------------------------------ ray points
@contract("C13", "ray points are origin plus length times direction", [U + "ray_bundle_to_ray_points", U + "ray_bundle_variables_to_ray_points"],
          [dict(nb=n, het=h) for n in (1, 2, 3) for h in (False, True)], tol=1e-4)
def _(c, nb, het):
    c.default(F)
    b = batch(c, nb)
    P = c.dim("P")
    o, d, l = c.real("o", b + (3,), F), c.real("d", b + (3,), F), c.real("l", b + (P,), F)
    rb = (RU.HeterogeneousRayBundle if het else RU.RayBundle)(o, d, l, c.real("xy", b + (2,), F))
    out = RU.ray_bundle_to_ray_points(rb)
    c.shape("shape", out, b + (P, 3))
    c.check("points", b + (P, 3), lambda *i: c.eq(c.g(out, *i), c.g(o, *i[:-2], i[-1]) + c.g(l, *i[:-1]) * c.g(d, *i[:-2], i[-1])))
    o2 = RU.ray_bundle_variables_to_ray_points(o, d, l)
    c.same("same through variables", out, o2)


# ------------------------------------------------------------------ marching
def dens(c, b, P):
    den = c.real("den", b + (P, 1), F, 0, 1)
    if c.sym:
        c.require_all(b + (P,), lambda *i: c.and_(c.le(0, c.g(den, *i, 0)), c.le(c.g(den, *i, 0), 1)))
    return den


@contract("C13", "emission-absorption weights are density times accumulated transmittance",
          [M + "EmissionAbsorptionRaymarcher.__init__", M + "EmissionAbsorptionRaymarcher.forward", M + "_shifted_cumprod", M + "_check_raymarcher_inputs", M + "_check_density_bounds"],
          [dict(nb=n, eps=e, st=s) for n in (1, 2, 3) for e in ("default", "given") for s in (1, 2, 3)] + [dict(nb=0, eps="default", st=1)], tol=1e-4)
def _(c, nb, eps, st):
    c.default(F)
    b = batch(c, nb)
    P, D = c.dim("P", lo=st), c.dim("D")
    den, fea = dens(c, b, P), c.real("fea", b + (P, D), F)
    keep = [c.unchanged("inputs untouched", x) for x in (den, fea)]
    rm = RM.EmissionAbsorptionRaymarcher() if st == 1 else RM.EmissionAbsorptionRaymarcher(surface_thickness=st)
    e = 1e-10
    if eps == "given":
        e = c.scalar("eps", 0.0, 0.1)
        out = rm(den, fea, eps=e) if not c.sym else rm.forward(den, fea, eps=e)
    else:
        out = rm(den, fea) if not c.sym else rm.forward(den, fea)
    [k() for k in keep]
    c.shape("shape", out, b + (D + 1,))
    rho = lambda i, k: c.g(den, *i, k, 0)
    # transmittance before sample k, shifted by the surface thickness
    trans = lambda i, k: c.prod(k - st + 1, lambda j: 1 + e - rho(i, j)) if not c.sym else c.ite(k < st, lambda: 1, lambda: c.prod(k - st + 1, lambda j: 1 + e - rho(i, j)))
    c.check("features", b + (D,), lambda *i: c.eq(c.g(out, *i), c.sum(P, lambda k: rho(i[:-1], k) * trans(i[:-1], k) * c.g(fea, *i[:-1], k, i[-1]))))
    c.check("opacity", b, lambda *i: c.eq(c.g(out, *i, D), 1 - c.prod(P, lambda k: 1 - rho(i, k))))


@contract("C13", "absorption-only marching returns one minus the total transmittance", [M + "AbsorptionOnlyRaymarcher.forward"],
          [dict(nb=n) for n in (1, 2, 3)], tol=1e-4)
def _(c, nb):
    c.default(F)
    b = batch(c, nb)
    P = c.dim("P")
    den = dens(c, b, P)
    out = RM.AbsorptionOnlyRaymarcher().forward(den)
    c.shape("shape", out, b + (1,))
    c.check("opacity", b, lambda *i: c.eq(c.g(out, *i, 0), 1 - c.prod(P, lambda k: 1 - c.g(den, *i, k, 0))))
    c.check("opacity in [0, 1]", b, lambda *i: c.and_(c.le(0, c.g(out, *i, 0)), c.le(c.g(out, *i, 0), 1)))


@contract("C13", "ray marchers reject inconsistent inputs", [M + "_check_raymarcher_inputs"])
def _(c):
    c.default(F)
    N, P = c.dim("N"), c.dim("P")
    den, d2 = dens(c, (N,), P), c.real("d2", (N, P, 2), F)
    rm, ab = RM.EmissionAbsorptionRaymarcher(), RM.AbsorptionOnlyRaymarcher()
    f1, f2 = c.real("f1", (N + 1, P, 3), F), c.real("f2", (N, P + 1, 3), F)
    c.raises("wide densities", ValueError, lambda: ab.forward(d2))
    c.raises("wide densities with features", ValueError, lambda: rm.forward(d2, c.real("f0", (N, P, 3), F)))
    c.raises("other batch", ValueError, lambda: rm.forward(den, f1))
    c.raises("other number of points", ValueError, lambda: rm.forward(den, f2))
    c.raises("features missing", ValueError, lambda: rm.forward(den, None))


# ------------------------------------------------------------------ ray sampling
class Cam:
    """an arbitrary camera whose image points unproject to points affine in depth (C04): pinhole and orthographic alike"""

    def __init__(self, c, B):
        self.c, self.B = c, B
        self.a = c.real("cam", (B, 6, 3), F)
        self.R = c.real("camR", (B, 3, 3), F)
        self.device = torch.device("cpu")

    def __len__(self):
        return self.B

    def point(self, b, x, y, z, k):
        g = lambda j: self.c.g(self.a, b, j, k)
        return g(0) + x * g(1) + y * g(2) + z * (g(3) + x * g(4) + y * g(5))

    def unproject_points(self, xyd, world_coordinates=True, from_ndc=False, **kw):
        c = self.c
        c.fact("unprojects image points to the world", world_coordinates is True and from_ndc is True and not kw)
        if c.sym:
            return c.tensor(tuple(xyd.shape), lambda b, p, k: self.point(b, c.g(xyd, b, p, 0), c.g(xyd, b, p, 1), c.g(xyd, b, p, 2), int(k)), F)
        x, y, z = xyd.unbind(-1)
        A = self.a[:, :, None, :]
        x, y, z = (t[..., None] for t in (x, y, z))
        return A[:, 0] + x * A[:, 1] + y * A[:, 2] + z * (A[:, 3] + x * A[:, 4] + y * A[:, 5])


def lin(c, lo, hi, n, k):
    """k-th of n evenly spaced values"""
    return c.ite(n == 1, lambda: lo, lambda: lo + (hi - lo) * k / (n - 1))


def bundle(c, cam, rb, B, sp, xy, n, dmin, dmax, unit, strat):
    """the bundle rb consists of the rays through xy"""
    c.shape("xys shape", rb.xys, (B,) + sp + (2,))
    c.shape("origins shape", rb.origins, (B,) + sp + (3,))
    c.shape("directions shape", rb.directions, (B,) + sp + (3,))
    c.shape("lengths shape", rb.lengths, (B,) + sp + (n,))
    c.check("pixel labels", (B,) + sp + (2,), lambda *i: c.eq(c.g(rb.xys, *i), xy(*i)))
    at = lambda i, k, z: cam.point(i[0], c.g(rb.xys, *i, 0), c.g(rb.xys, *i, 1), z, k)
    c.check("origins", (B,) + sp + (3,), lambda *i: c.eq(c.g(rb.origins, *i), at(i[:-1], int(i[-1]), 0)))

    def dirn(i):
        v = [at(i, k, 1) - at(i, k, 0) for k in range(3)]
        return [x / c.max(c.norm(v), 1e-12) for x in v] if unit else v
    c.check("directions", (B,) + sp + (3,), lambda *i: c.eq(c.g(rb.directions, *i), dirn(i[:-1])[int(i[-1])]))
    if not unit:
        z = c.scalar("anydepth", -3.0, 3.0)
        c.check("rays pass through their pixel at every depth", (B,) + sp + (3,),
                lambda *i: c.eq(c.g(rb.origins, *i) + z * c.g(rb.directions, *i), at(i[:-1], int(i[-1]), z)))
    L = lambda k: lin(c, dmin, dmax, n, k)
    if not strat:
        c.check("depths", (B,) + sp + (n,), lambda *i: c.eq(c.g(rb.lengths, *i), L(i[-1])))
    elif c.sym:
        c.check("even strata", (B,) + sp + (n,), lambda *i: c.eq(flat(c, strat[0][1], sp, i), L(i[-1])))
        c.check("depths drawn from the strata", (B,) + sp + (n,), lambda *i: c.eq(c.g(rb.lengths, *i), flat(c, strat[0][2], sp, i)))
    else:
        strata(c, rb.lengths, (B,) + sp, n, lambda *i: L(i[-1]))


def flat(c, x, sp, i):
    """entry of x (batch, rays, depths) for the ray i of the grid sp"""
    r = i[1]
    for d, k in zip(sp[1:], i[2:-1]):
        r = r * d + k
    return c.g(x, i[0], r, i[-1])


def strata(c, out, b, n, z):
    mid = lambda i, k: (z(*i, k) + z(*i, k + 1)) / 2
    c.check("depths within their strata", b + (n,), lambda *i: c.and_(
        c.le(c.ite(i[-1] == 0, lambda: z(*i[:-1], 0), lambda: mid(i[:-1], i[-1] - 1)), c.g(out, *i)),
        c.le(c.g(out, *i), c.ite(i[-1] == n - 1, lambda: z(*i[:-1], n - 1), lambda: mid(i[:-1], i[-1])))))


class jiggle:
    """symbolically: _jiggle_within_stratas through its contract (below)"""

    def __init__(self, c, strat):
        self.calls = []
        self.cm = c.stub(R + "_jiggle_within_stratas", lambda z: self.draw(c, z)) if c.sym and strat else None

    def draw(self, c, z):
        self.calls.append(("z", z, c.real("jig", tuple(z.shape), F)))
        return self.calls[-1][2]

    def __enter__(self):
        self.cm and self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm and self.cm.__exit__(*a)


@contract("C13", "stratified depths stay in order within their strata", [R + "_jiggle_within_stratas"], [dict(nb=n) for n in (1, 2)], tol=1e-4)
def _(c, nb):
    c.default(F)
    b = batch(c, nb)
    n = c.dim("n")
    z = c.real("z", b + (n,), F)
    if c.sym:
        c.require_all(b, lambda *i: c.forall(n - 1, lambda k: c.le(c.g(z, *i, k), c.g(z, *i, k + 1))))
    else:
        z = z.sort(dim=-1).values
    out = RS._jiggle_within_stratas(z)
    c.shape("shape", out, b + (n,))
    strata(c, out, b, n, lambda *i: c.g(z, *i))


def depths(c):
    dmin, dmax = c.scalar("dmin", 0.5, 2.0), c.scalar("dmax", 3.0, 6.0)
    c.require(dmin + (0 if c.sym else 1e-3) < dmax)
    return dmin, dmax


@contract("C13", "rays start at the camera and pass through their pixel", [R + "_xy_to_ray_bundle", R + "_jiggle_within_stratas"],
          [dict(ns=n, unit=u, strat=s) for n in (1, 2) for u in (False, True) for s in (False, True)], tol=2e-3)
def _(c, ns, unit, strat):
    c.default(F)
    B, n = c.dim("B"), c.dim("n")
    sp = batch(c, ns)
    cam = Cam(c, B)
    xy = c.real("xy", (B,) + sp + (2,), F, -1, 1)
    dmin, dmax = depths(c)
    with jiggle(c, strat) as jg:
        rb = RS._xy_to_ray_bundle(cam, xy, dmin, dmax, n, unit, strat)
    bundle(c, cam, rb, B, sp, lambda *i: c.g(xy, *i), n, dmin, dmax, unit, strat and (jg.calls or True))


@contract("C13", "grid sampling covers the pixel grid", [R + "MultinomialRaysampler.__init__", R + "MultinomialRaysampler.forward", R + "_xy_to_ray_bundle"],
          [dict(unit=u, strat=s, over=o) for u in (False, True) for s in (False, True) for o in (False, True)], tol=2e-3)
def _(c, unit, strat, over):
    c.default(F)
    B, n, W, Hh = c.dim("B"), c.dim("n"), c.dim("W"), c.dim("H")
    cam = Cam(c, B)
    x0, x1, y0, y1 = (c.scalar(k, -2.0, 2.0) for k in ("x0", "x1", "y0", "y1"))
    dmin, dmax = depths(c)
    kw = dict(min_x=x0, max_x=x1, min_y=y0, max_y=y1, image_width=W, image_height=Hh)
    if over:    # the call overrides the construction
        rs = RS.MultinomialRaysampler(**kw, n_pts_per_ray=n + 1, min_depth=dmin - 1, max_depth=dmax + 1, unit_directions=unit, stratified_sampling=not strat)
        with jiggle(c, strat) as jg:
            rb = rs.forward(cam, min_depth=dmin, max_depth=dmax, n_pts_per_ray=n, stratified_sampling=strat)
    else:
        rs = RS.MultinomialRaysampler(**kw, n_pts_per_ray=n, min_depth=dmin, max_depth=dmax, unit_directions=unit, stratified_sampling=strat)
        with jiggle(c, strat) as jg:
            rb = rs.forward(cam)
    bundle(c, cam, rb, B, (Hh, W), lambda b, i, j, k: c.ite(k == 0, lambda: lin(c, x0, x1, W, j), lambda: lin(c, y0, y1, Hh, i)), n, dmin, dmax, unit, strat and (jg.calls or True))


@contract("C13", "NDC grid rays go through pixel centres", [R + "NDCMultinomialRaysampler.__init__"], tol=1e-4)
def _(c):
    c.default(F)
    W, Hh = c.dim("W"), c.dim("H")
    rs = RS.NDCMultinomialRaysampler(image_width=W, image_height=Hh, n_pts_per_ray=3, min_depth=1.0, max_depth=2.0)
    g = rs._xy_grid
    c.shape("shape", g, (Hh, W, 2))
    rx, ry = c.max(c.toreal(W) / Hh if c.sym else W / Hh, 1), c.max(c.toreal(Hh) / W if c.sym else Hh / W, 1)
    c.check("x", (Hh, W), lambda i, j: c.eq(c.g(g, i, j, 0), rx - rx * (2 * j + 1) / W))
    c.check("y", (Hh, W), lambda i, j: c.eq(c.g(g, i, j, 1), ry - ry * (2 * i + 1) / Hh))


@contract("C13", "sampled rays are grid rays inside the mask", [R + "MultinomialRaysampler.forward"],
          [dict(mask=m, given=g) for m in (False, True) for g in (False, True) if m or g], tol=2e-3)
def _(c, mask, given):
    c.default(F)
    B, n, W, Hh = c.dim("B"), c.dim("n"), c.dim("W"), c.dim("H")
    cam = Cam(c, B)
    x0, x1, y0, y1 = (c.scalar(k, -2.0, 2.0) for k in ("x0", "x1", "y0", "y1"))
    dmin, dmax = depths(c)
    q = c.dim("rays")
    mk = c.bools("mask", (B, Hh, W)) if mask else None
    if mask:
        c.require_all((B,), lambda b: c.le(1, c.sum(Hh, lambda i: c.sum(W, lambda j: c.ite(c.g(mk, b, i, j), 1, 0)))))
    rs = RS.MultinomialRaysampler(min_x=x0, max_x=x1, min_y=y0, max_y=y1, image_width=W, image_height=Hh, n_pts_per_ray=n, min_depth=dmin, max_depth=dmax)
    got = {}

    def multinomial(weights, num):
        # contract of _safe_multinomial: indices of positive weights
        c.shape("weights shape", weights, (B, Hh * W))
        got["n"] = num
        if mask:
            c.check("weights are the mask", (B, Hh, W), lambda b, i, j: c.iff(c.lt(0, c.toreal(c.g(weights, b, i * W + j)) if not c.sym else c.ite(c.g(weights, b, i * W + j), 1, 0)), c.g(mk, b, i, j)))
        else:
            c.check("uniform weights", (B, Hh, W), lambda b, i, j: c.eq(c.g(weights, b, i * W + j), 1))
        got["idx"] = c.ints("idx", (B, num), 0, Hh * W)
        return got["idx"]
    if c.sym:
        with c.stub(R + "_safe_multinomial", multinomial):
            rb = rs.forward(cam, mask=mk, **(dict(n_rays_per_image=q) if given else {}))
        if given:
            c.fact("as many rays as asked", lambda: got["n"] == q)
        m = got["n"]
        px = lambda b, r: c.g(got["idx"], b, r)
        bundle(c, cam, rb, B, (m, 1), lambda b, r, o, k: c.ite(k == 0, lambda: lin(c, x0, x1, W, c.imod(px(b, r), W)), lambda: lin(c, y0, y1, Hh, c.idiv(px(b, r), W))),
               n, dmin, dmax, False, False)
        return
    rb = rs.forward(cam, mask=mk.float() if mask else None, **(dict(n_rays_per_image=q) if given else {}))
    m = q if given else int(mk.sum(dim=(1, 2)).min())
    c.shape("rays", rb.xys, (B, m, 1, 2))
    bundle(c, cam, rb, B, (m, 1), lambda *i: c.g(rb.xys, *i), n, dmin, dmax, False, False)
    near = lambda b, r, i, j: abs(c.g(rb.xys, b, r, 0, 0) - lin(c, x0, x1, W, j)) < 1e-4 and abs(c.g(rb.xys, b, r, 0, 1) - lin(c, y0, y1, Hh, i)) < 1e-4
    c.check("rays of allowed pixels", (B, m), lambda b, r: any((not mask or bool(mk[b, i, j])) and near(b, r, i, j) for i in range(Hh) for j in range(W)))


@contract("C13", "mask sampling draws distinct pixels when it can", [R + "_safe_multinomial"], tol=1e-4, conc_only=True,
          bounded="random weights of up to 4x6 entries")
def _(c):
    B, n, k = c.dim("B", hi=4), c.dim("n", hi=6), c.dim("k", hi=7)
    w = c.real("w", (B, n), F, 0, 1) * c.bools("on", (B, n))
    w[:, 0] += 0.1
    out = RS._safe_multinomial(w, k)
    c.shape("shape", out, (B, k))
    c.check("positive weight", (B, k), lambda b, i: float(w[b, out[b, i]]) > 0)
    c.check("distinct", (B,), lambda b: int((w[b] > 0).sum()) < k or len(set(out[b].tolist())) == k)


@contract("C13", "Monte-Carlo rays lie in the requested window", [R + "MonteCarloRaysampler.__init__", R + "MonteCarloRaysampler.forward"],
          [dict(unit=u, strat=s) for u in (False, True) for s in (False, True)], tol=2e-3)
def _(c, unit, strat):
    c.default(F)
    B, n, q = c.dim("B"), c.dim("n"), c.dim("rays")
    cam = Cam(c, B)
    x0, x1, y0, y1 = c.scalar("x0", -2.0, 0.0), c.scalar("x1", 0.0, 2.0), c.scalar("y0", -2.0, 0.0), c.scalar("y1", 0.0, 2.0)
    c.require(c.and_(c.le(x0, x1), c.le(y0, y1)))
    dmin, dmax = depths(c)
    rs = RS.MonteCarloRaysampler(x0, x1, y0, y1, q, n, dmin, dmax, unit_directions=unit, stratified_sampling=strat)
    with jiggle(c, strat) as jg:
        rb = rs.forward(cam)
    bundle(c, cam, rb, B, (q,), lambda *i: c.g(rb.xys, *i), n, dmin, dmax, unit, strat and (jg.calls or True))
    c.check("inside the window", (B, q), lambda b, r: c.and_(c.le(x0, c.g(rb.xys, b, r, 0)), c.le(c.g(rb.xys, b, r, 0), x1),
                                                          c.le(y0, c.g(rb.xys, b, r, 1)), c.le(c.g(rb.xys, b, r, 1), y1)))


# ------------------------------------------------------------------ harmonic embedding
@contract("C13", "harmonic embedding lists sines, cosines and the input", [H + "HarmonicEmbedding.__init__", H + "HarmonicEmbedding.forward",
          H + "HarmonicEmbedding.get_output_dim", H + "HarmonicEmbedding.get_output_dim_static"],
          [dict(nh=k, log=l, app=a, cov=v) for k in (1, 3, 4) for l in (True, False) for a in (True, False) for v in (True, False)], tol=2e-3)
def _(c, nh, log, app, cov):
    c.default(F)
    b = batch(c, 2)
    D = c.dim("D")
    x = c.real("x", b + (D,), F)
    om = c.scalar("omega", 0.5, 2.0)
    he = HE.HarmonicEmbedding(nh, om, log, app)
    dc = c.real("dc", b + (D,), F, 0, 0.1) if cov else None
    out = he.forward(x, diag_cov=dc) if cov else he.forward(x)
    c.fact("announced size", lambda: c.and_(he.get_output_dim(D) == D * (2 * nh + (1 if app else 0)), HE.HarmonicEmbedding.get_output_dim_static(D, nh, app) == D * (2 * nh + (1 if app else 0))))
    c.shape("shape", out, b + (D * (2 * nh + (1 if app else 0)),))
    fr = [2.0 ** k if log else (1.0 if nh == 1 else 1.0 + (2.0 ** (nh - 1) - 1) * k / (nh - 1)) for k in range(nh)]
    w = lambda i, d, k: c.exp(-0.5 * c.g(dc, *i, d) * (fr[k] * om) ** 2) if cov else 1
    for k in range(nh):
        c.check(f"sine {k}", b + (D,), lambda *i: c.eq(c.g(out, *i[:-1], i[-1] * nh + k), c.sin(fr[k] * om * c.g(x, *i)) * w(i[:-1], i[-1], k)))
        c.check(f"cosine {k}", b + (D,), lambda *i: c.eq(c.g(out, *i[:-1], (D + i[-1]) * nh + k), c.cos(fr[k] * om * c.g(x, *i)) * w(i[:-1], i[-1], k)))
    if app:
        c.check("input", b + (D,), lambda *i: c.eq(c.g(out, *i[:-1], 2 * D * nh + i[-1]), c.g(x, *i)))
