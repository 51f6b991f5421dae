"""C12: blending of rasterised fragments into an RGBA image."""
import torch
from vt.ctx import contract
from pytorch3d.renderer import blending as BL
from pytorch3d.renderer.mesh.rasterizer import Fragments

F = torch.float32
B = "pytorch3d.renderer.blending."
NATIVE = True


def setup(c, bg):
    c.default(F)
    N, H, W, K = (c.dim(x, hi=None if c.sym else 3) for x in "NHWK")
    shp = (N, H, W, K)
    p2f = c.ints("p2f", shp, -1, 7)
    col = c.real("col", shp + (3,), F, 0, 1)
    z, d = c.real("zbuf", shp, F, 1.2, 90), c.real("dists", shp, F, -1, 1)
    b = c.real("bg", (3,), F, 0, 1)
    arg = b if bg == "tensor" else tuple(c.scalar(f"bg{k}", 0.0, 1.0) for k in range(3))
    bv = [c.g(b, k) if bg == "tensor" else arg[k] for k in range(3)]
    return shp, Fragments(pix_to_face=p2f, zbuf=z, bary_coords=None, dists=d), col, arg, bv


BG = [dict(bg=b) for b in ("tensor", "tuple")]


@contract("C12", "background colours are taken as given", [B + "_get_background_color"], BG)
def _(c, bg):
    shp, fr, col, arg, bv = setup(c, bg)
    out = BL._get_background_color(BL.BlendParams(background_color=arg), torch.device("cpu"))
    c.shape("shape", out, (3,))
    c.check("value", (3,), lambda d: c.eq(c.g(out, d), bv[int(d)]))


@contract("C12", "hard blending shows the nearest face or the background", [B + "hard_rgb_blend"], BG)
def _(c, bg):
    shp, fr, col, arg, bv = setup(c, bg)
    keep = [c.unchanged("inputs untouched", x) for x in (col, fr.pix_to_face)]
    out = BL.hard_rgb_blend(col, fr, BL.BlendParams(background_color=arg))
    [k() for k in keep]
    c.shape("shape", out, shp[:3] + (4,))
    hit = lambda i: c.g(fr.pix_to_face, *i, 0) >= 0
    c.check("colour", shp[:3] + (3,), lambda *i: c.eq(c.g(out, *i), c.ite(hit(i[:3]), lambda: c.g(col, *i[:3], 0, i[3]), lambda: bv[int(i[3])])))
    c.check("alpha", shp[:3], lambda *i: c.eq(c.g(out, *i, 3), c.ite(hit(i), 1, 0)))


def prob(c, fr, sigma, i, k):
    """probability that face k covers the pixel; zero for empty fragments"""
    return c.ite(c.g(fr.pix_to_face, *i, k) < 0, lambda: 0, lambda: 1 / (1 + c.exp(c.g(fr.dists, *i, k) / sigma)))


def unit_interval(c, label, shp, out):
    c.check(label, shp[:3], lambda *i: c.and_(c.le(0, c.g(out, *i, 3)), c.le(c.g(out, *i, 3), 1)))


@contract("C12", "sigmoid blending keeps the nearest colour with the product alpha", [B + "sigmoid_alpha_blend", B + "_SigmoidAlphaBlend.forward"], tol=1e-4)
def _(c):
    shp, fr, col, arg, bv = setup(c, "tensor")
    sigma = c.scalar("sigma", 0.05, 2.0)
    c.require(sigma > 0)
    keep = [c.unchanged("inputs untouched", x) for x in (col, fr.pix_to_face, fr.dists)]
    out = BL.sigmoid_alpha_blend(col, fr, BL.BlendParams(sigma=sigma))
    [k() for k in keep]
    c.shape("shape", out, shp[:3] + (4,))
    c.check("colour", shp[:3] + (3,), lambda *i: c.eq(c.g(out, *i), c.g(col, *i[:3], 0, i[3])))
    c.check("alpha", shp[:3], lambda *i: c.eq(c.g(out, *i, 3), 1 - c.prod(shp[3], lambda k: 1 - prob(c, fr, sigma, i, k))))
    unit_interval(c, "alpha in [0, 1]", shp, out)


@contract("C12", "softmax blending is the documented convex combination", [B + "softmax_rgb_blend", B + "_get_background_color"],
          [dict(bg=b, planes=p) for b in ("tensor", "tuple") for p in ("scalar", "tensor")], tol=2e-3)
def _(c, bg, planes):
    shp, fr, col, arg, bv = setup(c, bg)
    N, H, W, K = shp
    sigma, gamma = c.scalar("sigma", 0.05, 2.0), c.scalar("gamma", 0.1, 2.0)
    c.require(c.and_(sigma > 0, gamma > 0))
    if planes == "scalar":
        zn, zf = c.scalar("znear", 0.5, 1.0), c.scalar("zfar", 100, 120)
        c.require(zn + (0 if c.sym else 1e-3) < zf)
        near = far = None
        pl = lambda n: (zn, zf)
        kw = dict(znear=zn, zfar=zf)
    else:
        near, far = c.real("near", (N,), F, 0.5, 1), c.real("far", (N,), F, 100, 120)
        c.require_all((N,), lambda n: c.g(near, n) + (0 if c.sym else 1e-3) < c.g(far, n))
        pl = lambda n: (c.g(near, n), c.g(far, n))
        kw = dict(znear=near, zfar=far)
    keep = [c.unchanged("inputs untouched", x) for x in (col, fr.pix_to_face, fr.dists, fr.zbuf)]
    out = BL.softmax_rgb_blend(col, fr, BL.BlendParams(sigma=sigma, gamma=gamma, background_color=arg), **kw)
    [k() for k in keep]
    c.shape("shape", out, shp[:3] + (4,))
    EPS = 1e-10

    def zinv(i, k):
        n, f = pl(i[0])
        return c.ite(c.g(fr.pix_to_face, *i, k) < 0, lambda: 0, lambda: (f - c.g(fr.zbuf, *i, k)) / (f - n))
    zmax = lambda i: c.max(c.maxover(K, lambda k: zinv(i, k)), EPS)
    w = lambda i, k: prob(c, fr, sigma, i, k) * c.exp((zinv(i, k) - zmax(i)) / gamma)
    delta = lambda i: c.max(c.exp((EPS - zmax(i)) / gamma), EPS)
    tot = lambda i: c.sum(K, lambda k: w(i, k)) + delta(i)
    c.check("colour", shp[:3] + (3,), lambda *i: c.eq(c.g(out, *i), (c.sum(K, lambda k: w(i[:3], k) * c.g(col, *i[:3], k, i[3])) + delta(i[:3]) * bv[int(i[3])]) / tot(i[:3])))
    c.check("alpha", shp[:3], lambda *i: c.eq(c.g(out, *i, 3), 1 - c.prod(K, lambda k: 1 - prob(c, fr, sigma, i, k))))
    unit_interval(c, "alpha in [0, 1]", shp, out)
    c.check("background weight positive", shp[:3], lambda *i: c.lt(0, delta(i)))
    c.check("weights not negative", shp, lambda *i: c.le(0, w(i[:3], i[3])))
    c.check("empty fragments weigh nothing", shp, lambda *i: c.implies(c.g(fr.pix_to_face, *i) < 0, c.eq(w(i[:3], i[3]), 0)))


@contract("C12", "default background is white and default widths are 1e-4", [B + "BlendParams"])
def _(c):
    p = BL.BlendParams()
    c.fact("background", tuple(p.background_color) == (1.0, 1.0, 1.0))
    c.fact("widths", p.sigma == 1e-4 and p.gamma == 1e-4)


class Saver:
    def save_for_backward(self, *a):
        self.saved_tensors = a


@contract("C12", "the gradient of sigmoid blending is the derivative of the product alpha", [B + "_SigmoidAlphaBlend.backward",
          "pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp:SigmoidAlphaBlendBackwardCpu"], tol=1e-4)
def _(c):
    shp, fr, col, arg, bv = setup(c, "tensor")
    sigma = c.scalar("sigma", 0.2, 2.0)
    c.require(sigma > 0)
    go = c.real("grad", shp[:3], F, -1, 1)
    s = Saver()
    BL._SigmoidAlphaBlend.forward(s, fr.dists, fr.pix_to_face, sigma)
    r = BL._SigmoidAlphaBlend.backward(s, go)
    c.fact("other gradients", len(r) == 3 and r[1] is None and r[2] is None)
    c.shape("shape", r[0], shp)
    # d alpha / d dist_k = prod_{l != k} (1 - p_l) dp_k/dd_k, dp/dd = -p (1 - p) / sigma
    rest = lambda i: c.prod(shp[3], lambda k: 1 - prob(c, fr, sigma, i, k))
    c.check("gradient", shp, lambda *i: c.eq(c.g(r[0], *i), -c.g(go, *i[:3]) * prob(c, fr, sigma, i[:3], i[3]) / sigma * rest(i[:3])))
