"""C11: compositing of point features."""
import torch
from vt.ctx import contract
from pytorch3d.renderer import compositing as CO
from pytorch3d.renderer.points import compositor as PC

NATIVE = True
F = torch.float32
M = "pytorch3d.renderer.compositing."
CS = "pytorch3d/csrc/compositing/"


def setup(c, lo=0.0, hi=1.0):
    c.default(F)
    N, K, H, W = (c.dim(x, hi=None if c.sym else 3) for x in "NKHW")
    C, P = c.dim("C", hi=None if c.sym else 3), c.dim("P", hi=None if c.sym else 5)
    idx = c.ints("idx", (N, K, H, W), -1, P)
    al = c.real("alphas", (N, K, H, W), F, lo, hi)
    ft = c.real("features", (C, P), F)
    return (N, K, H, W, C, P), idx, al, ft


class Acc:
    """alpha and feature of slot k (zero when empty)"""

    def __init__(self, c, idx, al, ft):
        self.c, self.i, self.a, self.f = c, idx, al, ft

    def on(self, b, k, y, x):
        return self.c.g(self.i, b, k, y, x) >= 0

    def al(self, b, k, y, x):
        return self.c.ite(self.on(b, k, y, x), lambda: self.c.g(self.a, b, k, y, x), lambda: 0)

    def ft(self, ch, b, k, y, x):
        return self.c.ite(self.on(b, k, y, x), lambda: self.c.g(self.f, ch, self.c.g(self.i, b, k, y, x)), lambda: 0)

    def trans(self, b, k, y, x):
        return self.c.prod(k, lambda l: self.c.ite(self.on(b, l, y, x), lambda: 1 - self.c.g(self.a, b, l, y, x), lambda: 1))


@contract("C11", "alpha compositing weighs features front to back", [M + "alpha_composite", M + "_CompositeAlphaPoints.forward", CS + "alpha_composite_cpu.cpp:alphaCompositeCpuForward"], tol=1e-4)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c)
    keep = [c.unchanged("inputs untouched", x) for x in (idx, al, ft)]
    out = CO.alpha_composite(idx, al, ft)
    [k() for k in keep]
    a = Acc(c, idx, al, ft)
    c.shape("shape", out, (N, C, H, W))
    c.check("value", (N, C, H, W), lambda b, ch, y, x: c.eq(c.g(out, b, ch, y, x), c.sum(K, lambda k: a.trans(b, k, y, x) * a.al(b, k, y, x) * a.ft(ch, b, k, y, x))))


@contract("C11", "weighted sum adds the weighted features", [M + "weighted_sum", M + "_CompositeWeightedSumPoints.forward", CS + "weighted_sum_cpu.cpp:weightedSumCpuForward"], tol=1e-4)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c)
    out = CO.weighted_sum(idx, al, ft)
    a = Acc(c, idx, al, ft)
    c.shape("shape", out, (N, C, H, W))
    c.check("value", (N, C, H, W), lambda b, ch, y, x: c.eq(c.g(out, b, ch, y, x), c.sum(K, lambda k: a.al(b, k, y, x) * a.ft(ch, b, k, y, x))))


@contract("C11", "normalised weighted sum divides by the total weight", [M + "norm_weighted_sum", M + "_CompositeNormWeightedSumPoints.forward", CS + "norm_weighted_sum_cpu.cpp:weightedSumNormCpuForward"], tol=1e-3)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c)
    out = CO.norm_weighted_sum(idx, al, ft)
    a = Acc(c, idx, al, ft)
    c.shape("shape", out, (N, C, H, W))
    tot = lambda b, y, x: c.max(c.sum(K, lambda k: a.al(b, k, y, x)), 1e-4)
    c.check("value", (N, C, H, W), lambda b, ch, y, x: c.eq(c.g(out, b, ch, y, x), c.sum(K, lambda k: a.al(b, k, y, x) * a.ft(ch, b, k, y, x)) / tot(b, y, x)))


class Saver:
    def save_for_backward(self, *a):
        self.saved_tensors = a


def clamped(c, s):
    return c.ite(s < 1e-4, lambda: 1e-4, lambda: s)


def grads(c, cls, idx, al, ft, go):
    s = Saver()
    cls.forward(s, ft, al, idx)
    return cls.backward(s, go)


def scatter(c, P, N, K, H, W, idx, p, term):
    """sum over all slots that hold point p"""
    return c.sum(N, lambda b: c.sum(H, lambda y: c.sum(W, lambda x: c.sum(K, lambda k: c.ite(
        c.and_(c.g(idx, b, k, y, x) >= 0, c.ieq(c.g(idx, b, k, y, x), p)), lambda: term(b, k, y, x), lambda: 0)))))


@contract("C11", "gradients of the weighted sum", [M + "_CompositeWeightedSumPoints.backward", CS + "weighted_sum_cpu.cpp:weightedSumCpuBackward"], tol=1e-3)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c)
    go = c.real("grad", (N, C, H, W), F)
    gf, ga = grads(c, CO._CompositeWeightedSumPoints, idx, al, ft, go)[:2]
    a = Acc(c, idx, al, ft)
    c.shape("feature gradient shape", gf, (C, P))
    c.shape("alpha gradient shape", ga, (N, K, H, W))
    c.check("alpha gradient", (N, K, H, W), lambda b, k, y, x: c.eq(c.g(ga, b, k, y, x), c.sum(C, lambda ch: c.g(go, b, ch, y, x) * a.ft(ch, b, k, y, x))))
    c.check("feature gradient", (C, P), lambda ch, p: c.eq(c.g(gf, ch, p), scatter(c, P, N, K, H, W, idx, p, lambda b, k, y, x: c.g(go, b, ch, y, x) * c.g(al, b, k, y, x))))


@contract("C11", "gradients of the normalised weighted sum", [M + "_CompositeNormWeightedSumPoints.backward", CS + "norm_weighted_sum_cpu.cpp:weightedSumNormCpuBackward"], tol=1e-3)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c, 0.1, 1.0)
    go = c.real("grad", (N, C, H, W), F)
    a = Acc(c, idx, al, ft)
    tot = lambda b, y, x: clamped(c, c.sum(K, lambda k: a.al(b, k, y, x)))
    tf = lambda ch, b, y, x: c.sum(K, lambda k: a.al(b, k, y, x) * a.ft(ch, b, k, y, x))
    # the derivative of the quotient with the total weight read as its clamped value
    gf, ga = grads(c, CO._CompositeNormWeightedSumPoints, idx, al, ft, go)[:2]
    c.shape("feature gradient shape", gf, (C, P))
    c.shape("alpha gradient shape", ga, (N, K, H, W))
    c.check("alpha gradient", (N, K, H, W), lambda b, k, y, x: c.eq(c.g(ga, b, k, y, x), c.ite(a.on(b, k, y, x), lambda: c.sum(C, lambda ch: c.g(go, b, ch, y, x) * (
        c.g(ft, ch, c.g(idx, b, k, y, x)) * tot(b, y, x) - tf(ch, b, y, x)) / (tot(b, y, x) * tot(b, y, x))), lambda: 0)))
    c.check("feature gradient", (C, P), lambda ch, p: c.eq(c.g(gf, ch, p), scatter(c, P, N, K, H, W, idx, p, lambda b, k, y, x: c.g(go, b, ch, y, x) * c.g(al, b, k, y, x) / tot(b, y, x))))


@contract("C11", "gradients of alpha compositing", [M + "_CompositeAlphaPoints.backward", CS + "alpha_composite_cpu.cpp:alphaCompositeCpuBackward"], tol=1e-3)
def _(c):
    (N, K, H, W, C, P), idx, al, ft = setup(c, 0.0, 0.9)
    c.require_all((N, K, H, W), lambda *i: c.lt(c.g(al, *i), 1))
    go = c.real("grad", (N, C, H, W), F)
    gf, ga = grads(c, CO._CompositeAlphaPoints, idx, al, ft, go)[:2]
    a = Acc(c, idx, al, ft)
    c.shape("feature gradient shape", gf, (C, P))
    c.shape("alpha gradient shape", ga, (N, K, H, W))
    EPS = 1e-9

    def d(b, k, y, x):
        own = c.sum(C, lambda ch: c.g(go, b, ch, y, x) * a.trans(b, k, y, x) * c.g(ft, ch, c.g(idx, b, k, y, x)))
        behind = c.sum(C, lambda ch: c.sum(K, lambda l: c.ite(c.and_(l > k, a.on(b, l, y, x)), lambda: -(c.g(go, b, ch, y, x) * c.g(ft, ch, c.g(idx, b, l, y, x)) * a.trans(
            b, l, y, x) * c.g(al, b, l, y, x) / (1 - c.g(al, b, k, y, x) + EPS)), lambda: 0)))
        return own + behind
    c.check("alpha gradient", (N, K, H, W), lambda b, k, y, x: c.eq(c.g(ga, b, k, y, x), c.ite(a.on(b, k, y, x), lambda: d(b, k, y, x), lambda: 0)))
    c.check("feature gradient", (C, P), lambda ch, p: c.eq(c.g(gf, ch, p), scatter(c, P, N, K, H, W, idx, p, lambda b, k, y, x: c.g(go, b, ch, y, x) * c.g(al, b, k, y, x) * a.trans(b, k, y, x))))


PM = "pytorch3d.renderer.points.compositor."


@contract("C11", "compositors add the background where no point is hit", [PM + "AlphaCompositor.forward", PM + "NormWeightedCompositor.forward", PM + "_add_background_color_to_images"],
          [dict(kind=k, bg=b) for k in ("alpha", "norm") for b in ("none", "full", "rgb", "override", "scalar")], tol=1e-3)
def _(c, kind, bg):
    c.default(F)
    N, K, H, W = (c.dim(x, hi=None if c.sym else 3) for x in "NKHW")
    P = c.dim("P", hi=None if c.sym else 5)
    C = 4
    idx = c.ints("idx", (N, K, H, W), -1, P)
    al = c.real("alphas", (N, K, H, W), F, 0, 1)
    ft = c.real("features", (C, P), F)
    img = c.real("img", (N, C, H, W), F)
    seen = []

    def fake(i, a_, f_):
        seen.append((i, a_, f_))
        return img
    n = {"none": 0, "full": 4, "rgb": 3, "override": 4, "scalar": 0}[bg]
    b = c.real("bgc", (n,) if n else (), F, 0, 1)
    cls = PC.AlphaCompositor if kind == "alpha" else PC.NormWeightedCompositor
    m = cls(background_color=None if bg in ("none", "override") else b)
    with c.stub(PM + ("alpha_composite" if kind == "alpha" else "norm_weighted_sum"), fake, both=True):
        out = m.forward(idx, al, ft, **(dict(background_color=b) if bg == "override" else {}))
    c.fact("composited once", len(seen) == 1)
    for k, (x, y) in enumerate(zip(seen[0], (idx, al, ft))):
        c.same(f"argument {k}", x, y)
    c.shape("shape", out, (N, C, H, W))
    if bg == "none":
        val = lambda *i: c.g(img, *i)
    else:
        bgv = lambda ch: c.g(b) if not n else (c.ite(c.ieq(ch, 3), lambda: 1, lambda: c.g(b, ch)) if n == 3 else c.g(b, ch))
        val = lambda m_, ch, y, x: c.ite(c.g(idx, m_, 0, y, x) < 0, lambda: bgv(ch), lambda: c.g(img, m_, ch, y, x))
    for ch in range(4):
        c.check(f"value {ch}", (N, H, W), lambda m_, y, x: c.eq(c.g(out, m_, ch, y, x), val(m_, ch, y, x)))
