"""C14: inverse-transform sampling."""
import sys
import torch
from vt.ctx import contract
from vt import gen, cpp
import pytorch3d.renderer.implicit.sample_pdf  # noqa
from pytorch3d import _C

NATIVE = True
F = torch.float32
M = "pytorch3d.renderer.implicit.sample_pdf."
CS = "pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp:"
SP = sys.modules["pytorch3d.renderer.implicit.sample_pdf"]


@contract("C14", "the reference formula inverts the cumulative distribution", [M + "sample_pdf_python"], [dict(det=True, batch=0), dict(det=True, batch=1), dict(det=True, batch=2)], tol=1e-3)
def _(c, det, batch):
    c.default(F)
    sh = tuple(c.dim("AB"[k], hi=None if c.sym else 3) for k in range(batch))
    n, S = c.dim("n", hi=None if c.sym else 5), c.dim("S", lo=2, hi=None if c.sym else 6)
    eps = c.scalar("eps", 1e-6, 1e-3)
    c.require(0 < eps)
    bins, w = c.real("bins", sh + (n + 1,), F), c.real("w", sh + (n,), F, 0.0, 2.0)
    c.require_all(sh + (n,), lambda *i: 0 <= c.g(w, *i))
    if not c.sym:
        bins = bins.sort(-1).values
    keep = [c.unchanged("inputs untouched", t) for t in (bins, w)]
    out = SP.sample_pdf_python(bins, w, S, det=det, eps=eps)
    [k() for k in keep]
    c.shape("shape", out, sh + (S,))
    tot = lambda b: c.sum(n, lambda j: c.g(w, *b, j) + eps)
    cdf = lambda b, k: c.ite(k < 1, lambda: 0, lambda: c.sum(k, lambda j: (c.g(w, *b, j) + eps) / tot(b)))

    def val(*i):
        b, s = i[:-1], i[-1]
        u = c.toreal(s) / c.toreal(S - 1)
        if not c.sym and any(abs(cdf(b, k) - u) < 1e-4 for k in range(n + 1)):
            return True         # on a boundary: rounding decides
        cnt = c.sum(n + 1, lambda k: c.ite(cdf(b, k) <= u, 1, 0))
        lo = c.ite(cnt - 1 < 0, 0, cnt - 1)
        hi = c.ite(cnt > n, n, cnt)
        d = cdf(b, hi) - cdf(b, lo)
        d = c.ite(d < eps, 1, d)
        return c.eq(c.g(out, *i), c.g(bins, *b, lo) + (u - cdf(b, lo)) / d * (c.g(bins, *b, hi) - c.g(bins, *b, lo)))
    c.check("value", sh + (S,), val)


@contract("C14", "the kernel inverts the cumulative distribution of each row", [CS + "SamplePdfCpu_worker"], tol=1e-3)
def _(c):
    c.default(F)
    N, n, S = c.dim("N", hi=None if c.sym else 4), c.dim("n", hi=None if c.sym else 5), c.dim("S", hi=None if c.sym else 6)
    eps = c.scalar("eps", 1e-6, 1e-3)
    c.require(0 < eps)
    bins, w, u = c.real("bins", (N, n + 1), F), c.real("w", (N, n), F, 0.0, 2.0), c.real("u", (N, S), F, 0.0, 1.0)
    c.require_all((N, n), lambda *i: 0 <= c.g(w, *i))
    out = u.clone()
    if c.sym:
        cpp.call("SamplePdfCpu_worker", bins, w, out, eps, 0, N)
    else:
        bins = bins.sort(-1).values
        _C.sample_pdf(bins, w, out, eps)
    ps = lambda b, k: c.ite(k < 1, lambda: 0, lambda: c.sum(k, lambda j: c.g(w, b, j)))

    def val(b, s):
        x = (c.sum(n, lambda j: c.g(w, b, j)) + eps) * c.g(u, b, s)
        k = c.sum(n - 1, lambda j: c.ite(ps(b, j + 1) < x, 1, 0))
        x = x - ps(b, k)
        lo, hi, wk = c.g(bins, b, k), c.g(bins, b, k + 1), c.g(w, b, k)
        return c.eq(c.g(out, b, s), c.ite(x > wk, hi, c.ite(wk > eps, lambda: lo + x / wk * (hi - lo), lambda: lo)))
    c.check("value", (N, S), val)


def invert(bins, w, u, eps):
    """the point where the piecewise-linear cumulative distribution of w reaches u, with the ambiguity of flat pieces: (lo, hi)"""
    w = w.double()
    t = float(w.sum())
    slack = eps + 1e-5 * t
    x = u * t
    a = b = None
    acc = 0.0
    for k in range(len(w)):
        wk = float(w[k])
        if a is None and acc + wk >= x - slack:
            a = float(bins[k]) + (max(0.0, min(1.0, (x - slack - acc) / wk)) if wk > 2 * eps else 0.0) * float(bins[k + 1] - bins[k])
        if acc <= x + slack:
            b = float(bins[k]) + (max(0.0, min(1.0, (x + slack - acc) / wk)) if wk > 2 * eps else 1.0) * float(bins[k + 1] - bins[k])
        acc += wk
    return (float(bins[0]) if a is None else a), (float(bins[-1]) if b is None else b)


@contract("C14", "samples are where the cumulative distribution reaches the variate", [M + "sample_pdf", CS + "SamplePdfCpu"], [dict(kind=k) for k in ("kernel", "det", "rand", "python", "python rand")],
          conc_only=True, trials=40, bounded="up to 14 rows of up to 8 bins and 12 samples, empty bins, boundary variates and several threads included")
def _(c, kind):
    c.default(F)
    torch.set_num_threads(c.integer("threads", 1, 6))
    N, n, S = c.integer("N", 1, 15), c.integer("n", 1, 9), c.integer("S", 1, 13)
    eps = 1e-5
    bins = c.real("bins", (N, n + 1), F, -3.0, 3.0).sort(-1).values
    w = c.real("w", (N, n), F, 0.0, 2.0)
    w[c.bools("empty", (N, n))] = 0.0
    w[w < 1e-2] = 0.0
    w[w.sum(1) < 0.05] = 1.0
    if kind == "kernel":
        big = torch.full((N + 3, S), 0.5)
        u = c.real("u", (N, S), F, 0.0, 1.0)
        if n > 1:
            u[0, 0] = float(w[0, :1].sum() / w[0].sum())      # the boundary of two bins
        u[-1, -1] = 0.0
        u[0, -1] = 1.0
        big[:N] = u
        pad = lambda t: torch.cat([t, torch.rand(3, t.shape[1])])
        _C.sample_pdf(pad(bins)[:N], pad(w)[:N], big[:N], eps)
        out = big[:N]
        c.fact("nothing else is written", bool((big[N:] == 0.5).all()))
    elif kind == "det":
        out = SP.sample_pdf(bins, w, S, det=True, eps=eps)
        u = torch.linspace(0, 1, S).expand(N, S)
    elif kind == "python":
        out = SP.sample_pdf_python(bins, w, S, det=True, eps=eps)
        u = torch.linspace(0, 1, S).expand(N, S)
    else:
        lead = N % 2 == 0 and kind == "rand"
        b2, w2 = (bins.view(2, N // 2, n + 1), w.view(2, N // 2, n)) if lead else (bins, w)
        s = c.integer("seed", 0, 10000)
        torch.manual_seed(s)
        out = (SP.sample_pdf if kind == "rand" else SP.sample_pdf_python)(b2, w2, S, eps=eps)
        c.fact("shape", tuple(out.shape) == tuple(b2.shape[:-1]) + (S,))
        out = out.reshape(N, S)
        torch.manual_seed(s)
        u = torch.rand(tuple(b2.shape[:-1]) + (S,)).reshape(N, S)
    c.fact("shape", tuple(out.shape) == (N, S))
    for b in range(N):
        for s in range(S):
            lo, hi = invert(bins[b], w[b], float(u[b, s]), eps * (n + 2))
            c.fact("inverse", lo - 2e-3 <= float(out[b, s]) <= hi + 2e-3)
            c.fact("inside the bins", float(bins[b, 0]) - 1e-5 <= float(out[b, s]) <= float(bins[b, -1]) + 1e-5)
        o = out[b][u[b].argsort()]
        c.fact("monotone", bool((o[1:] >= o[:-1] - 1e-4).all()))


@contract("C14", "kernel and reference agree", [M + "sample_pdf", M + "sample_pdf_python"], conc_only=True, trials=40, bounded="up to 6 rows of up to 8 positive bins and 20 samples")
def _(c):
    c.default(F)
    N, n, S = c.integer("N", 1, 7), c.integer("n", 1, 9), c.integer("S", 2, 21)
    bins = c.real("bins", (N, n + 1), F, -3.0, 3.0).sort(-1).values
    w = c.real("w", (N, n), F, 0.1, 2.0)
    a, b = SP.sample_pdf(bins, w, S, det=True), SP.sample_pdf_python(bins, w, S, det=True)
    c.fact("samples", gen.close(a, b, 2e-3))


@contract("C14", "sampling arguments", [M + "sample_pdf", M + "sample_pdf_python"], conc_only=True, bounded="fixed arguments")
def _(c):
    c.default(F)
    bins, w = torch.rand(2, 4).sort(-1).values, torch.rand(2, 3)
    c.raises("negative weights", (ValueError,), lambda: SP.sample_pdf(bins, w - 2, 3))
    c.raises("negative weights, reference", (ValueError,), lambda: SP.sample_pdf_python(bins, w - 2, 3))
    c.raises("number of bins", (ValueError,), lambda: SP.sample_pdf(bins, torch.rand(2, 4), 3))
    c.raises("batch", (ValueError,), lambda: SP.sample_pdf(bins, torch.rand(3, 3), 3))
    c.raises("gradient", (NotImplementedError,), lambda: SP.sample_pdf(bins.clone().requires_grad_(), w, 3))
