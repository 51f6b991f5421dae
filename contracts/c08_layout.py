"""C08: packed and padded layouts."""
import torch
from vt.ctx import contract
from pytorch3d.ops import packed_to_padded, padded_to_packed

NATIVE = True
F = torch.float32
K = "pytorch3d/csrc/packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp:"


def layout(c):
    """first indices of a batch: f[0] = 0, non-decreasing, at most F rows, every count at most max_size"""
    c.default(F)
    N, D = c.dim("N", lo=1, hi=None if c.sym else 4), c.dim("D", lo=1, hi=None if c.sym else 3)
    M = c.dim("M", lo=1, hi=None if c.sym else 5)
    P = c.dim("P", lo=1, hi=None if c.sym else 5)
    def fix(t):
        t = t.sort().values
        t[0] = 0
        for b in range(1, len(t)):
            t[b] = min(int(t[b]), int(t[b - 1]) + M)
        return t
    f = c.ints("first", (N,), 0, P, fix=fix)
    if not c.sym:
        c.require(P - int(f[-1]) <= M)
    end = lambda b: c.ite(b + 1 < N, lambda: c.g(f, b + 1), lambda: P)
    c.require(c.g(f, 0) == 0)
    c.require_all((N,), lambda b: c.le(c.g(f, b), end(b)))
    c.require_all((N, N), lambda b, a: c.implies(b < a, lambda: c.le(end(b), c.g(f, a))))
    c.require_all((N,), lambda b: c.le(end(b) - c.g(f, b), M))
    return N, D, M, P, f, end


@contract("C08", "packed to padded places every row and fills with zeros", ["pytorch3d.ops.packed_to_padded", K + "PackedToPaddedCpu"])
def _(c):
    N, D, M, P, f, end = layout(c)
    x = c.real("x", (P, D), F)
    out = packed_to_padded(x, f, M)
    c.shape("shape", out, (N, M, D))
    c.check("rows", (N, M, D), lambda b, i, d: c.eq(c.g(out, b, i, d), c.ite(c.g(f, b) + i < end(b), lambda: c.g(x, c.g(f, b) + i, d), lambda: 0)))


@contract("C08", "padded to packed takes every row back", ["pytorch3d.ops.padded_to_packed", K + "PaddedToPackedCpu"], [dict(flat=False), dict(flat=True)])
def _(c, flat):
    N, D, M, P, f, end = layout(c)
    if flat:
        D = 1
    x = c.real("x", (N, M) if flat else (N, M, D), F)
    out = padded_to_packed(x, f, P)
    c.shape("shape", out, (P,) if flat else (P, D))
    at = (lambda y, *i: c.g(y, *i[:-1])) if flat else c.g
    c.check("rows", (N, M, D), lambda b, i, d: c.implies(c.g(f, b) + i < end(b), lambda: c.eq(at(out, c.g(f, b) + i, d), at(x, b, i, d))))


@contract("C08", "packing the padded tensor recovers the packed one", ["pytorch3d.ops.packed_to_padded", "pytorch3d.ops.padded_to_packed"])
def _(c):
    N, D, M, P, f, end = layout(c)
    x = c.real("x", (P, D), F)
    out = padded_to_packed(packed_to_padded(x, f, M), f, P)
    c.shape("shape", out, (P, D))
    c.check("rows", (N, M, D), lambda b, i, d: c.implies(c.g(f, b) + i < end(b), lambda: c.eq(c.g(out, c.g(f, b) + i, d), c.g(x, c.g(f, b) + i, d))))


@contract("C08", "flat and higher rank inputs are packed and padded by rows", ["pytorch3d.ops.packed_to_padded", "pytorch3d.ops.padded_to_packed"],
          [dict(rank=1), dict(rank=3)])
def _(c, rank):
    N, D, M, P, f, end = layout(c)
    tail = () if rank == 1 else (2, D)
    x = c.real("x", (P,) + tail, F)
    out = packed_to_padded(x, f, M)
    c.shape("padded shape", out, (N, M) + tail)
    c.check("padded rows", (N, M) + tail, lambda b, i, *d: c.eq(c.g(out, b, i, *d), c.ite(c.g(f, b) + i < end(b), lambda: c.g(x, c.g(f, b) + i, *d), lambda: 0)))
    y = c.real("y", (N, M) + tail, F)
    back = padded_to_packed(y, f, P)
    c.shape("packed shape", back, (P,) + tail)
    c.check("packed rows", (N, M) + tail, lambda b, i, *d: c.implies(c.g(f, b) + i < end(b), lambda: c.eq(c.g(back, c.g(f, b) + i, *d), c.g(y, b, i, *d))))


@contract("C08", "padded dimension may be any dimension", ["pytorch3d.ops.padded_to_packed"], [dict(d=2), dict(d=-1)])
def _(c, d):
    N, D, M, P, f, end = layout(c)
    y = c.real("y", (N, D, M), F)
    back = padded_to_packed(y, f, P, d)
    c.shape("packed shape", back, (P, D))
    c.check("packed rows", (N, M, D), lambda b, i, k: c.implies(c.g(f, b) + i < end(b), lambda: c.eq(c.g(back, c.g(f, b) + i, k), c.g(y, b, k, i))))


class Saver:
    def save_for_backward(self, *a):
        self.saved_tensors = a


@contract("C08", "gradients are the adjoint maps", ["pytorch3d.ops.packed_to_padded._PackedToPadded.backward", "pytorch3d.ops.packed_to_padded._PaddedToPacked.backward"])
def _(c):
    from pytorch3d.ops import packed_to_padded as _u  # noqa
    import sys
    m = sys.modules["pytorch3d.ops.packed_to_padded"]
    N, D, M, P, f, end = layout(c)
    x = c.real("x", (P, D), F)
    gp = c.real("gp", (N, M, D), F)
    s = Saver()
    m._PackedToPadded.forward(s, x, f, M)
    gx = m._PackedToPadded.backward(s, gp)[0]
    c.shape("shape", gx, (P, D))
    c.check("packed gradient", (N, M, D), lambda b, i, d: c.implies(c.g(f, b) + i < end(b), lambda: c.eq(c.g(gx, c.g(f, b) + i, d), c.g(gp, b, i, d))))
    s = Saver()
    m._PaddedToPacked.forward(s, gp, f, P)
    gy = m._PaddedToPacked.backward(s, x)[0]
    c.shape("shape 2", gy, (N, M, D))
    c.check("padded gradient", (N, M, D), lambda b, i, d: c.eq(c.g(gy, b, i, d), c.ite(c.g(f, b) + i < end(b), lambda: c.g(x, c.g(f, b) + i, d), lambda: 0)))


# ------------------------------------------------------------------ list / packed / padded helpers
U = "pytorch3d.structures.utils."


def parts(c, n, D=None, rank=2):
    c.default(F)
    ls = [c.dim(f"L{k}", lo=0, hi=None if c.sym else 4) for k in range(n)]
    D = c.dim("D", lo=1, hi=None if c.sym else 3)
    tail = (D,) if rank == 2 else ()
    return ls, D, [c.real(f"x{k}", (ls[k],) + tail, F) for k in range(n)]


@contract("C08", "list to packed concatenates and indexes", [U + "list_to_packed", U + "packed_to_list"], [dict(n=1), dict(n=3)])
def _(c, n):
    from pytorch3d.structures import utils as SU
    ls, D, xs = parts(c, n)
    p, num, first, idx = SU.list_to_packed(xs)
    tot = sum(ls)
    c.shape("packed shape", p, (tot, D))
    c.shape("num shape", num, (n,))
    c.shape("first shape", first, (n,))
    c.shape("idx shape", idx, (tot,))
    for k in range(n):
        off = sum(ls[:k])
        c.fact(f"count {k}", c.ieq(c.g(num, k), ls[k]))
        c.fact(f"first {k}", c.ieq(c.g(first, k), off))
        c.check(f"rows {k}", (ls[k], D), lambda i, d: c.eq(c.g(p, off + i, d), c.g(xs[k], i, d)))
        c.check(f"list index {k}", (ls[k],), lambda i: c.ieq(c.g(idx, off + i), k))
    back = SU.packed_to_list(p, ls)
    c.fact("list length", len(back) == n)
    for k in range(n):
        c.shape(f"item {k}", back[k], (ls[k], D))
        c.check(f"item rows {k}", (ls[k], D), lambda i, d: c.eq(c.g(back[k], i, d), c.g(xs[k], i, d)))


@contract("C08", "list to padded pads with the value and padded to list cuts it off", [U + "list_to_padded", U + "padded_to_list"],
          [dict(n=n, sized=s) for n in (1, 2, 3) for s in (False, True)], paths=300)
def _(c, n, sized):
    from pytorch3d.structures import utils as SU
    ls, D, xs = parts(c, n)
    v = c.scalar("pad")
    if sized:
        M, E = c.dim("M", lo=1, hi=None if c.sym else 6), c.dim("E", lo=1, hi=None if c.sym else 4)
        for l in ls:
            c.require(l <= M)
        c.require(D <= E)
        out = SU.list_to_padded(xs, pad_size=(M, E), pad_value=v)
    else:
        M, E = ls[0], D
        for l in ls[1:]:
            M = c.max(M, l)
        c.require(M > 0)
        out = SU.list_to_padded(xs, pad_value=v)
    c.shape("shape", out, (n, M, E))
    for k in range(n):
        c.check(f"rows {k}", (M, E), lambda i, d: c.eq(c.g(out, k, i, d), c.ite(c.and_(i < ls[k], d < D), lambda: c.g(xs[k], i, d), lambda: v)))
    back = SU.padded_to_list(out, [(l, D) for l in ls])
    back1 = SU.padded_to_list(out, list(ls))
    whole = SU.padded_to_list(out)
    for k in range(n):
        c.shape(f"item {k}", back[k], (ls[k], D))
        c.check(f"item rows {k}", (ls[k], D), lambda i, d: c.eq(c.g(back[k], i, d), c.g(xs[k], i, d)))
        c.shape(f"cut {k}", back1[k], (ls[k], E))
        c.check(f"cut rows {k}", (ls[k], D), lambda i, d: c.eq(c.g(back1[k], i, d), c.g(xs[k], i, d)))
        c.shape(f"whole {k}", whole[k], (M, E))


@contract("C08", "one-dimensional lists pad the same way", [U + "list_to_padded", U + "padded_to_list"], [dict(n=2)], paths=300)
def _(c, n):
    from pytorch3d.structures import utils as SU
    ls, D, xs = parts(c, n, rank=1)
    M = ls[0]
    for l in ls[1:]:
        M = c.max(M, l)
    c.require(M > 0)
    v = c.scalar("pad")
    out = SU.list_to_padded(xs, pad_value=v)
    c.shape("shape", out, (n, M))
    for k in range(n):
        c.check(f"rows {k}", (M,), lambda i: c.eq(c.g(out, k, i), c.ite(i < ls[k], lambda: c.g(xs[k], i), lambda: v)))


@contract("C08", "padded to packed helper keeps the leading rows of every entry", [U + "padded_to_packed"], [dict(n=1), dict(n=3)])
def _(c, n):
    from pytorch3d.structures import utils as SU
    ls, D, _ = parts(c, n)
    M = c.dim("M", lo=1, hi=None if c.sym else 6)
    for l in ls:
        c.require(l <= M)
    x = c.real("x", (n, M, D), F)
    out = SU.padded_to_packed(x, split_size=list(ls))
    c.shape("shape", out, (sum(ls), D))
    for k in range(n):
        off = sum(ls[:k])
        c.check(f"rows {k}", (ls[k], D), lambda i, d: c.eq(c.g(out, off + i, d), c.g(x, k, i, d)))
    flat = SU.padded_to_packed(x)
    c.shape("flat shape", flat, (n * M, D))
    for k in range(n):
        c.check(f"flat rows {k}", (M, D), lambda i, d: c.eq(c.g(flat, k * M + i, d), c.g(x, k, i, d)))


@contract("C08", "padded to packed by pad value drops exactly the padded rows", [U + "padded_to_packed"], conc_only=True,
          bounded="boolean-mask compaction: real runs on small layouts", trials=30)
def _(c):
    from pytorch3d.structures import utils as SU
    c.default(F)
    N, M, D = c.dim("N", hi=3), c.dim("M", hi=4), c.dim("D", hi=3)
    v = c.integer("pad", -1, 2)
    x = c.ints("x", (N, M, D), -1, 2).float()
    out = SU.padded_to_packed(x, pad_value=float(v))
    keep = [r for e in x.tolist() for r in e if any(z != v for z in r)]
    c.fact("rows", out.tolist() == keep and tuple(out.shape[1:]) == (D,))


@contract("C08", "rejected arguments", [U + "padded_to_packed", U + "padded_to_list", U + "list_to_padded", U + "list_to_packed", "pytorch3d.ops.packed_to_padded"])
def _(c):
    from pytorch3d.structures import utils as SU
    c.default(F)
    N, M, D = (c.dim(k, hi=None if c.sym else 3) for k in "NMD")
    x, f = c.real("x", (N, M, D), F), c.ints("f", (N,), 0, 3)
    f2 = c.ints("f2", (N, 1), 0, 3)
    x64 = c.real("x64", (N, D), torch.float64)
    x2 = c.real("x2", (N, D), F)
    c.raises("both arguments", ValueError, lambda: SU.padded_to_packed(x, split_size=[1], pad_value=0.0))
    c.raises("rank", ValueError, lambda: SU.padded_to_packed(x2))
    c.raises("no list", ValueError, lambda: SU.list_to_packed([]))
    c.raises("not double", ValueError, lambda: packed_to_padded(x64, f, 2))
    c.raises("index rank", ValueError, lambda: packed_to_padded(x2, f2, 2))
    c.raises("mixed rank", ValueError, lambda: SU.list_to_padded([x, x2]))
    c.raises("pad size rank", ValueError, lambda: SU.list_to_padded([x, x], pad_size=(3,)))
