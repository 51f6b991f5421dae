"""C07: point-cloud batches keep their views coherent, whatever was done to them."""
import sys
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.structures  # noqa
from pytorch3d.structures import Pointclouds
from pytorch3d.structures.pointclouds import join_pointclouds_as_batch, join_pointclouds_as_scene

SU = sys.modules["pytorch3d.structures.utils"]
U = "pytorch3d.structures.utils."
S = "pytorch3d.structures.pointclouds."
M = S + "Pointclouds."
F = torch.float32
I64 = torch.int64


def sizes(c, n, lo=0):
    out = []
    for i in range(n):
        p = c.dim(f"P{i}", lo=lo, hi=None if c.sym else 5)
        out.append(p)
    return out


@contract("C07", "padding a list", [U + "list_to_padded"], [dict(n=n, fixed=f) for n in (1, 2, 3) for f in (True, False)])
def _(c, n, fixed):
    c.default(F)
    P, D = sizes(c, n, 1), c.dim("D", hi=None if c.sym else 4)
    x = [c.real(f"x{i}", (P[i], D), F) for i in range(n)]
    keep = [c.unchanged("inputs untouched", t) for t in x]
    if fixed:
        L = c.dim("L", hi=None if c.sym else 8)
        for p in P:
            c.require(p <= L)
        out = SU.list_to_padded(x, (L, D), pad_value=7.0)
    else:
        L = P[0]
        for p in P[1:]:
            L = c.max(L, p)
        out = SU.list_to_padded(x)
    [k() for k in keep]
    c.shape("shape", out, (n, L, D))
    for i in range(n):
        c.check(f"item {i}", (L, D), lambda p, d: c.eq(c.g(out, i, p, d), c.ite(p < P[i], lambda: c.g(x[i], p, d), lambda: 7.0 if fixed else 0.0)))


@contract("C07", "cutting a padded tensor", [U + "padded_to_list"], [dict(n=n) for n in (1, 2, 3)])
def _(c, n):
    c.default(F)
    L, D = c.dim("L", hi=None if c.sym else 6), c.dim("D", hi=None if c.sym else 4)
    P = sizes(c, n)
    for p in P:
        c.require(p <= L)
    x = c.real("x", (n, L, D), F)
    keep = c.unchanged("inputs untouched", x)
    out = SU.padded_to_list(x, P)
    keep()
    c.fact("number", len(out) == n)
    for i in range(n):
        c.shape(f"shape {i}", out[i], (P[i], D))
        c.check(f"item {i}", (P[i], D), lambda p, d: c.eq(c.g(out[i], p, d), c.g(x, i, p, d)))


@contract("C07", "packing a list", [U + "list_to_packed"], [dict(n=n) for n in (1, 2, 3)])
def _(c, n):
    c.default(F)
    P, D = sizes(c, n), c.dim("D", hi=None if c.sym else 4)
    x = [c.real(f"x{i}", (P[i], D), F) for i in range(n)]
    keep = [c.unchanged("inputs untouched", t) for t in x]
    pk, num, first, idx = SU.list_to_packed(x)
    [k() for k in keep]
    off = [0]
    for p in P:
        off.append(off[-1] + p)
    c.shape("shape", pk, (off[-1], D))
    c.shape("map", idx, (off[-1],))
    for i in range(n):
        c.check(f"count {i}", (), lambda: c.ieq(c.g(num, i), P[i]))
        c.check(f"first {i}", (), lambda: c.ieq(c.g(first, i), off[i]))
        c.check(f"item {i}", (P[i], D), lambda p, d: c.eq(c.g(pk, off[i] + p, d), c.g(x[i], p, d)))
        c.check(f"owner {i}", (P[i],), lambda p: c.ieq(c.g(idx, off[i] + p), i))


@contract("C07", "packing a padded tensor", [U + "padded_to_packed"], [dict(n=n) for n in (1, 2, 3)] + [dict(n=0)])
def _(c, n):
    c.default(F)
    L, D = c.dim("L", hi=None if c.sym else 6), c.dim("D", hi=None if c.sym else 4)
    if n == 0:
        N = c.dim("N", hi=None if c.sym else 4)
        x = c.real("x", (N, L, D), F)
        out = SU.padded_to_packed(x)
        c.shape("shape", out, (N * L, D))
        c.check("rows in order", (N, L, D), lambda i, p, d: c.eq(c.g(out, i * L + p, d), c.g(x, i, p, d)))
        return
    P = sizes(c, n)
    for p in P:
        c.require(p <= L)
    x = c.real("x", (n, L, D), F)
    out = SU.padded_to_packed(x, split_size=list(P))
    off = [0]
    for p in P:
        off.append(off[-1] + p)
    c.shape("shape", out, (off[-1], D))
    for i in range(n):
        c.check(f"item {i}", (P[i], D), lambda p, d: c.eq(c.g(out, off[i] + p, d), c.g(x, i, p, d)))


@contract("C07", "splitting a packed tensor", [U + "packed_to_list"], [dict(n=n) for n in (1, 2, 3)])
def _(c, n):
    c.default(F)
    P, D = sizes(c, n), c.dim("D", hi=None if c.sym else 4)
    off = [0]
    for p in P:
        off.append(off[-1] + p)
    x = c.real("x", (off[-1], D), F)
    out = SU.packed_to_list(x, list(P))
    c.fact("number", len(out) == n)
    for i in range(n):
        c.shape(f"shape {i}", out[i], (P[i], D))
        c.check(f"item {i}", (P[i], D), lambda p, d: c.eq(c.g(out[i], p, d), c.g(x, off[i] + p, d)))


def offs(P):
    o = [0]
    for p in P:
        o.append(o[-1] + p)
    return o


def lists(c, n, C, lo=1, equal=False):
    P = sizes(c, 1, lo) * n if equal else sizes(c, n, lo)
    mk = lambda s, d: [c.real(f"{s}{i}", (P[i], d), F) for i in range(n)]
    return P, mk("p", 3), mk("n", 3), mk("f", C)


def vmax(c, P):
    L = P[0]
    for p in P[1:]:
        L = c.max(L, p)
    return L


def same_clouds(c, tag, pc, P, val, loose=()):
    """all views of pc: val(field, cloud, point, channel); anything may be in the padding of the loose fields"""
    n, o, L = len(P), offs(P), vmax(c, P)
    for fld, ch in (("points", 3), ("normals", 3), ("features", 2)):
        lst, pk, pd = (getattr(pc, f"{fld}_{v}")() for v in ("list", "packed", "padded"))
        c.fact(f"{tag} {fld} number", len(lst) == n)
        c.shape(f"{tag} {fld} packed shape", pk, (o[-1], ch))
        c.shape(f"{tag} {fld} padded shape", pd, (n, L, ch))
        for i in range(n):
            c.shape(f"{tag} {fld} list shape", lst[i], (P[i], ch))
            c.check(f"{tag} {fld} list {i}", (P[i], ch), lambda p, d: c.eq(c.g(lst[i], p, d), val(fld, i, p, d)))
            c.check(f"{tag} {fld} packed {i}", (P[i], ch), lambda p, d: c.eq(c.g(pk, o[i] + p, d), val(fld, i, p, d)))
            c.check(f"{tag} {fld} padded {i}", (P[i] if fld in loose else L, ch), lambda p, d: c.eq(c.g(pd, i, p, d), c.ite(p < P[i], lambda: val(fld, i, p, d), lambda: 0.0)))
    num, first, idx = pc.num_points_per_cloud(), pc.cloud_to_packed_first_idx(), pc.packed_to_cloud_idx()
    pp = pc.padded_to_packed_idx()
    for i in range(n):
        c.check(f"{tag} count {i}", (), lambda: c.ieq(c.g(num, i), P[i]))
        c.check(f"{tag} first {i}", (), lambda: c.ieq(c.g(first, i), o[i]))
        c.check(f"{tag} owner {i}", (P[i],), lambda p: c.ieq(c.g(idx, o[i] + p), i))
        c.check(f"{tag} padded to packed {i}", (P[i],), lambda p: c.ieq(c.g(pp, o[i] + p), i * L + p))


FIELDS = ["__init__", "_parse_auxiliary_input", "_parse_auxiliary_input_list", "_compute_packed", "_compute_padded", "points_list", "normals_list", "features_list", "points_packed", "normals_packed",
          "features_packed", "points_padded", "normals_padded", "features_padded", "packed_to_cloud_idx", "cloud_to_packed_first_idx", "num_points_per_cloud", "padded_to_packed_idx"]


def make(c, n, how, lo=1):
    """clouds of arbitrary sizes; how: the form of points, normals, features (l list, p padded)"""
    P, p, m, f = lists(c, n, 2, lo, how[0] == "p")
    src = dict(points=p, normals=m, features=f)
    L = vmax(c, P)

    def arg(k, fld, ch):
        if how[k] == "l":
            return list(src[fld])
        def at(i, q, d):
            r = 0.0
            for j in reversed(range(n)):
                r = c.ite(c.ieq(i, j), lambda j=j, r=r: c.ite(q < P[j], lambda: c.g(src[fld][j], q, d), lambda: 0.0), (lambda r=r: r))
            return r
        return c.tensor((n, L, ch), at, F)
    pc = Pointclouds(arg(0, "points", 3), arg(1, "normals", 3), arg(2, "features", 2))
    return pc, P, (lambda fld, i, k, d: c.g(src[fld][i], k, d)), src


@contract("C07", "views of new clouds", [M + x for x in FIELDS], [dict(n=n, how=h) for h in ("lll", "ppp", "lpp", "pll", "lpl") for n in (1, 2)] + [dict(n=3, how="lll"), dict(n=2, how="lll", lo=0)])
def _(c, n, how, lo=1):
    c.default(F)
    pc, P, val, _ = make(c, n, how, lo)
    if lo == 0:
        c.require(c.or_(*[p > 0 for p in P]))
    same_clouds(c, "", pc, P, val)


OPS = ["clone", "detach", "extend", "pick", "slice", "int", "offset", "offset1", "offset_", "scale", "scalev", "scale_", "update", "update_n", "batch", "scene", "split"]


@contract("C07", "one operation keeps all views coherent", [M + x for x in ("clone", "detach", "extend", "__getitem__", "offset", "offset_", "scale", "scale_", "update_padded", "split")] + [S + "join_pointclouds_as_batch", S + "join_pointclouds_as_scene"],
          [dict(op=o, first=r, how="lll") for o in OPS for r in ("", "packed", "padded")] + [dict(op=o, first="", how="ppp") for o in OPS], seconds=120)
def _(c, op, first, how):
    c.default(F)
    n = 2
    pc, P, val, src = make(c, n, how)
    L = vmax(c, P)
    o = offs(P)
    if first == "packed":
        pc.points_packed(), pc.padded_to_packed_idx()
    if first == "padded":
        pc.points_padded()
    keep = [c.unchanged("given tensors untouched", t) for f in src.values() for t in f]
    q, Q, v2 = pc, P, val
    on_points = lambda g: (lambda fld, i, k, d: g(i, k, d) if fld == "points" else val(fld, i, k, d))
    if op in ("clone", "detach"):
        q = getattr(pc, op)()
    elif op == "extend":
        q, Q, v2 = pc.extend(2), [P[0], P[0], P[1], P[1]], (lambda fld, i, k, d: val(fld, i // 2, k, d))
    elif op == "pick":
        q, Q, v2 = pc[[1, 0]], [P[1], P[0]], (lambda fld, i, k, d: val(fld, 1 - i, k, d))
    elif op == "slice":
        q, Q, v2 = pc[1:], [P[1]], (lambda fld, i, k, d: val(fld, 1, k, d))
    elif op == "int":
        q, Q, v2 = pc[1], [P[1]], (lambda fld, i, k, d: val(fld, 1, k, d))
    elif op == "split":
        q, r = pc.split([1, 1])
        same_clouds(c, "rest", r, [P[1]], lambda fld, i, k, d: val(fld, 1, k, d))
        Q = [P[0]]
    elif op in ("offset", "offset_"):
        t = c.real("t", (o[-1], 3), F)
        q, v2 = getattr(pc, op)(t), on_points(lambda i, k, d: val("points", i, k, d) + c.g(t, o[i] + k, d))
    elif op == "offset1":
        t = c.real("t", (3,), F)
        q, v2 = pc.offset(t), on_points(lambda i, k, d: val("points", i, k, d) + c.g(t, d))
    elif op == "scale":
        q, v2 = pc.scale(2.5), on_points(lambda i, k, d: val("points", i, k, d) * 2.5)
    elif op in ("scalev", "scale_"):
        t = c.real("t", (n,), F)
        q, v2 = (pc.scale if op == "scalev" else pc.scale_)(t), on_points(lambda i, k, d: val("points", i, k, d) * c.g(t, i))
    elif op in ("update", "update_n"):
        x, y = c.real("x", (n, L, 3), F), c.real("y", (n, L, 3), F)
        q = pc.update_padded(x) if op == "update" else pc.update_padded(x, y)
        v2 = lambda fld, i, k, d: c.g(x, i, k, d) if fld == "points" else c.g(y, i, k, d) if fld == "normals" and op == "update_n" else val(fld, i, k, d)
    elif op == "batch":
        q, Q, v2 = join_pointclouds_as_batch([pc, pc[0]]), [P[0], P[1], P[0]], (lambda fld, i, k, d: val(fld, i % 2, k, d))
    elif op == "scene":
        q, Q = join_pointclouds_as_scene(pc), [o[-1]]
        v2 = lambda fld, i, k, d: c.ite(k < P[0], lambda: val(fld, 0, k, d), lambda: val(fld, 1, k - P[0], d))
    same_clouds(c, "result", q, Q, v2, {"update": ("points",), "update_n": ("points", "normals")}.get(op, ()))
    if q is not pc:
        same_clouds(c, "source", pc, P, val)
    [k() for k in keep]


@contract("C07", "bounding boxes", [M + "get_bounding_boxes"], [dict(n=n) for n in (1, 2)])
def _(c, n):
    c.default(F)
    pc, P, val, _ = make(c, n, "lll")
    b = pc.get_bounding_boxes()
    c.shape("shape", b, (n, 3, 2))
    for i in range(n):
        c.check(f"cloud {i}", (3,), lambda d: c.and_(c.eq(c.g(b, i, d, 0), c.minover(P[i], lambda k: val("points", i, k, d))), c.eq(c.g(b, i, d, 1), c.maxover(P[i], lambda k: val("points", i, k, d)))))


@contract("C07", "points inside a box", [M + "inside_box"], [dict(n=n, box=b) for n in (1, 2) for b in ("one", "batch1", "each")])
def _(c, n, box):
    c.default(F)
    pc, P, val, _ = make(c, n, "lll")
    o = offs(P)
    sh = {"one": (), "batch1": (1,), "each": (n,)}[box]
    lo, sz = c.real("lo", sh + (3,), F), c.real("sz", sh + (3,), F, 0.0, 3.0)
    b = torch.stack([lo, lo + sz], -2) if not c.sym else c.tensor(sh + (2, 3), lambda *i: c.g(lo, *i[:-2], i[-1]) + c.ite(c.ieq(i[-2], 0), lambda: 0.0, lambda: c.g(sz, *i[:-2], i[-1])), F)
    c.require_all(sh + (3,), lambda *i: 0 <= c.g(sz, *i))
    r = pc.inside_box(b)
    c.shape("shape", r, (o[-1],))
    for i in range(n):
        at = lambda j, d: c.g(b, *(() if box == "one" else (0 if box == "batch1" else i,)), j, d)
        c.check(f"cloud {i}", (P[i],), lambda k: c.iff(c.g(r, o[i] + k), c.and_(*[c.and_(c.le(at(0, d), val("points", i, k, d)), c.le(val("points", i, k, d), at(1, d))) for d in range(3)])))


# ---------------------------------------------------------------- bounded: histories, empty clouds, mixed forms
def model_views(pc, X):
    """X: list of (points, normals or None, features or None)"""
    N = len(X)
    n = [len(x[0]) for x in X]
    o = [sum(n[:i]) for i in range(N)]
    allempty = sum(n) == 0
    mx = max(n, default=0)
    loose = getattr(pc, "vt_loose", ())
    ks = {"length": lambda: len(pc) == N}
    for k, (fld, ch) in enumerate((("points", 3), ("normals", 3), ("features", None))):
        has = N > 0 and X[0][k] is not None
        if not has or (k and allempty):
            if k and not allempty:
                for v in ("list", "packed", "padded"):
                    ks[f"{fld} {v} absent"] = lambda fld=fld, v=v: getattr(pc, f"{fld}_{v}")() is None
            continue
        xs = [x[k] for x in X]

        def lst(fld=fld, xs=xs):
            g = getattr(pc, fld + "_list")()
            return len(g) == N and all(len(a) == len(b) and (len(b) == 0 or gen.exact(a, b)) for a, b in zip(g, xs))

        def padded(fld=fld, xs=xs, k=k):
            g = getattr(pc, fld + "_padded")()
            return g.shape[0] == N and g.shape[1] == mx and all((len(b) == 0 or gen.exact(a[:len(b)], b)) and (fld in loose or bool((a[len(b):] == 0).all())) for a, b in zip(g, xs))
        ks[f"{fld} list"], ks[f"{fld} padded"] = lst, padded
        ks[f"{fld} packed"] = lambda fld=fld, xs=xs: gen.exact(getattr(pc, fld + "_packed")(), torch.cat([x for x in xs if len(x)]) if not allempty else torch.zeros((0, 3)))
    z = [] if allempty else None
    ks.update({
        "owner": lambda: pc.packed_to_cloud_idx().tolist() == [i for i in range(N) for _ in range(n[i])],
        "first": lambda: pc.cloud_to_packed_first_idx().tolist() == ([] if allempty else o),
        "count": lambda: pc.num_points_per_cloud().tolist() == n,
        "padded to packed": lambda: pc.padded_to_packed_idx().tolist() == [i * mx + k for i in range(N) for k in range(n[i])],
        "isempty": lambda: bool(pc.isempty()) == allempty,
        "get_cloud": lambda: all(len(pc.get_cloud(i)[0]) == n[i] and (not n[i] or gen.exact(pc.get_cloud(i)[0], X[i][0])) for i in range(N)),
    })
    if N and min(n) > 0:
        ks["boxes"] = lambda: gen.exact(pc.get_bounding_boxes(), torch.stack([torch.stack([x[0].min(0).values, x[0].max(0).values], -1) for x in X]))
    return ks


def look(c, tag, pc, X, label, some=None):
    ks = model_views(pc, X)
    names = sorted(ks)
    r = torch.Generator().manual_seed(int(c.integer("order" + tag, 0, 10 ** 6)))
    names = [names[i] for i in torch.randperm(len(names), generator=r).tolist()]
    for k in names[:some]:
        c.fact(f"{label}: {k}", ks[k]())


def build(c, tag, fields=None):
    hasn, hasf = (bool(c.integer("hn" + tag, 0, 2)), bool(c.integer("hf" + tag, 0, 2))) if fields is None else fields
    how = [c.integer(f"how{tag}{k}", 0, 2) for k in range(3)]
    equal = how[0] == 1 or c.integer("eq" + tag, 0, 3) == 0
    ps = gen.cloud_lists(c, tag, equal=equal)
    if c.integer("allempty" + tag, 0, 10) == 0 and not equal:
        ps = [torch.zeros((0, 3)) for _ in ps]
    n = [len(p) for p in ps]
    mx = max(n)
    aux = lambda s, ch: [c.real(f"{s}{tag}{i}", (k, ch), F) if k else torch.zeros((0, ch)) for i, k in enumerate(n)]
    ns, fs = aux("n", 3) if hasn else None, aux("f", 2) if hasf else None

    def form(k, xs):
        if xs is None:
            return None
        if not how[k]:
            return [x.clone() for x in xs]
        o = torch.zeros((len(xs), mx, xs[0].shape[1]))
        for i, x in enumerate(xs):
            o[i, :len(x)] = x
        return o
    pc = Pointclouds(form(0, ps), form(1, ns), form(2, fs))
    return pc, [(p, ns[i] if hasn else None, fs[i] if hasf else None) for i, p in enumerate(ps)], (hasn, hasf)


def pick(c, tag, N):
    kind = c.integer("ik" + tag, 0, 6)
    if kind == 0:
        i = c.integer("i" + tag, -N, N)
        return i, [i % N]
    if kind == 1:
        a = c.integer("a" + tag, 0, N)
        b = c.integer("b" + tag, a + 1, N + 2)
        return slice(a, b), list(range(N))[a:b]
    if kind == 2:
        return slice(None, None, 2), list(range(N))[::2]
    L = [c.integer(f"i{tag}{k}", 0, N) for k in range(c.integer("n" + tag, 1, 4))]
    if kind == 3:
        return L, L
    if kind == 4:
        return torch.tensor(L, dtype=I64), L
    b = [c.integer(f"b{tag}{k}", 0, 2) for k in range(N)]
    b[L[0]] = 1
    return torch.tensor(b, dtype=torch.bool), [k for k in range(N) if b[k]]


def step(c, t, pc, X, fields):
    N = len(X)
    n = [len(x[0]) for x in X]
    mx = max(n)
    op = c.integer("op" + t, 0, 15)
    loose = getattr(pc, "vt_loose", ())
    if op == 0:
        q = pc.clone()
        q.vt_loose = loose
        return [(q, [tuple(None if v is None else v.clone() for v in x) for x in X])], False
    if op == 1:
        q = pc.detach()
        q.vt_loose = loose
        return [(q, X)], False
    if op == 2:
        k = c.integer("k" + t, 1, 4)
        return [(pc.extend(k), [x for x in X for _ in range(k)])], False
    if op in (3, 4):
        i, L = pick(c, t, N)
        return [(pc[i], [X[k] for k in L])], False
    if op in (5, 6):
        one = c.integer("one" + t, 0, 2) == 1 or not sum(n)
        d = c.real("d" + t, (3,) if one else (sum(n), 3), F)
        q = pc.offset(d) if op == 5 else pc.offset_(d)
        q.vt_loose = loose
        dd = (d.expand(sum(n), 3) if one else d).split(n)
        return [(q, [(x[0] + a, *x[1:]) for x, a in zip(X, dd)])], op == 6
    if op in (7, 8):
        s = c.real("s" + t, (N,), F, 0.25, 2.0)
        if c.integer("one" + t, 0, 2) == 1:
            s[:] = 1.5
            q = (pc.scale if op == 7 else pc.scale_)(1.5)
        else:
            q = (pc.scale if op == 7 else pc.scale_)(s)
        q.vt_loose = loose
        return [(q, [(x[0] * s[i], *x[1:]) for i, x in enumerate(X)])], op == 8
    if op in (9, 10):
        mk = lambda nm, ch: c.real(nm + t, (N, mx, ch), F) if mx else torch.zeros((N, 0, ch))
        x = mk("x", 3)
        y = mk("y", 3) if c.integer("un" + t, 0, 2) else None
        z = mk("z", 2) if c.integer("uf" + t, 0, 2) and mx else None
        if not mx:
            y = None
        q = pc.update_padded(x, y, z)
        q.vt_loose = tuple(loose) + ("points",) + (("normals",) if y is not None else ()) + (("features",) if z is not None else ())
        cut = lambda v, i, old: old if v is None else v[i, :n[i]].clone()
        return [(q, [(cut(x, i, None), cut(y, i, o[1]), cut(z, i, o[2])) for i, o in enumerate(X)])], False
    if op == 11:
        cut = c.integer("cut" + t, 1, N + 1)
        if cut == N:
            return [(pc.split([N])[0], X)], False
        a, b = pc.split([cut, N - cut])
        return [(a, X[:cut]), (b, X[cut:])], False
    if op == 12 and sum(n):
        hf = (X[0][1] is not None, X[0][2] is not None)
        o, Y, _ = build(c, "j" + t, hf)
        if sum(len(y[0]) for y in Y):
            return [(join_pointclouds_as_batch([pc, o]), X + Y), (o, Y)], False
    if op == 13 and N > 1 and sum(n):
        j = lambda k: None if X[0][k] is None else torch.cat([x[k] for x in X])
        return [(join_pointclouds_as_scene(pc), [(j(0), j(1), j(2))])], False
    m = c.integer("m" + t, 0, 7)
    if all(k <= m for k in n):
        q = pc.subsample(m)
        c.fact("nothing to drop", q is pc)
        return [(q, X)], True
    q = pc.subsample(m)
    Y = []
    for i, (p, pn, pf) in enumerate(X):
        g, gn, gf = q.get_cloud(i)
        c.fact("number of kept points", len(g) == min(n[i], m))
        row = lambda a, k: torch.cat([v[k] for v in a if v is not None]).tolist()
        src = [row((p, pn, pf), k) for k in range(n[i])]
        if len(g) or not any(v is not None for v in (pn, pf)):
            got = [row((g, gn if pn is not None else None, gf if pf is not None else None), k) for k in range(len(g))]
            c.fact("kept points come from the cloud", all(r in src for r in got))
        if n[i] <= m:
            c.fact("small clouds are kept", len(g) == n[i] and (not n[i] or gen.exact(g, p)))
        e = lambda v, w: None if w is None else (v.clone() if v is not None and len(v) else w[:0])
        Y.append((e(g, p), e(gn, pn), e(gf, pf)))
    return [(q, Y)], False


@contract("C07", "all views agree after any history", [M + o for o in FIELDS + ["__getitem__", "clone", "detach", "extend", "split", "offset", "offset_", "scale", "scale_", "update_padded", "subsample", "get_bounding_boxes", "get_cloud"]]
          + [S + "join_pointclouds_as_batch", S + "join_pointclouds_as_scene"],
          [dict(n=k) for k in (0, 1, 2, 3)] + [dict(n=2, again=i) for i in range(2)], trials=300, seconds=120,
          bounded="batches of up to 3 clouds of up to 6 points (doubled, joined or repeated by up to 3 operations)")
def _(c, n, again=0):
    if c.sym:
        return
    c.default(F)
    pc, X, fields = build(c, "0")
    alive = [(pc, X)]
    for k in range(n):
        if not X or not sum(len(x[0]) for x in X) and k:
            break
        look(c, f"r{k}", pc, X, "before", some=c.integer(f"some{k}", 0, 12))
        out, inplace = step(c, str(k), pc, X, fields)
        if inplace:
            alive = [a for a in alive if a[0] is not pc]
        alive += out
        pc, X = out[0]
    for j, (a, x) in enumerate(alive):
        look(c, f"e{j}", a, x, "after")


@contract("C07", "a batch of no clouds", [M + "__init__", M + "padded_to_packed_idx", M + "scale_", M + "offset_"], trials=4, bounded="the empty batch")
def _(c):
    if c.sym:
        return
    for first in (0, 1):
        pc = Pointclouds([])
        if first:
            pc.points_packed(), pc.points_padded()
        for f in (lambda q: q, lambda q: q.clone(), lambda q: q.scale_(2.0), lambda q: q.offset_(torch.ones(3)), lambda q: q.extend(2), lambda q: q[:1]):
            look(c, f"{first}", f(pc), [], "empty")


@contract("C07", "malformed batches are rejected", [M + "__init__", M + "__getitem__", M + "extend", M + "split", M + "update_padded", M + "inside_box", S + "join_pointclouds_as_batch"], trials=10, bounded="a fixed list of malformed arguments")
def _(c):
    if c.sym:
        return
    c.default(F)
    p = gen.cloud_lists(c, "", empty=False)
    pc = Pointclouds(p)
    mx = max(map(len, p))
    c.raises("two coordinates", (ValueError,), lambda: Pointclouds([x[:, :2] for x in p]))
    c.raises("flat tensor", (ValueError,), lambda: Pointclouds(torch.zeros((4, 3))))
    c.raises("normals of other channels", (ValueError,), lambda: Pointclouds(p, normals=[x[:, :2] for x in p]))
    c.raises("normals of another count", (ValueError,), lambda: Pointclouds(p, normals=[x[:-1] if len(x) > 1 else torch.cat([x, x]) for x in p]))
    c.raises("too few features", (ValueError,), lambda: Pointclouds(p + p, features=p))
    c.raises("features of another batch", (ValueError,), lambda: Pointclouds(p, features=torch.zeros((len(p) + 1, mx, 2))))
    c.raises("a float index", (IndexError,), lambda: pc[torch.tensor([0.0])])
    c.raises("an index of another type", (IndexError,), lambda: pc["0"])
    c.raises("no copies", (ValueError,), lambda: pc.extend(0))
    c.raises("fractional split", (ValueError,), lambda: pc.split([0.5]))
    c.raises("another number of points", (ValueError,), lambda: pc.update_padded(torch.zeros((len(p), mx + 1, 3))))
    c.raises("offsets of another shape", (ValueError,), lambda: pc.offset(torch.zeros((sum(map(len, p)) + 1, 3))))
    c.raises("an inverted box", (ValueError,), lambda: pc.inside_box(torch.tensor([[1.0, 1, 1], [0, 0, 0]])))
    c.raises("boxes of another batch", (ValueError,), lambda: pc.inside_box(torch.zeros((len(p) + 1, 2, 3))))
    c.raises("one batch instead of a list", (ValueError,), lambda: join_pointclouds_as_batch(pc))
    c.raises("features only in some", (ValueError,), lambda: join_pointclouds_as_batch([pc, Pointclouds(p, features=p)]))
