"""C19: textures give the attribute of the hit surface point."""
import math
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.renderer  # noqa
from pytorch3d.structures import Meshes
from pytorch3d.structures.meshes import join_meshes_as_batch, join_meshes_as_scene
from pytorch3d.renderer.mesh.textures import TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.renderer.mesh.rasterizer import Fragments

T = "pytorch3d.renderer.mesh.textures."
F = torch.float32
I64 = torch.int64


# ---------------------------------------------------------------- bounded: what a face shows at a barycentric point
def read_map(m, u, v, align, padding, mode):
    """value of the map (H, W, C) at texture coordinates (u, v): v grows upwards"""
    H, W = m.shape[:2]
    y0, x0 = (1 - v, u)
    x, y = (x0 * (W - 1), y0 * (H - 1)) if align else (x0 * W - 0.5, y0 * H - 0.5)
    if padding == "border":
        x, y = min(max(x, 0.0), W - 1.0), min(max(y, 0.0), H - 1.0)
    elif padding == "reflection":
        def refl(a, n):
            lo, hi = (0.0, n - 1.0) if align else (-0.5, n - 0.5)
            if hi == lo:
                return 0.0
            s = hi - lo
            a = abs(a - lo) % (2 * s)
            a = (2 * s - a if a > s else a) + lo
            return min(max(a, 0.0), n - 1.0)
        x, y = refl(x, W), refl(y, H)
    at = lambda i, j: m[i, j].double() if 0 <= i < H and 0 <= j < W else torch.zeros(m.shape[2], dtype=torch.float64)
    if mode == "nearest":
        return at(round(y), round(x))
    i, j = math.floor(y), math.floor(x)
    a, b = y - i, x - j
    return (1 - a) * (1 - b) * at(i, j) + (1 - a) * b * at(i, j + 1) + a * (1 - b) * at(i + 1, j) + a * b * at(i + 1, j + 1)


def tied(m, u, v, align):
    H, W = m.shape[:2]
    x, y = (u * (W - 1), (1 - v) * (H - 1)) if align else (u * W - 0.5, (1 - v) * H - 0.5)
    return min(abs(x - math.floor(x) - 0.5), abs(y - math.floor(y) - 0.5)) < 1e-3


def atlas_cell(at, b):
    """the documented nearest cell of the (R, R, C) atlas of one face; None near a boundary between cells"""
    R = at.shape[0]
    x, y = float(b[0]) * R, float(b[1]) * R
    if min(abs(x - round(x)), abs(y - round(y)), abs(x + y - round(x + y))) < 1e-3:
        return None
    i, j = min(int(x), R - 1), min(int(y), R - 1)
    if x + y - i - j > 1:
        i, j = R - 1 - i, R - 1 - j
    return at[j, i].double()


class Model:
    """what each mesh of the batch shows: vertices, faces, and value(face, bary) -> C values or None if undecided"""

    def __init__(self, V, Fs, val):
        self.V, self.F, self.val = V, Fs, val


def build(c, tag, kind, opts=None, nmax=3, empty=False):
    """-> (meshes, [Model], texture options)"""
    V, Fs = gen.mesh_lists(c, tag, empty=empty, nmax=nmax)
    n = len(V)
    padded = c.boolean("tp" + tag)
    nv, nf = [len(v) for v in V], [len(f) for f in Fs]

    def pad(xs, L):
        o = torch.zeros((n, L) + tuple(xs[0].shape[1:]), dtype=xs[0].dtype)
        for i, x in enumerate(xs):
            o[i, :len(x)] = x
        return o
    C = (opts or {}).get("C") or c.integer("C" + tag, 1, 4)
    opts = dict(opts or {}, C=C)
    models = []
    if kind == "vertex":
        ft = [c.real(f"ft{tag}{i}", (nv[i], C), F) for i in range(n)]
        tex = TexturesVertex(pad(ft, max(nv)) if padded else [x.clone() for x in ft])
        for i in range(n):
            models.append(Model(V[i], Fs[i], lambda f, b, i=i: sum(b[k].double() * ft[i][Fs[i][f, k]].double() for k in range(3))))
    elif kind == "atlas":
        R = opts.setdefault("R", c.integer("R" + tag, 1, 5))
        at = [c.real(f"at{tag}{i}", (nf[i], R, R, C), F) for i in range(n)]
        tex = TexturesAtlas(pad(at, max(nf)) if padded else [x.clone() for x in at])
        for i in range(n):
            models.append(Model(V[i], Fs[i], lambda f, b, i=i: atlas_cell(at[i][f], b)))
    else:
        M = c.integer("M" + tag, 1, 4) if kind == "multi" else None
        H, W = opts.setdefault("size", (c.integer("H" + tag, 1, 5), c.integer("W" + tag, 1, 5)))
        al = opts.setdefault("align_corners", bool(c.boolean("al" + tag)))
        pm = opts.setdefault("padding_mode", ["border", "zeros", "reflection"][c.integer("pm" + tag, 0, 3)])
        sm = opts.setdefault("sampling_mode", ["bilinear", "nearest"][c.integer("sm" + tag, 0, 2)])
        nu = [c.integer(f"nu{tag}{i}", 1, 6) for i in range(n)]
        if padded:
            nu = [nu[0]] * n
        uv = [c.real(f"uv{tag}{i}", (nu[i], 2), F, 0.02, 0.98) for i in range(n)]
        fu = [c.ints(f"fu{tag}{i}", (nf[i], 3), 0, nu[i]) for i in range(n)]
        maps = [c.real(f"mp{tag}{i}", ((M,) if M else ()) + (H, W, C), F) for i in range(n)]
        ids = [c.ints(f"id{tag}{i}", (nf[i],), 0, M) for i in range(n)] if M else None
        o = dict(align_corners=al, padding_mode=pm, sampling_mode=sm)
        if padded:
            tex = TexturesUV(torch.stack(maps), pad(fu, max(nf)), torch.stack(uv), maps_ids=pad(ids, max(nf)) if M else None, **o)
        else:
            tex = TexturesUV([m.clone() for m in maps], [x.clone() for x in fu], [x.clone() for x in uv], maps_ids=[x.clone() for x in ids] if M else None, **o)
        for i in range(n):
            def val(f, b, i=i):
                p = sum(b[k].double() * uv[i][fu[i][f, k]].double() for k in range(3))
                m = maps[i][ids[i][f]] if M else maps[i]
                if sm == "nearest" and tied(m, float(p[0]), float(p[1]), al):
                    return None
                return read_map(m, float(p[0]), float(p[1]), al, pm, sm)
            models.append(Model(V[i], Fs[i], val))
    return Meshes([v.clone() for v in V], [f.clone() for f in Fs], tex), models, opts


def look(c, tag, m, models, kind):
    """sampled fragments and per-face corner values are those of the models"""
    n, S, K = len(models), 2, 2
    if n == 0:
        return
    first = [0]
    for x in models:
        first.append(first[-1] + len(x.F))
    p2f = torch.full((n, S, S, K), -1, dtype=I64)
    bary = torch.zeros((n, S, S, K, 3))
    seed = c.integer("frag" + tag, 0, 1 << 20)
    g = torch.Generator().manual_seed(int(seed))
    for i, x in enumerate(models):
        for s in range(S * S * K):
            k = int(torch.randint(-1, len(x.F), (1,), generator=g)) if len(x.F) else -1
            b = torch.rand(3, generator=g) + 1e-3
            if k >= 0:
                p2f.view(n, -1)[i, s] = first[i] + k
            bary.view(n, -1, 3)[i, s] = b / b.sum() if k >= 0 else -1.0
    if kind == "vertex" and first[-1] == 0 or first[-1] == 0:
        return
    fr = Fragments(pix_to_face=p2f, zbuf=torch.zeros(p2f.shape), bary_coords=bary, dists=torch.zeros(p2f.shape))
    keep = p2f.clone(), bary.clone()
    out = m.sample_textures(fr)
    c.fact(f"{tag} fragments untouched", gen.exact(p2f, keep[0]) and gen.exact(bary, keep[1]))
    c.fact(f"{tag} shape", tuple(out.shape[:4]) == (n, S, S, K))
    ok, back = True, True
    for i, x in enumerate(models):
        for s in range(S * S * K):
            k = int(p2f.view(n, -1)[i, s])
            got = out.reshape(n, S * S * K, -1)[i, s]
            if k < 0:
                back = back and (kind in ("uv", "multi") or bool((got == 0).all()))
                continue
            want = x.val(k - first[i], bary.view(n, -1, 3)[i, s])
            ok = ok and (want is None or gen.close(got, want, 1e-4))
    c.fact(f"{tag} sampled value is the texture's at the hit point", ok)
    c.fact(f"{tag} background is zero", back)
    t = m.textures
    if kind == "vertex":
        fv = t.faces_verts_textures_packed(m.faces_packed())
    else:
        fv = t.faces_verts_textures_packed()
    c.fact(f"{tag} corners shape", tuple(fv.shape[:2]) == (first[-1], 3))
    E = torch.eye(3)
    good = True
    for i, x in enumerate(models):
        for f in range(len(x.F)):
            for k in range(3):
                if kind == "atlas":
                    e = torch.full((3,), 1e-2)
                    e[k] = 1 - 2e-2
                    want = x.val(f, e)
                else:
                    want = x.val(f, E[k])
                good = good and (want is None or gen.close(fv[first[i] + f, k], want, 1e-4))
    c.fact(f"{tag} corner values are the texture's at the vertices", good)


def scene(models):
    o, ff = 0, []
    for x in models:
        ff.append(x.F + o)
        o += len(x.V)

    def val(f, b):
        for x in models:
            if f < len(x.F):
                return x.val(f, b)
            f -= len(x.F)
    return Model(torch.cat([x.V for x in models]), torch.cat(ff), val)


def step(c, tag, m, models, kind, opts, alone):
    """one operation; alone: performed on the texture itself, which then goes on a new mesh"""
    n = len(models)
    ops = ["clone", "detach", "extend", "int", "slice", "list", "mask", "tensor", "batch", "scene", "submeshes"]
    op = ops[c.integer("op" + tag, 0, len(ops))]
    if kind == "multi" and op in ("batch", "scene", "submeshes"):
        op = "extend"
    on = lambda t, ms: Meshes([x.V.clone() for x in ms], [x.F.clone() for x in ms], t)
    t = m.textures
    if op in ("clone", "detach"):
        q = on(getattr(t, op)(), models) if alone else getattr(m, op)()
        return q, models
    if op == "extend":
        ms = [x for x in models for _ in range(2)]
        return (on(t.extend(2), ms) if alone else m.extend(2)), ms
    if op in ("int", "slice", "list", "mask", "tensor"):
        i = c.integer("at" + tag, 0, n)
        if op == "int":
            ix, sel = i, [i]
        elif op == "slice":
            ix, sel = slice(i, None), list(range(i, n))
        elif op == "mask":
            ix = torch.tensor([k != (i + 1) % n or n == 1 for k in range(n)])
            sel = [k for k in range(n) if bool(ix[k])]
        else:
            sel = [(i + k) % n for k in range(c.integer("len" + tag, 1, 4))]
            ix = sel if op == "list" else torch.tensor(sel)
        ms = [models[k] for k in sel]
        return (on(t[ix], ms) if alone else m[ix]), ms
    if op == "batch":
        m2, mo2, _ = build(c, "b" + tag, kind, opts, nmax=2)
        ms = models + mo2
        return (on(t.join_batch([m2.textures]), ms) if alone else join_meshes_as_batch([m, m2])), ms
    if op == "scene":
        s = scene(models)
        return (on(t.join_scene(), [s]) if alone else join_meshes_as_scene(m)), [s]
    idx, ms = [], []
    for x in models:
        k = torch.arange(len(x.F))[c.integer("sub" + tag, 0, 2):]
        if len(k) == 0:
            idx.append([])
            continue
        idx.append([k])
        ms.append(Model(None, x.F[k], lambda f, b, x=x, k=k: x.val(int(k[f]), b)))
    if not ms:
        return m, models
    q = m.submeshes(idx)
    for x, v, f in zip(ms, q.verts_list(), q.faces_list()):
        x.V, x.F = v.clone(), f.clone()
    return q, ms


OPS = ["extend", "__getitem__", "clone", "detach", "join_batch", "join_scene", "submeshes", "sample_textures", "faces_verts_textures_packed"]
NAME = dict(vertex="TexturesVertex", atlas="TexturesAtlas", uv="TexturesUV", multi="TexturesUV")


@contract("C19", "every history of operations keeps each mesh's texture", [T + k + "." + o for k in sorted(set(NAME.values())) for o in OPS],
          [dict(kind=k, n=n) for k in NAME for n in (0, 1, 2)], trials=120, seconds=90,
          bounded="batches of up to 3 meshes of up to 6 vertices and faces, maps up to 4x4, up to 2 operations")
def _(c, kind, n):
    if c.sym:
        return
    c.default(F)
    m, models, opts = build(c, "0", kind)
    alive = [(m, models)]
    for k in range(n):
        if c.boolean(f"look{k}"):
            look(c, f"r{k}", m, models, kind)
        m, models = step(c, str(k), m, models, kind, opts, bool(c.boolean(f"alone{k}")))
        alive.append((m, models))
    for k, (a, mo) in enumerate(alive):
        look(c, f"e{k}", a, mo, kind)


# ---------------------------------------------------------------- proved: any sizes, values and fragments
def offs(P):
    o = [0]
    for p in P:
        o.append(o[-1] + p)
    return o


def fragments(c, N, Ftot, lo=-1):
    """arbitrary fragments whose faces are those of the batch (-1: background)"""
    hi = None if c.sym else 3
    H, W, K = (c.dim(x, hi=hi) for x in ("H", "W", "K"))
    p2f = c.ints("p2f", (N, H, W, K), lo, Ftot)
    bary = c.real("bary", (N, H, W, K, 3), F, 0.0, 0.33)
    c.require_all((N, H, W, K), lambda n, y, x, k: c.and_(lo <= c.g(p2f, n, y, x, k), c.g(p2f, n, y, x, k) < Ftot))
    return Fragments(pix_to_face=p2f, zbuf=None, bary_coords=bary, dists=None), p2f, bary, (N, H, W, K)


@contract("C19", "vertex textures: forms and samples", [T + "TexturesVertex." + x for x in ("__init__", "verts_features_list", "verts_features_padded", "verts_features_packed", "sample_textures", "faces_verts_textures_packed")],
          [dict(n=n, how=h) for n in (1, 2) for h in ("list", "padded")])
def _(c, n, how):
    c.default(F)
    hi = None if c.sym else 4
    C = c.dim("C", hi=hi)
    V = [c.dim("V0", hi=hi)] * n if how == "padded" else [c.dim(f"V{i}", hi=hi) for i in range(n)]
    o = offs(V)
    L = V[0] if n == 1 else c.max(V[0], V[1])
    if how == "padded":
        x = c.real("x", (n, V[0], C), F)
        t, val = TexturesVertex(x), (lambda i, k, d: c.g(x, i, k, d))
    else:
        xs = [c.real(f"x{i}", (V[i], C), F) for i in range(n)]
        t, val = TexturesVertex(list(xs)), (lambda i, k, d: c.g(xs[i], k, d))
    lst, pk, pd = t.verts_features_list(), t.verts_features_packed(), t.verts_features_padded()
    c.shape("packed shape", pk, (o[-1], C))
    c.shape("padded shape", pd, (n, L, C))
    for i in range(n):
        c.shape("list shape", lst[i], (V[i], C))
        c.check(f"list {i}", (V[i], C), lambda k, d: c.eq(c.g(lst[i], k, d), val(i, k, d)))
        c.check(f"packed {i}", (V[i], C), lambda k, d: c.eq(c.g(pk, o[i] + k, d), val(i, k, d)))
        c.check(f"padded {i}", (L, C), lambda k, d: c.eq(c.g(pd, i, k, d), c.ite(k < V[i], lambda: val(i, k, d), lambda: 0.0)))
    Fn = c.dim("F", hi=hi)
    faces = c.ints("faces", (Fn, 3), 0, o[-1])
    c.require_all((Fn, 3), lambda k, j: c.and_(0 <= c.g(faces, k, j), c.g(faces, k, j) < o[-1]))
    fv = t.faces_verts_textures_packed(faces)
    c.shape("corners shape", fv, (Fn, 3, C))
    c.check("corners", (Fn, 3, C), lambda k, j, d: c.eq(c.g(fv, k, j, d), c.g(pk, c.g(faces, k, j), d)))
    fr, p2f, bary, (N, H, W, K) = fragments(c, n, Fn)
    keep = [c.unchanged("fragments untouched", u) for u in (p2f, bary)]
    out = t.sample_textures(fr, faces)
    [k() for k in keep]
    c.shape("samples shape", out, (N, H, W, K, C))
    c.check("sample is the barycentric mean of the corners; background 0", (N, H, W, K, C), lambda i, y, x, k, d: c.eq(c.g(out, i, y, x, k, d), c.ite(
        c.g(p2f, i, y, x, k) < 0, lambda: 0.0, lambda: sum(c.g(bary, i, y, x, k, j) * c.g(pk, c.g(faces, c.g(p2f, i, y, x, k), j), d) for j in range(3)))))


@contract("C19", "vertex and atlas textures: one operation", [T + k + "." + x for k in ("TexturesVertex", "TexturesAtlas") for x in ("extend", "__getitem__", "clone", "detach", "join_batch", "join_scene")],
          [dict(kind=k, op=o, how=h) for k in ("vertex", "atlas") for o in ("extend", "int", "slice", "pick", "clone", "detach", "batch", "scene") for h in ("list", "padded")])
def _(c, kind, op, how):
    c.default(F)
    hi = None if c.sym else 4
    C = c.dim("C", hi=hi)
    tail = (C,) if kind == "vertex" else (2, 2, C)
    V = [c.dim("V0", hi=hi)] * 2 if how == "padded" else [c.dim(f"V{i}", hi=hi) for i in range(2)]
    cls = TexturesVertex if kind == "vertex" else TexturesAtlas
    if how == "padded":
        x = c.real("x", (2, V[0]) + tail, F)
        t, val, src = cls(x), (lambda i, *k: c.g(x, i, *k)), [x]
    else:
        xs = [c.real(f"x{i}", (V[i],) + tail, F) for i in range(2)]
        t, val, src = cls(list(xs)), (lambda i, *k: c.g(xs[i], *k)), xs
    keep = [c.unchanged("given tensors untouched", u) for u in src]
    who, at = [0, 1], None
    if op == "extend":
        q, who = t.extend(2), [0, 0, 1, 1]
    elif op == "int":
        q, who = t[1], [1]
    elif op == "slice":
        q, who = t[1:], [1]
    elif op == "pick":
        q, who = t[[1, 0, 1]], [1, 0, 1]
    elif op == "batch":
        q, who = t.join_batch([t, t[0]]), [0, 1, 0, 1, 0]
    elif op == "scene":
        q, who = t.join_scene(), None
    else:
        q = getattr(t, op)()
    get = lambda u: (u.verts_features_list(), u.verts_features_packed()) if kind == "vertex" else (u.atlas_list(), u.atlas_packed())
    for nm, u, w in (("result", q, who), ("source", t, [0, 1])):
        lst, pk = get(u)
        num = [V[i] for i in w] if w else [V[0] + V[1]]
        o = offs(num)
        c.fact(f"{nm} number", len(lst) == len(num) and u._N == len(num))
        c.shape(f"{nm} packed shape", pk, (o[-1],) + tail)
        for j in range(len(num)):
            v = (lambda *k: val(w[j], *k)) if w else (lambda k, *r: c.ite(k < V[0], lambda: val(0, k, *r), lambda: val(1, k - V[0], *r)))
            c.shape(f"{nm} list shape", lst[j], (num[j],) + tail)
            c.check(f"{nm} list {j}", (num[j],) + tail, lambda *k: c.eq(c.g(lst[j], *k), v(*k)))
            c.check(f"{nm} packed {j}", (num[j],) + tail, lambda k, *r: c.eq(c.g(pk, o[j] + k, *r), v(k, *r)))
    [k() for k in keep]


@contract("C19", "atlas samples", [T + "TexturesAtlas." + x for x in ("__init__", "atlas_packed", "atlas_list", "sample_textures", "faces_verts_textures_packed")], [dict(R=r) for r in (1, 2, 3)])
def _(c, R):
    c.default(F)
    hi = None if c.sym else 4
    C, F0, F1 = c.dim("C", hi=hi), c.dim("F0", hi=hi), c.dim("F1", hi=hi)
    a0, a1 = c.real("a0", (F0, R, R, C), F), c.real("a1", (F1, R, R, C), F)
    t = TexturesAtlas([a0, a1])
    at = lambda f, i, j, d: c.ite(f < F0, lambda: c.g(a0, f, i, j, d), lambda: c.g(a1, f - F0, i, j, d))
    fv = t.faces_verts_textures_packed()
    c.shape("corners shape", fv, (F0 + F1, 3, C))
    for k, (i, j) in enumerate(((0, R - 1), (R - 1, 0), (0, 0))):
        c.check(f"corner {k}", (F0 + F1, C), lambda f, d: c.eq(c.g(fv, f, k, d), at(f, i, j, d)))
    fr, p2f, bary, (N, H, W, K) = fragments(c, 2, F0 + F1)
    c.require_all((N, H, W, K, 3), lambda *i: c.and_(0 <= c.g(bary, *i), c.g(bary, *i) <= 1))
    c.require_all((N, H, W, K), lambda *i: c.g(bary, *i, 0) + c.g(bary, *i, 1) <= 1)
    out = t.sample_textures(fr)
    c.shape("samples shape", out, (N, H, W, K, C))

    def want(i, y, x, k, d):
        f, b0, b1 = c.g(p2f, i, y, x, k), c.g(bary, i, y, x, k, 0), c.g(bary, i, y, x, k, 1)
        p, q = c.min(c.floor(b0 * R), R - 1), c.min(c.floor(b1 * R), R - 1)
        below = (b0 + b1) * R - c.toreal(p) - c.toreal(q) <= 1
        return c.ite(f < 0, lambda: 0.0, lambda: c.ite(below, lambda: at(f, q, p, d), lambda: at(f, R - 1 - q, R - 1 - p, d)))
    c.check("nearest cell", (N, H, W, K, C), lambda *i: c.eq(c.g(out, *i), want(*i)))


@contract("C19", "UV samples", [T + "TexturesUV." + x for x in ("__init__", "_format_maps_padded", "_format_maps_ids", "faces_uvs_list", "verts_uvs_list", "maps_padded", "sample_textures")],
          [dict(align=a, pm=p, multi=False) for a in (True, False) for p in ("border", "zeros")] + [dict(align=True, pm="border", multi=True), dict(align=False, pm="zeros", multi=True)], seconds=100)
def _(c, align, pm, multi):
    c.default(F)
    hi = None if c.sym else 4
    C, F0, F1, V0, V1, HI, WI = (c.dim(x, hi=hi) for x in ("C", "F0", "F1", "V0", "V1", "HI", "WI"))
    M = 2
    maps = c.real("maps", (2, M, HI, WI, C) if multi else (2, HI, WI, C), F)
    uv = [c.real("uv0", (V0, 2), F, 0.0, 1.0), c.real("uv1", (V1, 2), F, 0.0, 1.0)]
    fu = [c.ints("fu0", (F0, 3), 0, V0), c.ints("fu1", (F1, 3), 0, V1)]
    for f, n, v in zip(fu, (F0, F1), (V0, V1)):
        c.require_all((n, 3), lambda k, j: c.and_(0 <= c.g(f, k, j), c.g(f, k, j) < v))
    ids = [c.ints("id0", (F0,), 0, M), c.ints("id1", (F1,), 0, M)] if multi else None
    if multi:
        for d, n in zip(ids, (F0, F1)):
            c.require_all((n,), lambda k: c.and_(0 <= c.g(d, k), c.g(d, k) < M))
    t = TexturesUV(maps, list(fu), list(uv), maps_ids=ids, padding_mode=pm, align_corners=align)
    fr, p2f, bary, (N, H, W, K) = fragments(c, 2, F0 + F1, lo=0)
    # the barycentric interpolation is used through its contract (C16): its result is some tensor q, its arguments are checked
    q = c.real("q", (N, H, W, K, 2), F, 0.0, 1.0)
    seen = []

    def interp(*a):
        seen.append(a)
        return q
    with c.stub(T + "interpolate_face_attributes", interp, both=True):
        out = t.sample_textures(fr)
    a = seen[0]
    c.fact("interpolated once", len(seen) == 1 and len(a) == 3)
    c.same("pixels given to the interpolation", a[0], p2f)
    c.same("barycentric coordinates given to the interpolation", a[1], bary)
    c.shape("corner coordinates shape", a[2], (F0 + F1, 3, 2))
    c.check("corner coordinates of the first mesh", (F0, 3, 2), lambda f, j, e: c.eq(c.g(a[2], f, j, e), c.g(uv[0], c.g(fu[0], f, j), e)))
    c.check("corner coordinates of the second mesh", (F1, 3, 2), lambda f, j, e: c.eq(c.g(a[2], F0 + f, j, e), c.g(uv[1], c.g(fu[1], f, j), e)))
    c.shape("samples shape", out, (N, H, W, K, C))

    def want(i, y, x, k, d):
        u, v = c.g(q, i, y, x, k, 0), 1 - c.g(q, i, y, x, k, 1)
        px, py = (u * (c.toreal(WI) - 1), v * (c.toreal(HI) - 1)) if align else (u * c.toreal(WI) - 0.5, v * c.toreal(HI) - 0.5)
        if pm == "border":
            px, py = c.max(0.0, c.min(px, c.toreal(WI) - 1)), c.max(0.0, c.min(py, c.toreal(HI) - 1))
        fx, fy = c.floor(px), c.floor(py)
        a, b = px - c.toreal(fx), py - c.toreal(fy)
        f = c.g(p2f, i, y, x, k)
        m = c.ite(f < F0, lambda: c.g(ids[0], f), lambda: c.g(ids[1], f - F0)) if multi else None
        tex = lambda yy, xx: c.ite(c.and_(0 <= yy, yy < HI, 0 <= xx, xx < WI), lambda: c.g(maps, i, m, yy, xx, d) if multi else c.g(maps, i, yy, xx, d), lambda: 0.0)
        return (1 - a) * (1 - b) * tex(fy, fx) + a * (1 - b) * tex(fy, fx + 1) + (1 - a) * b * tex(fy + 1, fx) + a * b * tex(fy + 1, fx + 1)
    c.check("bilinear value of the map at the interpolated coordinates", (N, H, W, K, C), lambda *i: c.eq(c.g(out, *i), want(*i)))
