"""C06: mesh batches keep their views coherent, whatever was done to them."""
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.structures  # noqa
from pytorch3d.structures import Meshes
from pytorch3d.structures.meshes import join_meshes_as_batch, join_meshes_as_scene

S = "pytorch3d.structures.meshes."
M = S + "Meshes."
F = torch.float32
I64 = torch.int64


# ---------------------------------------------------------------- proved: any sizes, values and faces; one operation on one or two meshes
def offs(P):
    o = [0]
    for p in P:
        o.append(o[-1] + p)
    return o


def vmax(c, P):
    L = P[0]
    for p in P[1:]:
        L = c.max(L, p)
    return L


def make(c, n, how="list", lo=1):
    """n meshes of arbitrary sizes; returns the batch, sizes and readers of vertices and faces"""
    hi = None if c.sym else 5
    pad = how == "padded"
    nv = [c.dim("V0", lo=lo, hi=hi)] * n if pad else [c.dim(f"V{i}", lo=lo, hi=hi) for i in range(n)]
    nf = [c.dim("F0", lo=lo, hi=hi)] * n if pad else [c.dim(f"F{i}", lo=lo, hi=hi) for i in range(n)]
    if lo == 0:
        c.require(c.and_(*[c.iff(a > 0, b > 0) for a, b in zip(nv, nf)], c.or_(*[a > 0 for a in nv])))
    vs = [c.real(f"v{i}", (nv[i], 3), F) for i in range(n)]
    fs = [c.ints(f"f{i}", (nf[i], 3), 0, nv[i]) for i in range(n)]
    for i in range(n):
        c.require_all((nf[i], 3), lambda k, d: c.and_(0 <= c.g(fs[i], k, d), c.g(fs[i], k, d) < nv[i]))
    if pad:
        sel = lambda xs: (lambda i, k, d: c.g(xs[0], k, d) if n == 1 else c.ite(c.ieq(i, 0), lambda: c.g(xs[0], k, d), lambda: c.g(xs[1], k, d)))
        m = Meshes(c.tensor((n, nv[0], 3), sel(vs), F), c.tensor((n, nf[0], 3), sel(fs), I64))
    else:
        m = Meshes(list(vs), list(fs))
    return m, nv, nf, (lambda i, k, d: c.g(vs[i], k, d)), (lambda i, k, d: c.g(fs[i], k, d)), vs + fs


def same_meshes(c, tag, m, nv, nf, vert, face, loose=False):
    n = len(nv)
    c.fact(f"{tag} number", len(m) == n)
    ov, of, LV, LF = offs(nv), offs(nf), vmax(c, nv), vmax(c, nf)
    for nm, num, o, L, val, sh, pad in (("verts", nv, ov, LV, vert, lambda i: 0, 0.0), ("faces", nf, of, LF, face, lambda i: ov[i], -1)):
        lst, pk, pd = (getattr(m, f"{nm}_{v}")() for v in ("list", "packed", "padded"))
        eq = c.eq if nm == "verts" else c.ieq
        c.fact(f"{tag} {nm} list length", len(lst) == n)
        c.shape(f"{tag} {nm} packed shape", pk, (o[-1], 3))
        c.shape(f"{tag} {nm} padded shape", pd, (n, L, 3))
        cnt, first, own = getattr(m, f"num_{nm}_per_mesh")(), getattr(m, f"mesh_to_{nm}_packed_first_idx")(), getattr(m, f"{nm}_packed_to_mesh_idx")()
        for i in range(n):
            c.shape(f"{tag} {nm} list shape", lst[i], (num[i], 3))
            c.check(f"{tag} {nm} list {i}", (num[i], 3), lambda k, d: eq(c.g(lst[i], k, d), val(i, k, d)))
            c.check(f"{tag} {nm} packed {i}", (num[i], 3), lambda k, d: eq(c.g(pk, o[i] + k, d), val(i, k, d) + sh(i)))
            c.check(f"{tag} {nm} padded {i}", (num[i] if loose and nm == "verts" else L, 3), lambda k, d: eq(c.g(pd, i, k, d), c.ite(k < num[i], lambda: val(i, k, d), lambda: pad)))
            c.check(f"{tag} {nm} count {i}", (), lambda: c.ieq(c.g(cnt, i), num[i]))
            c.check(f"{tag} {nm} first {i}", (), lambda: c.ieq(c.g(first, i), o[i]))
            c.check(f"{tag} {nm} owner {i}", (num[i],), lambda k: c.ieq(c.g(own, o[i] + k), i))
    pp = m.verts_padded_to_packed_idx()
    for i in range(n):
        c.check(f"{tag} padded to packed {i}", (nv[i],), lambda k: c.ieq(c.g(pp, ov[i] + k), i * LV + k))


VIEWS = ["__init__", "verts_list", "faces_list", "verts_packed", "faces_packed", "verts_padded", "faces_padded", "num_verts_per_mesh", "num_faces_per_mesh", "verts_packed_to_mesh_idx", "faces_packed_to_mesh_idx",
         "mesh_to_verts_packed_first_idx", "mesh_to_faces_packed_first_idx", "_compute_packed", "_compute_padded", "verts_padded_to_packed_idx"]


@contract("C06", "views of new meshes", [M + x for x in VIEWS], [dict(n=n, how=h) for n in (1, 2) for h in ("list", "padded")] + [dict(n=3, how="list")])
@contract("C06", "views of new meshes, some empty", [M + x for x in VIEWS], [dict(n=2, how="list", lo=0)], bounded="2 meshes of up to 4 vertices", conc_only=True)
def _(c, n, how, lo=1):
    c.default(F)
    m, nv, nf, vert, face, _ = make(c, n, how, lo)
    same_meshes(c, "", m, nv, nf, vert, face)


SOPS = ["clone", "detach", "extend", "pick", "slice", "int", "offset", "offset1", "offset_", "scale", "scalev", "scale_", "update", "batch", "scene", "split"]


OPF = [M + x for x in ("clone", "detach", "extend", "__getitem__", "offset_verts", "offset_verts_", "scale_verts", "scale_verts_", "update_padded", "split")] + [S + "join_meshes_as_batch", S + "join_meshes_as_scene"]


def cases(keep):
    return [dict(op=o, first=r, how="list") for o in SOPS for r in ("", "packed", "padded") if keep(o, "list")] + [dict(op=o, first="packed", how="padded") for o in SOPS if keep(o, "padded")]


HARD = lambda o, h: o == "scene" or (o == "update" and h == "list")      # which faces are padding is beyond the verifier here


@contract("C06", "one operation keeps all views coherent", OPF, cases(lambda o, h: not HARD(o, h)), seconds=120)
@contract("C06", "scene and replaced vertices keep all views coherent", OPF, cases(HARD), bounded="2 meshes of up to 4 vertices", conc_only=True)
def _(c, op, first, how):
    c.default(F)
    n = 2
    m, nv, nf, vert, face, given = make(c, n, how)
    ov, L = offs(nv), vmax(c, nv)
    if first == "packed":
        m.verts_packed(), m.verts_padded_to_packed_idx()
    if first == "padded":
        m.verts_padded()
    keep = [c.unchanged("given tensors untouched", t) for t in given]
    q, qv, qf, v2, f2 = m, nv, nf, vert, face
    at = lambda j: ((lambda i, k, d: vert(j(i), k, d)), (lambda i, k, d: face(j(i), k, d)))
    if op in ("clone", "detach"):
        q = getattr(m, op)()
    elif op == "extend":
        q, qv, qf, (v2, f2) = m.extend(2), [nv[0], nv[0], nv[1], nv[1]], [nf[0], nf[0], nf[1], nf[1]], at(lambda i: i // 2)
    elif op == "pick":
        q, qv, qf, (v2, f2) = m[[1, 0]], nv[::-1], nf[::-1], at(lambda i: 1 - i)
    elif op in ("slice", "int"):
        q, qv, qf, (v2, f2) = m[1:] if op == "slice" else m[1], nv[1:], nf[1:], at(lambda i: 1)
    elif op == "split":
        q, r = m.split([1, 1])
        same_meshes(c, "rest", r, nv[1:], nf[1:], *at(lambda i: 1))
        qv, qf = nv[:1], nf[:1]
    elif op in ("offset", "offset_"):
        t = c.real("t", (ov[-1], 3), F)
        q, v2 = (m.offset_verts if op == "offset" else m.offset_verts_)(t), (lambda i, k, d: vert(i, k, d) + c.g(t, ov[i] + k, d))
    elif op == "offset1":
        t = c.real("t", (3,), F)
        q, v2 = m.offset_verts(t), (lambda i, k, d: vert(i, k, d) + c.g(t, d))
    elif op == "scale":
        q, v2 = m.scale_verts(2.5), (lambda i, k, d: vert(i, k, d) * 2.5)
    elif op in ("scalev", "scale_"):
        t = c.real("t", (n,), F)
        q, v2 = (m.scale_verts if op == "scalev" else m.scale_verts_)(t), (lambda i, k, d: vert(i, k, d) * c.g(t, i))
    elif op == "update":
        x = c.real("x", (n, L, 3), F)
        q, v2 = m.update_padded(x), (lambda i, k, d: c.g(x, i, k, d))
    elif op == "batch":
        q, qv, qf, (v2, f2) = join_meshes_as_batch([m, m[0]]), nv + nv[:1], nf + nf[:1], at(lambda i: i % 2)
    elif op == "scene":
        of = offs(nf)
        q, qv, qf = join_meshes_as_scene(m), [ov[-1]], [of[-1]]
        v2 = lambda i, k, d: c.ite(k < nv[0], lambda: vert(0, k, d), lambda: vert(1, k - nv[0], d))
        f2 = lambda i, k, d: c.ite(k < nf[0], lambda: face(0, k, d), lambda: face(1, k - nf[0], d) + nv[0])
    same_meshes(c, "result", q, qv, qf, v2, f2, op == "update")
    if q is not m:
        same_meshes(c, "source", m, nv, nf, vert, face)
    [k() for k in keep]


@contract("C06", "bounding boxes", [M + "get_bounding_boxes"], [dict(n=n) for n in (1, 2)])
def _(c, n):
    c.default(F)
    m, nv, nf, vert, face, _ = make(c, n)
    b = m.get_bounding_boxes()
    c.shape("shape", b, (n, 3, 2))
    for i in range(n):
        c.check(f"mesh {i}", (3,), lambda d: c.and_(c.eq(c.g(b, i, d, 0), c.minover(nv[i], lambda k: vert(i, k, d))), c.eq(c.g(b, i, d, 1), c.maxover(nv[i], lambda k: vert(i, k, d)))))


# ---------------------------------------------------------------- bounded: histories, empty meshes, edges, normals
def views(c, m, V, Fs):
    """every view of m describes the meshes (V[i], Fs[i]); a mesh has faces or is empty"""
    N = len(V)
    nv, nf = [len(v) for v in V], [len(f) for f in Fs]
    allempty = sum(nv) == 0
    mv, mf = max(nv, default=0), max(nf, default=0)
    fv = [sum(nv[:i]) for i in range(N)]
    ff = [sum(nf[:i]) for i in range(N)]
    z3, zi = torch.zeros((0, 3)), torch.zeros((0, 3), dtype=I64)
    pv = torch.cat(V) if N else z3
    pf = torch.cat([f + o for f, o in zip(Fs, fv)]) if N else zi
    ew = sorted({tuple(sorted((f[i], f[j]))) for f in pf.tolist() for i, j in ((0, 1), (1, 2), (2, 0))})
    owner = [i for i in range(N) for _ in range(nv[i])]
    ne = [sum(1 for e in ew if owner[e[0]] == i) for i in range(N)]
    lst = lambda t: t.tolist()
    cnt = (lambda x: []) if allempty else (lambda x: x)

    def padded(got, want, pad, dt):
        if got.shape[0] != N or got.shape[2] != 3 or got.shape[1] < max((len(w) for w in want), default=0):
            return False
        return all(gen.exact(g[:len(w)], w) and (pad is None or bool((g[len(w):] == pad).all())) for g, w in zip(got, want))

    def normals():
        o = torch.zeros((len(pv), 3), dtype=torch.float64)
        for a, b, d in pf.tolist():
            k = torch.linalg.cross((pv[d] - pv[b]).double(), (pv[a] - pv[b]).double())
            for x in (a, b, d):
                o[x] += k
        return o

    def vn():
        o, g = normals(), m.verts_normals_packed().double()
        if tuple(g.shape) != tuple(o.shape):
            return False
        # a sum that cancels, or whose length is near the floor, has no stable direction
        return all(float(a.norm()) < 1e-3 or gen.close(b, a / a.norm(), 2e-3) for a, b in zip(o, g))

    def split_list(got, packed, n):
        got = list(got)
        return len(got) == N and all(gen.exact(g, packed[sum(n[:i]):sum(n[:i]) + n[i]]) for i, g in enumerate(got))
    checks = {
        "length": lambda: len(m) == N,
        "verts_list": lambda: len(m.verts_list()) == N and all(gen.exact(a, b) for a, b in zip(m.verts_list(), V)),
        "faces_list": lambda: len(m.faces_list()) == N and all(gen.exact(a, b) for a, b in zip(m.faces_list(), Fs)),
        "verts_packed": lambda: gen.exact(m.verts_packed(), pv),
        "faces_packed": lambda: gen.exact(m.faces_packed(), pf),
        "verts_padded": lambda: padded(m.verts_padded(), V, None if getattr(m, "vt_loose", False) else 0, F),
        "faces_padded": lambda: padded(m.faces_padded(), Fs, -1, I64),
        "num_verts": lambda: lst(m.num_verts_per_mesh()) == cnt(nv),
        "num_faces": lambda: lst(m.num_faces_per_mesh()) == cnt(nf),
        "verts_to_mesh": lambda: lst(m.verts_packed_to_mesh_idx()) == owner,
        "faces_to_mesh": lambda: lst(m.faces_packed_to_mesh_idx()) == [i for i in range(N) for _ in range(nf[i])],
        "first_vert": lambda: lst(m.mesh_to_verts_packed_first_idx()) == cnt(fv),
        "first_face": lambda: lst(m.mesh_to_faces_packed_first_idx()) == cnt(ff),
        "padded_to_packed": lambda: gen.exact(m.verts_padded().reshape(-1, 3)[m.verts_padded_to_packed_idx()], pv),
        "edges": lambda: [tuple(e) for e in lst(m.edges_packed())] == ew,
        "edges_to_mesh": lambda: lst(m.edges_packed_to_mesh_idx()) == [owner[e[0]] for e in ew],
        "faces_to_edges": lambda: [[ew[k] for k in r] for r in lst(m.faces_packed_to_edges_packed())] == [[tuple(sorted(p)) for p in ((b, d), (d, a), (a, b))] for a, b, d in pf.tolist()],
        "num_edges": lambda: lst(m.num_edges_per_mesh()) == cnt(ne),
        "first_edge": lambda: lst(m.mesh_to_edges_packed_first_idx()) == cnt([sum(ne[:i]) for i in range(N)]),
        "verts_normals": vn,
        "verts_normals_list": lambda: split_list(m.verts_normals_list(), m.verts_normals_packed(), nv),
        "faces_normals": lambda: m.faces_normals_packed().shape[0] == len(pf) and split_list(m.faces_normals_list(), m.faces_normals_packed(), nf),
        "faces_areas": lambda: gen.close(m.faces_areas_packed(), 0.5 * torch.linalg.cross((pv[pf[:, 1]] - pv[pf[:, 0]]).double(), (pv[pf[:, 2]] - pv[pf[:, 0]]).double()).norm(dim=1) if len(pf) else torch.zeros(0), 1e-3),
        "verts_normals_padded": lambda: padded(m.verts_normals_padded(), list(m.verts_normals_list()), 0, F),
        "isempty": lambda: bool(m.isempty()) == allempty,
        "valid": lambda: lst(m.valid) == [k > 0 for k in nv],
        "get_mesh": lambda: all(gen.exact(m.get_mesh_verts_faces(i)[0], V[i]) and gen.exact(m.get_mesh_verts_faces(i)[1], Fs[i]) for i in range(N)),
    }
    if N and min(nv) > 0:
        checks["boxes"] = lambda: gen.exact(m.get_bounding_boxes(), torch.stack([torch.stack([v.min(0).values, v.max(0).values], -1) for v in V]))
    return checks


def look(c, tag, m, V, Fs, label, some=None):
    """check the views in an arbitrary order; some limits how many are read"""
    ks = views(c, m, V, Fs)
    names = sorted(ks)
    r = torch.Generator().manual_seed(int(c.integer("order" + tag, 0, 10 ** 6)))
    names = [names[i] for i in torch.randperm(len(names), generator=r).tolist()]
    for k in names[:some]:
        c.fact(f"{label}: {k}", ks[k]())


def build(c, tag, padded_ok=True):
    """a batch and its model"""
    how = c.integer("how" + tag, 0, 4)
    empty = c.integer("allempty" + tag, 0, 8) == 0
    if empty:
        n = c.integer("ne" + tag, 0, 4)
        V, Fs = [torch.zeros((0, 3))] * n, [torch.zeros((0, 3), dtype=I64)] * n
        if how == 0 and padded_ok and n:
            return Meshes(torch.zeros((n, 0, 3)), torch.zeros((n, 0, 3), dtype=I64)), V, Fs
        return Meshes(list(V), list(Fs)), V, Fs
    V, Fs = gen.mesh_lists(c, tag, empty=how != 0, equal=how == 1)
    if how == 0 and padded_ok:                    # padded construction: V vertices each, faces padded by -1
        n = len(V)
        mv = max(len(v) for v in V)
        V = [torch.cat([v, torch.full((mv - len(v), 3), 0.5)]) for v in V]
        k = max(len(f) for f in Fs) + c.integer("more" + tag, 0, 2)
        fp = torch.full((n, k, 3), -1, dtype=I64)
        for i, f in enumerate(Fs):
            fp[i, :len(f)] = f
        return Meshes(torch.stack(V), fp), [v.clone() for v in V], Fs
    return Meshes([v.clone() for v in V], [f.clone() for f in Fs]), V, Fs


def pick(c, tag, N):
    """an index, and the list of positions it stands for"""
    kind = c.integer("ik" + tag, 0, 6)
    if N == 0:
        return slice(0, 3), []
    if kind == 0:
        i = c.integer("i" + tag, -N, N)
        return i, [i % N]
    if kind == 1:
        a, b = c.integer("a" + tag, 0, N + 1), c.integer("b" + tag, 0, N + 2)
        return slice(a, b), list(range(N))[a:b]
    if kind == 2:
        return slice(None, None, 2), list(range(N))[::2]
    n = c.integer("n" + tag, 0, 4)
    L = [c.integer(f"i{tag}{k}", 0, N) for k in range(n)]
    if kind == 3:
        return L, L
    if kind == 4:
        return torch.tensor(L, dtype=I64), L
    b = [c.integer(f"b{tag}{k}", 0, 2) for k in range(N)]
    return torch.tensor(b, dtype=torch.bool), [k for k in range(N) if b[k]]


def step(c, t, m, V, Fs):
    """one operation; returns (result, its model, in place?)"""
    N = len(V)
    nv = [len(v) for v in V]
    cl = lambda L: [x.clone() for x in L]
    op = c.integer("op" + t, 0, 14)
    if op == 0:
        return [(m.clone(), cl(V), cl(Fs))], False
    if op == 1:
        return [(m.detach(), V, Fs)], False
    if op == 2:
        k = c.integer("k" + t, 1, 4)
        rep = lambda L: [x for x in L for _ in range(k)]
        return [(m.extend(k), rep(V), rep(Fs))], False
    if op in (3, 4):
        i, L = pick(c, t, N)
        return [(m[i], [V[k] for k in L], [Fs[k] for k in L])], False
    if op in (5, 6):
        one = c.integer("one" + t, 0, 2) == 1
        tot = sum(nv)
        d = c.real("d" + t, (3,) if one or not tot else (tot, 3), F)
        if not one and not tot:
            d = torch.zeros((0, 3))
        q = m.offset_verts(d) if op == 5 else m.offset_verts_(d)
        dd = d.expand(tot, 3) if d.dim() == 1 else d
        W = [v + x for v, x in zip(V, dd.split(nv))] if N else []
        return [(q, W, Fs)], op == 6
    if op in (7, 8):
        if c.integer("one" + t, 0, 2) == 1 or N == 0:
            s = float(c.integer("s" + t, 1, 5)) * 0.5
            W = [v * s for v in V]
        else:
            s = c.real("sv" + t, (N,), F, 0.25, 2.0)
            W = [v * s[i] for i, v in enumerate(V)]
        return [((m.scale_verts if op == 7 else m.scale_verts_)(s), W, Fs)], op == 8
    if op in (9, 10):
        mv = max(nv, default=0)
        x = c.real("x" + t, (N, mv, 3), F) if N and mv else torch.zeros((N, mv, 3))
        q = m.update_padded(x)
        q.vt_loose = True
        return [(q, [x[i, :nv[i]].clone() for i in range(N)], Fs)], False
    if op == 11:
        cut = c.integer("cut" + t, 0, N + 1)
        a, b = m.split([cut, N - cut])
        return [(a, V[:cut], Fs[:cut]), (b, V[cut:], Fs[cut:])], False
    if op == 12:
        o, V2, F2 = build(c, "j" + t)
        return [(join_meshes_as_batch([m, o]), V + V2, Fs + F2), (o, V2, F2)], False
    off = [sum(nv[:i]) for i in range(N)]
    if N == 1:
        return [(join_meshes_as_scene(m), V, Fs)], False
    return [(join_meshes_as_scene(m), [torch.cat(V) if N else torch.zeros((0, 3))],
             [torch.cat([f + o for f, o in zip(Fs, off)]) if N else torch.zeros((0, 3), dtype=I64)])], False


def mark(m, out):
    """update_padded may leave anything in the padding, and copies copy it"""
    q = out[0][0]
    if getattr(q, "vt_loose", None) is None:
        q.vt_loose = getattr(m, "vt_loose", False)


OPS = ["__init__", "verts_list", "faces_list", "_compute_packed", "_compute_padded", "_compute_edges_packed", "_compute_vertex_normals",
       "_compute_face_areas_normals", "verts_padded_to_packed_idx", "__getitem__", "clone", "detach", "extend", "split", "offset_verts", "offset_verts_",
       "scale_verts", "scale_verts_", "update_padded", "get_bounding_boxes", "get_mesh_verts_faces"]


@contract("C06", "all views agree after any history", [M + o for o in OPS] + [S + "join_meshes_as_batch", S + "join_meshes_as_scene"],
          [dict(n=k) for k in (0, 1, 2, 3)] + [dict(n=2, again=i) for i in range(3)], trials=400, seconds=120,
          bounded="batches of up to 3 meshes of up to 6 vertices and 6 faces (doubled, joined or repeated by up to 3 operations)")
def _(c, n, again=0):
    if c.sym:
        return
    c.default(F)
    m, V, Fs = build(c, "0")
    alive = [(m, V, Fs)]
    for k in range(n):
        # read some of the views first: later operations must keep the cached ones right
        look(c, f"r{k}", m, V, Fs, "before", some=c.integer(f"some{k}", 0, 12))
        out, inplace = step(c, str(k), m, V, Fs)
        mark(m, out)
        if inplace:
            alive = [a for a in alive if a[0] is not m]
        alive += out
        m, V, Fs = out[0]
    for j, (a, v, f) in enumerate(alive):
        look(c, f"e{j}", a, v, f, "after")


@contract("C06", "submeshes keep the chosen faces", [M + "submeshes"], trials=60, bounded="batches of up to 3 meshes, up to 2 submeshes each")
def _(c):
    if c.sym:
        return
    c.default(F)
    m, V, Fs = build(c, "0")
    idx, want = [], []
    for i, f in enumerate(Fs):
        row = []
        for k in range(c.integer(f"s{i}", 0, 3)):
            n = c.integer(f"n{i}{k}", 0, 4) if len(f) else 0
            ids = c.ints(f"id{i}{k}", (n,), 0, len(f)) if n else torch.zeros(0, dtype=I64)
            row.append(ids)
            want.append((i, ids))
        idx.append(row)
    s = m.submeshes(idx)
    c.fact("one submesh per set of faces", len(s) == len(want))
    vs, fs = s.verts_list(), s.faces_list()
    for k, (i, ids) in enumerate(want):
        used = sorted(set(Fs[i][ids].reshape(-1).tolist()))
        c.fact("exactly the used vertices", gen.exact(vs[k], V[i][used]))
        c.fact("the same triangles", fs[k].shape[0] == len(ids) and gen.exact(vs[k][fs[k]], V[i][Fs[i][ids]]))
    look(c, "o", m, V, Fs, "source")
    if all(len(ids) for _, ids in want):
        look(c, "s", s, [v.clone() for v in vs], [f.clone() for f in fs], "submeshes")


@contract("C06", "given normals are kept", [M + "_set_verts_normals", M + "verts_normals_packed", M + "verts_normals_padded"], [dict(form=f) for f in ("list", "padded")], trials=30,
          bounded="batches of up to 3 meshes of up to 6 vertices")
def _(c, form):
    if c.sym:
        return
    c.default(F)
    V, Fs = gen.mesh_lists(c, "", empty=False)
    nv = [len(v) for v in V]
    nm = [c.real(f"nm{i}", (k, 3), F) for i, k in enumerate(nv)]
    pad = torch.zeros((len(V), max(nv), 3))
    for i, x in enumerate(nm):
        pad[i, :nv[i]] = x
    m = Meshes(V, Fs, verts_normals=[x.clone() for x in nm] if form == "list" else pad)
    for q in (m, m.clone(), m.detach(), m.offset_verts(torch.ones(3))):
        c.fact("known", q.has_verts_normals())
        c.fact("packed", gen.exact(q.verts_normals_packed(), torch.cat(nm)))
        c.fact("list", all(gen.exact(a, b) for a, b in zip(q.verts_normals_list(), nm)))
        c.fact("padded", gen.exact(q.verts_normals_padded(), pad))
    c.raises("too few normals", (ValueError,), lambda: Meshes(V, Fs, verts_normals=nm[:-1]))
    c.raises("normals of another count", (ValueError,), lambda: Meshes(V, Fs, verts_normals=[x[:-1] for x in nm]))


@contract("C06", "malformed batches are rejected", [M + "__init__", M + "__getitem__", M + "extend", M + "split", M + "update_padded", S + "join_meshes_as_batch"], trials=10, bounded="a fixed list of malformed arguments")
def _(c):
    if c.sym:
        return
    c.default(F)
    V, Fs = gen.mesh_lists(c, "", empty=False)
    m = Meshes(V, Fs)
    c.raises("a list and a tensor", (ValueError,), lambda: Meshes(V, torch.zeros((1, 2, 3))))
    c.raises("not three coordinates", (ValueError,), lambda: Meshes(torch.zeros((1, 4, 2)), torch.zeros((1, 2, 3))))
    c.raises("padding before faces", (ValueError,), lambda: Meshes(torch.zeros((1, 4, 3)), torch.tensor([[[-1, -1, -1], [0, 1, 2]]])))
    c.raises("a float index", (IndexError,), lambda: m[torch.tensor([0.0])])
    c.raises("an index of another type", (IndexError,), lambda: m["0"])
    c.raises("no copies", (ValueError,), lambda: m.extend(0))
    c.raises("half a copy", (ValueError,), lambda: m.extend(1.5))
    c.raises("fractional split", (ValueError,), lambda: m.split([0.5]))
    c.raises("another number of vertices", (ValueError,), lambda: m.update_padded(torch.zeros((len(V), max(map(len, V)) + 1, 3))))
    c.raises("another batch size", (ValueError,), lambda: m.update_padded(torch.zeros((len(V) + 1, max(map(len, V)), 3))))
    c.raises("offsets of another shape", (ValueError,), lambda: m.offset_verts(torch.zeros((sum(map(len, V)) + 1, 3))))
    c.raises("one mesh instead of a list", (ValueError,), lambda: join_meshes_as_batch(m))
