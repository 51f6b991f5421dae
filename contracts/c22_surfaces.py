"""C22: cubified voxels and marching cubes bound the occupied region."""
import itertools
import os
import re
import importlib
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa
import pytorch3d

CU = importlib.import_module("pytorch3d.ops.cubify")
MC = importlib.import_module("pytorch3d.ops.marching_cubes")
TB = importlib.import_module("pytorch3d.ops.marching_cubes_data")
O = "pytorch3d.ops."
F = torch.float32
NATIVE = True


# ---------------------------------------------------------------- cubify
def quads(m, grid, align):
    """triangles of a mesh as grid coordinates (doubled, so that they are integers)"""
    H, W, D = grid
    mg = 0.0 if align == "corner" else 1.0
    v = m.clone().double()
    for k, n in enumerate((W, H, D)):
        v[:, k] = (v[:, k] + 1) * (n - mg) / 2 + (0.5 if align == "center" else 0.0)
    return v


@contract("C22", "cubify gives the boundary of the occupied cells", [O + "cubify.cubify", O + "cubify.ravel_index", O + "cubify.unravel_index"],
          [dict(align=a, feats=False) for a in ("topleft", "corner", "center")] + [dict(align="center", feats=True)], trials=120, seconds=90, bounded="up to 3 grids of up to 4x4x4 cells")
def _(c, align, feats):
    if c.sym:
        return
    c.default(F)
    N = c.integer("N", 1, 4)
    lo = 1 if align == "corner" else 2
    D, H, W = (c.integer(x, lo, 5) for x in "DHW")
    x = c.real("x", (N, D, H, W), F, 0.0, 1.0)
    t = [0.5, 0.2, 0.9, 1.5][c.integer("t", 0, 4)]
    c.require_all((N, D, H, W), lambda *i: abs(float(x[i]) - t) > 1e-4)
    ft = c.real("ft", (N, 2, D, H, W), F) if feats else None
    keep = [c.unchanged("inputs untouched", y) for y in (x, ft) if y is not None]
    m = CU.cubify(x, t, feats=ft, align=align)
    [k() for k in keep]
    c.fact("one mesh per grid", len(m) == N)
    colours = m.textures.atlas_list() if feats and m.textures is not None else None
    for n in range(N):
        occ = {(z, y, w) for z in range(D) for y in range(H) for w in range(W) if float(x[n, z, y, w]) > t}
        v, f = m.verts_list()[n], m.faces_list()[n]
        if not occ:
            c.fact("nothing occupied: no faces", f.numel() == 0 and v.numel() == 0)
            continue
        g = quads(v, (H, W, D), align)
        r = g.round()
        c.fact("vertices at cell corners", gen.close(g, r, 1e-4) and bool((r >= 0).all()) and bool((r <= torch.tensor([W, H, D])).all()))
        pts = [tuple(int(a) for a in p) for p in r.tolist()]
        c.fact("no vertex twice, none unused", len(set(pts)) == len(pts) and set(f.reshape(-1).tolist()) == set(range(len(pts))))
        got = {}
        for k, tri in enumerate(f.tolist()):
            p = [torch.tensor(pts[a], dtype=torch.float64) for a in tri]
            nr = torch.linalg.cross(p[1] - p[0], p[2] - p[0])
            ax = [a for a in range(3) if abs(float(nr[a])) > 1e-9]
            c.fact("half of a unit square", len(ax) == 1 and abs(float(nr[ax[0]])) == 1.0)
            base = tuple(min(int(q[a]) for q in p) for a in range(3))
            got.setdefault((ax[0], base, float(nr[ax[0]]) > 0), []).append((k, {pts[a] for a in tri}))
        want = {}
        for z, y, w in occ:
            cell = (w, y, z)
            for a in range(3):
                for up in (True, False):
                    nb = list(cell)
                    nb[a] += 1 if up else -1
                    if (nb[2], nb[1], nb[0]) in occ:
                        continue
                    base = list(cell)
                    base[a] += 1 if up else 0
                    want[(a, tuple(base), up)] = (z, y, w)
        c.fact("exactly the faces between occupied and empty cells, facing out", set(got) == set(want) and all(len(g) == 2 for g in got.values()))
        c.fact("the two triangles of a face cover it", all(len(a[1] | b[1]) == 4 and len(a[1] & b[1]) == 2 for a, b in got.values()))
        if colours is not None:
            c.fact("colour of the occupied cell", all(gen.exact(colours[n][k, 0, 0], ft[(n, slice(None)) + want[q]]) for q, g in got.items() for k, _ in g))


@contract("C22", "cubify rejects unknown alignments and accepts no grids", [O + "cubify.cubify"], trials=1, bounded="fixed arguments")
def _(c):
    if c.sym:
        return
    c.raises("alignment", (ValueError,), lambda: CU.cubify(torch.zeros(1, 2, 2, 2), 0.5, align="middle"))
    c.fact("no grids", len(CU.cubify(torch.zeros(0, 2, 2, 2), 0.5)) == 0)


# ---------------------------------------------------------------- marching cubes
def cpp_table(name):
    src = open(os.path.join(os.path.dirname(pytorch3d.__file__), "csrc", "marching_cubes", "tables.h")).read()
    src = re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)
    i = src.index("{", src.index(name))
    d, j = 0, i
    while True:
        d += {"{": 1, "}": -1}.get(src[j], 0)
        j += 1
        if d == 0:
            break
    ns = {"X": 255}
    return eval(src[i:j].replace("{", "[").replace("}", "]").replace("X", "255"), ns)


def tables(which):
    if which == "python":
        return [list(r) for r in TB.FACE_TABLE], TB.EDGE_TO_VERTICES, TB.INDEX
    ft = [r[:r.index(255)] if 255 in r else r for r in cpp_table("_FACE_TABLE")]
    return ft, cpp_table("_EDGE_TO_VERTICES"), cpp_table("_INDEX_TABLE")


@contract("C22", "the case table closes the surface in every pair of neighbouring cells", [O + "marching_cubes_data.FACE_TABLE"], [dict(which=w) for w in ("python", "cpp")], trials=1, seconds=120,
          bounded="all 256 cases and all 3 x 4096 pairs of neighbouring cells")
def _(c, which):
    if c.sym:
        return
    ft, ev, ix = tables(which)
    c.fact("256 cases of triangles", len(ft) == 256 and all(len(r) % 3 == 0 for r in ft) and len(ev) == 12)
    c.fact("edges join corners that differ in one coordinate", len({tuple(e) for e in ev}) == 12 and all(bin(a ^ b).count("1") == 1 for a, b in ev))
    open_ = {}
    for case in range(256):
        low = {ix[i] for i in range(8) if case >> i & 1}
        r = ft[case]
        c.fact("vertices on exactly the edges that cross", set(r) == {e for e in range(12) if (ev[e][0] in low) != (ev[e][1] in low)})
        cnt = {}
        for k in range(0, len(r), 3):
            t = r[k:k + 3]
            c.fact("proper triangles", len(set(t)) == 3)
            for a, b in ((0, 1), (1, 2), (2, 0)):
                cnt[(t[a], t[b])] = cnt.get((t[a], t[b]), 0) + 1
        c.fact("every side used once in each direction", all(v == 1 for v in cnt.values()))
        left = [e for e in cnt if (e[1], e[0]) not in cnt]
        for ax in range(3):
            for side in (0, 1):
                on = lambda e: all((v >> ax & 1) == side for v in ev[e])
                key = lambda e: frozenset(v & ~(1 << ax) for v in ev[e])
                open_[(case, ax, side)] = {(key(a), key(b)) for a, b in left if on(a) and on(b)}
        c.fact("unmatched sides lie on faces of the cell", all(any(all((v >> ax & 1) == s for e in side for v in ev[e]) for ax in range(3) for s in (0, 1)) for side in left))
    lows = [{ix[i] for i in range(8) if case >> i & 1} for case in range(256)]
    face = lambda case, ax, s: frozenset(v & ~(1 << ax) for v in lows[case] if (v >> ax & 1) == s)
    bad = []
    for ax in range(3):
        by = {}
        for b in range(256):
            by.setdefault(face(b, ax, 0), []).append(b)
        for a in range(256):
            for b in by[face(a, ax, 1)]:
                if open_[(a, ax, 1)] != {(q, p) for p, q in open_[(b, ax, 0)]}:
                    bad.append((ax, a, b))
    c.fact("neighbouring cells agree on their common face", not bad)


@contract("C22", "both case tables are the same", [O + "marching_cubes_data.FACE_TABLE"], trials=1, bounded="all entries")
def _(c):
    if c.sym:
        return
    a, b = tables("python"), tables("cpp")
    c.fact("same", [list(map(list, x)) if isinstance(x[0], (list, tuple)) else list(x) for x in a] == [list(map(list, x)) if isinstance(x[0], (list, tuple)) else list(x) for x in b])


def volume(c, kind):
    N = c.integer("N", 1, 3)
    D, H, W = (c.integer(x, 2, 5) for x in "DHW")
    if kind == "touching":
        D, H, W = D + 1, H + 1, W + 1
        k = c.ints("k", (N, D, H, W), 0, 5)
        x = k.float() * 0.25                   # many values equal to the level
        x[:, 0], x[:, -1], x[:, :, 0], x[:, :, -1], x[:, :, :, 0], x[:, :, :, -1] = 0, 0, 0, 0, 0, 0
        return x, 0.5
    x = c.real("x", (N, D, H, W), F, -1.0, 1.0)
    t = [0.0, 0.3, -0.7, None][c.integer("t", 0, 4)]
    if kind == "closed":
        x[:, 0], x[:, -1], x[:, :, 0], x[:, :, -1], x[:, :, :, 0], x[:, :, :, -1] = -1, -1, -1, -1, -1, -1
    return x, t


@contract("C22", "marching cubes crosses every edge that straddles the level", [O + "marching_cubes.marching_cubes", O + "marching_cubes.marching_cubes_naive"],
          [dict(which=w, kind=k, local=l) for w in ("cpp", "naive") for k, l in (("open", False), ("closed", True), ("touching", False))], trials=80, seconds=90,
          bounded="up to 2 volumes of up to 5x5x5 values")
def _(c, which, kind, local):
    if c.sym:
        return
    c.default(F)
    x, iso = volume(c, kind)
    fn = MC.marching_cubes if which == "cpp" else MC.marching_cubes_naive
    keep = c.unchanged("volume untouched", x)
    V, Fs = fn(x, iso, return_local_coords=local)
    keep()
    N, D, H, W = x.shape
    c.fact("one surface per volume", len(V) == N and len(Fs) == N)
    for n in range(N):
        vol = x[n].double()
        t = float((x[n].max() + x[n].min()) / 2) if iso is None else iso
        if kind != "touching":
            c.require(bool(((vol - t).abs() > 1e-3).all()))
        want = []
        for z, y, w in itertools.product(range(D), range(H), range(W)):
            for dz, dy, dx in ((0, 0, 1), (0, 1, 0), (1, 0, 0)):
                if z + dz < D and y + dy < H and w + dx < W:
                    a, b = float(vol[z, y, w]), float(vol[z + dz, y + dy, w + dx])
                    if (a < t) != (b < t):
                        s = (t - a) / (b - a)
                        want.append((w + s * dx, y + s * dy, z + s * dz))
        if not want:
            c.fact("no crossing: nothing", len(V[n]) == 0 and len(Fs[n]) == 0)
            continue
        if len(V[n]) == 0:
            c.fact("only degenerate triangles may be left out", kind == "touching")
            continue
        v = V[n].double()
        if local:
            v = (v + 1) * (torch.tensor([W, H, D], dtype=torch.float64) - 1) / 2
        f = Fs[n]
        wt = torch.tensor(want, dtype=torch.float64)
        d = torch.cdist(v, wt)
        c.fact("every vertex is the linear crossing of a straddling edge", bool((d.min(1).values < 1e-4).all()))
        c.fact("faces refer to vertices", bool((f >= 0).all()) and bool((f < len(v)).all()) and set(f.reshape(-1).tolist()) == set(range(len(v))))
        if kind != "touching":
            c.fact("every straddling edge has one vertex", len(v) == len(want) and bool((d.min(0).values < 1e-4).all()))
        # the surface is closed and oriented, except along the border of the grid
        ids = {}
        pos = [ids.setdefault(tuple(round(a, 3) for a in p), len(ids)) for p in v.tolist()] if kind == "touching" else list(range(len(v)))
        cnt = {}
        for tri in f.tolist():
            q = [pos[a] for a in tri]
            c.fact("no degenerate triangle", len(set(q)) == 3)
            for a, b in ((0, 1), (1, 2), (2, 0)):
                cnt[(q[a], q[b])] = cnt.get((q[a], q[b]), 0) + 1
        where = {i: p for p, i in zip(v.tolist(), pos)}
        hi = (W - 1, H - 1, D - 1)
        border = lambda a, b: any(abs(where[a][k] - e) < 1e-4 and abs(where[b][k] - e) < 1e-4 for k in range(3) for e in (0, hi[k]))
        c.fact("every side is shared by two triangles that run through it in opposite directions", all(cnt.get((b, a), 0) == m or border(a, b) for (a, b), m in cnt.items()))
        if kind != "touching":
            c.fact("no side twice in one direction", all(m == 1 for m in cnt.values()))
        if kind == "closed":
            vol6 = sum(float(torch.dot(v[a], torch.linalg.cross(v[b], v[e]))) for a, b, e in f.tolist())
            c.fact("the normals point to the larger values", vol6 < 0)


@contract("C22", "marching cubes on a volume of more than 2^24 values", [O + "marching_cubes.marching_cubes"], trials=1, bounded="one volume of 2x2x4300000 values")
def _(c):
    if c.sym:
        return
    c.default(F)
    W = 4300000
    x = torch.full((1, 2, 2, W), -1.0)
    g = torch.Generator().manual_seed(1)
    x[0, :, :, W - 40:] = torch.rand(2, 2, 40, generator=g) * 2 - 1
    V, Fs = MC.marching_cubes(x, 0.0, return_local_coords=False)
    v, f = MC.marching_cubes(x[..., W - 41:].contiguous(), 0.0, return_local_coords=False)
    v = v[0] + torch.tensor([W - 41.0, 0, 0])
    c.fact("the same surface as from the part of the volume that holds it", gen.close(V[0], v, 1.0) and gen.exact(Fs[0], f[0]))


# ---------------------------------------------------------------- one cell, symbolically
@contract("C22", "the case of a cell tells which corners are below the level", [O + "marching_cubes.Cube.__init__"], trials=60, paths=600, seconds=200)
def _(c):
    D, H, W = (c.dim(k, 2, 6) for k in "DHW")
    x, y, z = c.integer("x", 0, W - 1), c.integer("y", 0, H - 1), c.integer("z", 0, D - 1)
    vol = c.real("vol", (D, H, W))
    t = c.scalar("t")
    cube = MC.Cube((x, y, z), vol, t)
    c.fact("a case", 0 <= cube.cube_index < 256)
    for corner in range(8):
        b = TB.INDEX[corner]
        u = c.g(vol, z + (b >> 2 & 1), y + (b >> 1 & 1), x + (b & 1))
        below = c.lt(u, t) if c.sym else bool(u < t)
        c.check("bit of the case", (), lambda: below if cube.cube_index >> corner & 1 else c.not_(below))
        c.check("position of the corner", (), lambda: c.and_(c.ieq(cube.verts[b][0], x + (b & 1)), c.ieq(cube.verts[b][1], y + (b >> 1 & 1)), c.ieq(cube.verts[b][2], z + (b >> 2 & 1))))


@contract("C22", "the vertex of an edge is its linear crossing", [O + "marching_cubes.Cube.vert_interp"], [dict(edge=e) for e in range(12)], trials=20, paths=600, seconds=120)
def _(c, edge):
    D, H, W = (c.dim(k, 2, 6) for k in "DHW")
    x, y, z = c.integer("x", 0, W - 1), c.integer("y", 0, H - 1), c.integer("z", 0, D - 1)
    vol = c.real("vol", (D, H, W))
    t = c.scalar("t")
    cube = MC.Cube.__new__(MC.Cube)
    cube.verts = [[x + (v & 1), y + (v >> 1 & 1), z + (v >> 2 & 1)] for v in range(8)]
    a, b = TB.EDGE_TO_VERTICES[edge]
    pa, pb = cube.verts[a], cube.verts[b]
    va, vb = c.g(vol, pa[2], pa[1], pa[0]), c.g(vol, pb[2], pb[1], pb[0])
    c.require(c.or_(c.and_(c.lt(va + 1e-4, t), c.lt(t + 1e-4, vb)), c.and_(c.lt(vb + 1e-4, t), c.lt(t + 1e-4, va))))
    p = cube.vert_interp(t, edge, vol)
    for k in range(3):
        c.check("value at the vertex is the level", (), lambda: c.eq((p[k] - pa[k]) * (vb - va), (pb[k] - pa[k]) * (t - va)))
        c.check("on the edge", (), lambda: c.and_(c.le(min(a >> k & 1, b >> k & 1) * 1.0, p[k] - (x, y, z)[k]), c.le(p[k] - (x, y, z)[k], max(a >> k & 1, b >> k & 1) * 1.0)))
