"""C10: mesh rasterization reports the nearest covering faces of every pixel."""
import importlib
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa
from pytorch3d.structures import Meshes

RM = importlib.import_module("pytorch3d.renderer.mesh.rasterize_meshes")
P = "pytorch3d.renderer.mesh.rasterize_meshes."
CL = "pytorch3d.renderer.mesh.clip."
CS = "pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp:"
F, D = torch.float32, torch.float64
NATIVE = True


# ------------------------------------------------ oracle (double precision, differentiable)
def ndc(n, m):
    """coordinates of the centres of n pixels in a direction, m the size in the other one; +1 on the left / top"""
    r = max(n / m, 1.0)
    return torch.tensor([r * (1 - (2 * i + 1) / n) for i in range(n)], dtype=D)


def seg2(p, a, b):
    d = b - a
    l2 = (d * d).sum()
    if float(l2) <= 1e-8:
        return ((p - b) ** 2).sum()
    t = ((p - a) @ d / l2).clamp(0, 1)
    return ((p - a - t * d) ** 2).sum()


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


class Unclear(Exception):
    pass


def hit(v, p, persp, clip):
    """-> (bary before clipping, bary, depth, unsigned squared distance) of the pixel p and the face v (3, 3)"""
    a, b, e = v[0, :2], v[1, :2], v[2, :2]
    area = cross2(b - a, e - a)
    w = torch.stack([cross2(b - p, e - p), cross2(e - p, a - p), cross2(a - p, b - p)]) / area
    z = v[:, 2]
    if persp:
        t = torch.stack([w[0] * z[1] * z[2], z[0] * w[1] * z[2], z[0] * z[1] * w[2]])
        if float(t.sum()) < 1e-2:
            raise Unclear                  # at or beyond the horizon of the plane of the face
        w = t / t.sum()
    u = w
    if clip:
        u = w.clamp(min=0)
        u = u / u.sum().clamp(min=1e-5)
    return w, u, (u * z).sum(), torch.stack([seg2(p, a, b), seg2(p, a, e), seg2(p, b, e)]).min()


def area2(v):
    return float(cross2(v[1, :2] - v[0, :2], v[2, :2] - v[0, :2]))


def expected(fv, p, blur, K, persp, clip, cull):
    """the faces of a pixel, nearest first, or None when the outcome hangs on rounding"""
    out = []
    for f in range(len(fv)):
        v = fv[f]
        ar = area2(v)
        if abs(ar) < 1e-9 or (cull and ar > 0) or float(v[:, 2].min()) < 1e-8:
            continue                       # no area, facing away, or reaching behind the camera
        try:
            w, u, z, d = hit(v, p, persp, clip)
        except Unclear:
            return None
        near, dn = float(w.min()), float(d)
        if abs(near) < 1e-4 or abs(dn - blur) < 1e-5 or abs(float(z)) < 1e-4:
            return None
        inside = near > 0
        if float(z) < 0 or not (inside or dn < blur):
            continue
        out.append((float(z), f, u, -d if inside else d))
    out.sort(key=lambda t: t[0])
    if any(b[0] - a[0] < 1e-4 for a, b in zip(out, out[1:])):
        return None
    return out[:K]


def scene(c, persp, behind=False):
    N = c.integer("N", 1, 4)
    vs, fs = [], []
    for n in range(N):
        V = c.integer(f"V{n}", 3, 8)
        v = c.real(f"v{n}", (V, 3), F, -1.4, 1.4).clone()
        lo, hi = (0.3, 3.0) if persp else (-0.5, 3.0)
        v[:, 2] = c.real(f"z{n}", (V,), F, lo, hi)
        nf = c.integer(f"F{n}", 1, 7)
        f = c.ints(f"f{n}", (nf, 3), 0, V)
        vs.append(v)
        fs.append(f)
    return Meshes(vs, fs)


def args(c):
    return (c.integer("H", 1, 8), c.integer("W", 1, 8)), [0.0, 0.02, 0.3][c.integer("blur", 0, 3)], c.integer("K", 1, 5)




@contract("C10", "nearest covering faces of every pixel", [P + "rasterize_meshes", CS + "RasterizeMeshesNaiveCpu"],
          [dict(persp=p, clip=q) for p in (False, True) for q in (False, True)], trials=600, seconds=90, bounded="up to 3 meshes of up to 6 faces, images of up to 7x7 pixels")
def _(c, persp, clip):
    if c.sym:
        return
    c.default(F)
    m = scene(c, persp)
    size, blur, K = args(c)
    cull = c.boolean("cull")
    fv = m.verts_packed()[m.faces_packed()].double()
    c.require(all(abs(area2(v)) < 1e-9 or abs(area2(v)) > 1e-2 for v in fv))
    keep = c.unchanged("vertices untouched", m.verts_packed())
    square = size[0] == size[1] and c.boolean("int")
    pf, zb, ba, di = RM.rasterize_meshes(m, size[0] if square else size, blur, K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull)
    keep()
    H, W = size
    N = len(m)
    c.fact("shapes", tuple(pf.shape) == tuple(zb.shape) == tuple(di.shape) == (N, H, W, K) and tuple(ba.shape) == (N, H, W, K, 3))
    c.fact("types", pf.dtype == torch.int64 and zb.dtype == F and ba.dtype == F and di.dtype == F)
    xs, ys = ndc(W, H), ndc(H, W)
    first, num = m.mesh_to_faces_packed_first_idx().tolist(), m.num_faces_per_mesh().tolist()
    for n in range(N):
        part = fv[first[n]:first[n] + num[n]]
        for y in range(H):
            for x in range(W):
                want = expected(part, torch.stack([xs[x], ys[y]]), blur, K, persp, clip, cull)
                if want is None:
                    continue
                k = len(want)
                c.fact("the nearest covering faces, in ascending depth", pf[n, y, x, :k].tolist() == [t[1] + first[n] for t in want])
                c.fact("unused slots", all(bool((t[n, y, x, k:] == -1).all()) for t in (pf, zb, ba, di)))
                for j, (z, f, u, d) in enumerate(want):
                    s = 1 + float(u.abs().max())
                    c.fact("depth", abs(float(zb[n, y, x, j]) - z) < 1e-3 * s * s)
                    c.fact("barycentric coordinates", gen.close(ba[n, y, x, j].double(), u, 1e-3 * s * s))
                    c.fact("signed squared distance", abs(float(di[n, y, x, j]) - float(d)) < 1e-4)


@contract("C10", "gradients of depth, barycentric coordinates and distances", [P + "_RasterizeFaceVerts.backward", CS + "RasterizeMeshesBackwardCpu"],
          [dict(persp=p, clip=q) for p in (False, True) for q in (False, True)], trials=200, seconds=90, bounded="up to 3 meshes of up to 6 faces, images of up to 7x7 pixels")
def _(c, persp, clip):
    if c.sym:
        return
    c.default(F)
    m0 = scene(c, persp)
    size, blur, K = args(c)
    fv0 = m0.verts_packed()[m0.faces_packed()].double()
    c.require(all(abs(area2(v)) < 1e-9 or abs(area2(v)) > 0.1 for v in fv0))
    v = m0.verts_packed().clone().requires_grad_()
    m = m0.update_padded(torch.zeros_like(m0.verts_padded()))
    packed = m0.verts_packed_to_mesh_idx()
    m = Meshes([v[packed == n] for n in range(len(m0))], m0.faces_list())
    out = RM.rasterize_meshes(m, size, blur, K, perspective_correct=persp, clip_barycentric_coords=clip)
    pf = out[0]
    g = torch.Generator().manual_seed(c.integer("g", 0, 1000))
    gz, gb, gd = (torch.randn(t.shape, generator=g) for t in out[1:])
    loss = (out[1] * gz).sum() + (out[2] * gb).sum() + (out[3] * gd).sum()
    vd = m0.verts_packed().double().requires_grad_()
    fv = vd[m0.faces_packed()]
    H, W = size
    xs, ys = ndc(W, H), ndc(H, W)
    want = vd.sum() * 0
    for n, y, x, k in (pf >= 0).nonzero().tolist():
        try:
            w, u, z, d = hit(fv[int(pf[n, y, x, k])], torch.stack([xs[x], ys[y]]), persp, clip)
        except Unclear:
            c.require(False)
        f = fv[int(pf[n, y, x, k])]
        es = sorted(float(seg2(torch.stack([xs[x], ys[y]]), f[i, :2], f[j, :2])) for i, j in ((0, 1), (0, 2), (1, 2)))
        # differentiable there: no tie between edges, no coordinate at the border of the clipping
        c.require(float(w.abs().min()) > 1e-3 and (es[1] - es[0] > 1e-5 or es[0] < 1e-12 or sum(float(t) < 0 for t in w) == 2 or not float(w.min()) > 0))
        c.require(float(w.abs().max()) < 50)
        sd = -d if float(w.min()) > 0 else d
        want = want + z * float(gz[n, y, x, k]) + (u * gb[n, y, x, k].double()).sum() + sd * float(gd[n, y, x, k])
    loss.backward()
    want.backward()
    s = 1 + float(vd.grad.abs().max())
    c.fact("gradient", gen.close(v.grad.double(), vd.grad, 2e-3 * s))


@contract("C10", "clipping at a depth", [P + "rasterize_meshes", CL + "clip_faces", CL + "convert_clipped_rasterization_to_original_faces"],
          [dict(persp=p, cull=q) for p in (False, True) for q in (False, True)], trials=600, seconds=90, bounded="up to 3 meshes of up to 6 faces, images of up to 7x7 pixels, no blur")
def _(c, persp, cull):
    if c.sym:
        return
    c.default(F)
    N = c.integer("N", 1, 4)
    zc = [0.5, 1.0, None][c.integer("zc", 0, 3 if cull else 2)]
    vs, fs = [], []
    for n in range(N):
        V = c.integer(f"V{n}", 3, 8)
        v = c.real(f"v{n}", (V, 3), F, -2.0, 2.0).clone()
        z = c.real(f"z{n}", (V,), F, -1.0 if zc else 0.3, 3.0)
        c.require(bool((z.abs() > 0.05).all()) and (zc is None or bool(((z - zc).abs() > 0.02).all())))
        v[:, 2] = z
        fs.append(c.ints(f"f{n}", (c.integer(f"F{n}", 1, 7), 3), 0, V))
        vs.append(v)                       # camera coordinates
    # what the rasterizer is given: image coordinates and the depth
    m = Meshes([torch.cat([v[:, :2] / v[:, 2:] if persp else v[:, :2], v[:, 2:]], 1) for v in vs], fs)
    H, W = c.integer("H", 1, 8), c.integer("W", 1, 8)
    K = c.integer("K", 1, 5)
    pf, zb, ba, di = RM.rasterize_meshes(m, (H, W), 0.0, K, perspective_correct=persp, z_clip_value=zc, cull_to_frustum=cull)
    xs, ys = ndc(W, H), ndc(H, W)
    first = m.mesh_to_faces_packed_first_idx().tolist()
    for n in range(N):
        tri = vs[n][fs[n]].double()
        for y in range(H):
            for x in range(W):
                want = beam(tri, xs[x], ys[y], persp, zc)
                if want is None:
                    continue
                want = want[:K]
                k = len(want)
                c.fact("the nearest faces among the parts in front of the clipping depth", pf[n, y, x, :k].tolist() == [t[1] + first[n] for t in want])
                c.fact("unused slots", bool((pf[n, y, x, k:] == -1).all()) and bool((zb[n, y, x, k:] == -1).all()))
                for j, (z, f, u) in enumerate(want):
                    c.fact("depth", abs(float(zb[n, y, x, j]) - z) < 3e-3)
                    c.fact("barycentric coordinates of the whole face", gen.close(ba[n, y, x, j].double(), u, 1e-2))


def beam(tri, px, py, persp, zc):
    """faces met by the ray of a pixel at or beyond the clipping depth, nearest first; None when it hangs on rounding"""
    o = torch.zeros(3, dtype=D) if persp else torch.stack([px, py, px * 0])
    d = torch.stack([px, py, px * 0 + 1]) if persp else torch.tensor([0.0, 0, 1], dtype=D)
    out = []
    for f, v in enumerate(tri):
        n = torch.linalg.cross(v[1] - v[0], v[2] - v[0])
        if float(n.norm()) < 1e-9:
            continue
        if float(n.norm()) < 1e-2:
            return None
        if abs(float(n @ d)) < 2e-2 * float(n.norm()):
            return None
        t = n @ (v[0] - o) / (n @ d)
        q = o + t * d
        w = torch.stack([n @ torch.linalg.cross(v[2] - v[1], q - v[1]), n @ torch.linalg.cross(v[0] - v[2], q - v[2]), n @ torch.linalg.cross(v[1] - v[0], q - v[0])]) / (n @ n)
        z = float(q[2])
        lim = 0.0 if zc is None else zc
        if float(w.min()) > -2e-3 and abs(z - lim) < 1e-2 or abs(float(w.min())) < 2e-3 and z > lim - 1e-2:
            return None
        if float(w.min()) > 0 and z > lim:
            out.append((z, f, w))
    out.sort(key=lambda t: t[0])
    if any(b[0] - a[0] < 1e-2 for a, b in zip(out, out[1:])):
        return None
    return out


@contract("C10", "threads share the rows of the image", [CS + "RasterizeMeshesNaiveCpu"], trials=20, bounded="up to 9 threads")
def _(c):
    if c.sym:
        return
    c.default(F)
    m = scene(c, False)
    size, blur, K = args(c)
    one = RM.rasterize_meshes(m, size, blur, K)
    try:
        torch.set_num_threads(c.integer("T", 2, 10))
        many = RM.rasterize_meshes(m, size, blur, K)
    finally:
        torch.set_num_threads(1)
    c.fact("the same", all(gen.exact(a, b) for a, b in zip(one, many)))


@contract("C10", "the reference rasterizer agrees", [P + "rasterize_meshes_python"], trials=40, seconds=60, bounded="up to 3 meshes of up to 6 faces, images of up to 7x7 pixels")
def _(c):
    if c.sym:
        return
    c.default(F)
    persp, clip, cull = c.boolean("persp"), c.boolean("clip"), c.boolean("cull")
    m = scene(c, persp)
    size, blur, K = args(c)
    fv = m.verts_packed()[m.faces_packed()].double()
    c.require(all(abs(area2(v)) < 1e-9 or abs(area2(v)) > 1e-2 for v in fv))
    pf, zb, ba, di = RM.rasterize_meshes_python(m, size, blur, K, perspective_correct=persp, clip_barycentric_coords=clip, cull_backfaces=cull, cull_to_frustum=False)
    H, W = size
    xs, ys = ndc(W, H), ndc(H, W)
    first, num = m.mesh_to_faces_packed_first_idx().tolist(), m.num_faces_per_mesh().tolist()
    for n in range(len(m)):
        part = fv[first[n]:first[n] + num[n]]
        for y in range(H):
            for x in range(W):
                want = expected(part, torch.stack([xs[x], ys[y]]), blur, K, persp, clip, cull)
                if want is None:
                    continue
                k = len(want)
                c.fact("the nearest covering faces", pf[n, y, x, :k].tolist() == [t[1] + first[n] for t in want])
                c.fact("unused slots", all(bool((t[n, y, x, k:] == -1).all()) for t in (pf, zb, ba, di)))
                for j, (z, f, u, d) in enumerate(want):
                    s = 1 + float(u.abs().max())
                    c.fact("values", abs(float(zb[n, y, x, j]) - z) < 1e-3 * s * s and gen.close(ba[n, y, x, j].double(), u, 1e-3 * s * s) and abs(float(di[n, y, x, j]) - float(d)) < 1e-4)
