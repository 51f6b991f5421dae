"""C17: volume coordinates and splatting of points into volumes."""
import sys
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.structures.volumes  # noqa
import pytorch3d.ops.points_to_volumes  # noqa
from pytorch3d import _C
from pytorch3d.structures import Pointclouds

NATIVE = True
F = torch.float32
S = "pytorch3d.structures.volumes."
O = "pytorch3d.ops.points_to_volumes."
CS = "pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp:"
VO = sys.modules["pytorch3d.structures.volumes"]
PV = sys.modules["pytorch3d.ops.points_to_volumes"]
XYZ = (2, 1, 0)         # coordinate k of a point runs along spatial dimension XYZ[k]


def locator(c, ac=True, equal=True):
    c.default(F)
    N = c.dim("N", hi=None if c.sym else 3)
    lo = 2
    if equal:
        D = [c.dim("DHW"[k], lo=lo, hi=None if c.sym else 5) for k in range(3)]
        gs = torch.tensor(D, dtype=torch.int64)[None].repeat(N, 1)
    else:
        gs = c.ints("gs", (N, 3), lo, 5)
        D = None
    vs = c.real("vs", (N, 3), F, 0.3, 2.0)
    tr = c.real("tr", (N, 3), F)
    c.require_all((N, 3), lambda i, k: 0 < c.g(vs, i, k))
    c.require_all((N, 3), lambda i, k: lo <= c.g(gs, i, k))
    loc = VO.VolumeLocator(batch_size=N, grid_sizes=gs, device=torch.device("cpu"), voxel_size=vs, volume_translation=tr, align_corners=ac)
    return N, D, gs, vs, tr, loc


def scale(c, gs, vs, i, k):
    return (c.toreal(c.g(gs, i, XYZ[k])) - 1) * c.g(vs, i, k) * 0.5


@contract("C17", "local to world is the documented affine map", [S + "VolumeLocator.local_to_world_coords", S + "VolumeLocator._voxel_size_translation_to_transform"], [dict(equal=True), dict(equal=False)])
def _(c, equal):
    N, D, gs, vs, tr, loc = locator(c, equal=equal)
    P = c.dim("P", hi=None if c.sym else 5)
    x = c.real("x", (N, P, 3), F)
    keep = c.unchanged("points untouched", x)
    w = loc.local_to_world_coords(x)
    keep()
    c.shape("shape", w, (N, P, 3))
    c.check("value", (N, P, 3), lambda i, p, k: c.eq(c.g(w, i, p, k), c.g(x, i, p, k) * scale(c, gs, vs, i, k) - c.g(tr, i, k)))
    return


@contract("C17", "world to local is the inverse map", [S + "VolumeLocator.world_to_local_coords", S + "VolumeLocator.get_world_to_local_coords_transform"], [dict(equal=True), dict(equal=False)], tol=1e-4)
def _(c, equal):
    N, D, gs, vs, tr, loc = locator(c, equal=equal)
    P = c.dim("P", hi=None if c.sym else 5)
    x = c.real("x", (N, P, 3), F)
    l = loc.world_to_local_coords(x)
    c.shape("shape", l, (N, P, 3))
    c.check("maps back to the point", (N, P, 3), lambda i, p, k: c.eq(c.g(l, i, p, k) * scale(c, gs, vs, i, k) - c.g(tr, i, k), c.g(x, i, p, k)))


@contract("C17", "voxel sizes and translations of every accepted form", [S + "VolumeLocator._handle_voxel_size", S + "VolumeLocator._handle_volume_translation", S + "VolumeLocator._convert_volume_property_to_tensor"],
          [dict(form=f) for f in ("scalar", "tuple", "one", "three", "rows1", "row13")])
def _(c, form):
    c.default(F)
    N = c.dim("N", hi=None if c.sym else 4)
    gs = torch.tensor((4, 3, 5), dtype=torch.int64)[None].repeat(N, 1)
    v = [c.scalar(f"v{k}", 0.2, 2.0) for k in range(3)]
    t = [c.scalar(f"t{k}", -2.0, 2.0) for k in range(3)]
    size, trans = {"scalar": (0.5, (1.0, 2.0, 3.0)), "tuple": ((0.5, 0.25, 2.0), (1.0, 2.0, 3.0)), "one": (c.real("s1", (1,), F, 0.2, 2.0), c.real("tt", (N, 3), F)),
                   "three": (c.real("s3", (3,), F, 0.2, 2.0), c.real("t3", (3,), F)), "rows1": (c.real("sn", (N, 1), F, 0.2, 2.0), c.real("t13", (1, 3), F)),
                   "row13": (c.real("s13", (1, 3), F, 0.2, 2.0), c.real("t13", (1, 3), F))}[form]
    loc = VO.VolumeLocator(batch_size=N, grid_sizes=gs, device=torch.device("cpu"), voxel_size=size, volume_translation=trans)
    m = loc.get_local_to_world_coords_transform().get_matrix()
    sz = {"scalar": lambda i, k: 0.5, "tuple": lambda i, k: (0.5, 0.25, 2.0)[k] if not c.sym else c.ite(k < 1, 0.5, c.ite(k < 2, 0.25, 2.0)), "one": lambda i, k: c.g(size, 0), "three": lambda i, k: c.g(size, k),
          "rows1": lambda i, k: c.g(size, i, 0), "row13": lambda i, k: c.g(size, 0, k)}[form]
    tz = lambda i, k: (1.0, 2.0, 3.0)[k] if form in ("scalar", "tuple") else c.g(trans, i, k) if form == "one" else c.g(trans, k) if form == "three" else c.g(trans, 0, k)
    c.shape("shape", m, (N, 4, 4))
    for k in range(3):
        c.check(f"scale {k}", (N,), lambda i: c.eq(c.g(m, i, k, k), ((5, 3, 4)[k] - 1) * sz(i, k) * 0.5))
        c.check(f"translation {k}", (N,), lambda i: c.eq(c.g(m, i, 3, k), -tz(i, k)))


@contract("C17", "coordinate grid", [S + "VolumeLocator._calculate_coordinate_grid", S + "VolumeLocator.get_coord_grid"], [dict(ac=True, world=False), dict(ac=False, world=False), dict(ac=True, world=True)])
def _(c, ac, world):
    N, D, gs, vs, tr, loc = locator(c, ac)
    g = loc.get_coord_grid(world)
    c.shape("shape", g, (N, *D, 3))

    def val(k):
        def f(i, z, y, x):
            s, n = c.toreal((x, y, z)[k]), c.toreal(D[XYZ[k]])
            u = -1 + 2 * s / (n - 1) if ac else -1 + (2 * s + 1) / n
            return c.eq(c.g(g, i, z, y, x, k), u * scale(c, gs, vs, i, k) - c.g(tr, i, k) if world else u)
        return f
    for k in range(3):
        c.check(f"coordinate {'xyz'[k]}", (N, *D), val(k))


@contract("C17", "coordinate grid of differently sized volumes", [S + "VolumeLocator._calculate_coordinate_grid"], [dict(ac=True), dict(ac=False)], trials=30, bounded="batches of up to 4 volumes of up to 5 voxels per side")
def _(c, ac):
    if c.sym:
        return
    c.default(F)
    N = c.integer("N", 1, 5)
    lo = 2 if ac else 1
    gs = c.ints("gs", (N, 3), lo, 6)
    vs, tr = c.real("vs", (N, 3), F, 0.3, 2.0), c.real("tr", (N, 3), F)
    loc = VO.VolumeLocator(batch_size=N, grid_sizes=gs, device=torch.device("cpu"), voxel_size=vs, volume_translation=tr, align_corners=ac)
    mx = gs.max(0).values.tolist()
    for world in (False, True):
        g = loc.get_coord_grid(world)
        c.shape("shape", g, (N, *mx, 3))
        for i in range(N):
            n = gs[i].tolist()
            for k in range(3):
                s = torch.arange(n[XYZ[k]]).double()
                u = -1 + 2 * s / (n[XYZ[k]] - 1) if ac else -1 + (2 * s + 1) / n[XYZ[k]]
                if world:
                    u = u * (n[XYZ[k]] - 1) * vs[i, k].double() * 0.5 - tr[i, k].double()
                sh = [1, 1, 1]
                sh[XYZ[k]] = -1
                c.fact(f"coordinates of every voxel [{world}]", gen.close(g[i, :n[0], :n[1], :n[2], k], u.reshape(sh).expand(*n), 1e-4))


def coords(c, p, gs, n, q, ac):
    """voxel coordinates (x, y, z) of point q"""
    return [(c.g(p, n, q, k) + 1) * 0.5 * (c.toreal(c.g(gs, n, XYZ[k])) - (1 if ac else 0)) - (0 if ac else 0.5) for k in range(3)]


def splat_setup(c, N=None, P=None, C=None):
    c.default(F)
    one = lambda s, v: v if v is not None else c.dim(s, hi=None if c.sym else 4)
    N, P, C = one("N", N), one("P", P), one("C", C)
    D = [c.dim("DHW"[k], hi=None if c.sym else 4) for k in range(3)]
    gs = c.ints("gs", (N, 3), 1, (lambda k: k)(5)) if c.sym else torch.stack([c.ints(f"gs{k}", (N,), 1, D[k] + 1) for k in range(3)], 1)
    for k in range(3):
        c.require_all((N,), lambda i: c.and_(1 <= c.g(gs, i, k), c.g(gs, i, k) <= D[k]))
    p, f = c.real("p", (N, P, 3), F, -1.6, 1.6), c.real("f", (N, P, C), F)
    dens, feat = c.real("dens", (N, 1, *D), F, 0.0, 2.0), c.real("feat", (N, C, *D), F)
    mask = c.real("mask", (N, P), F, fix=lambda t: (t > -0.8).to(F))
    pw = c.scalar("pw", 0.5, 2.0)
    return N, P, C, D, gs, p, f, dens, feat, mask, pw


def votes(c, p, gs, mask, ac, splat, n, q, z, y, x):
    """the share of point q that goes to voxel z, y, x"""
    u = coords(c, p, gs, n, q, ac)
    at = (x, y, z)
    inside = c.and_(z < c.g(gs, n, 0), y < c.g(gs, n, 1), x < c.g(gs, n, 2), c.not_(c.eq(c.g(mask, n, q), 0)))
    if splat:
        w = []
        for k in range(3):
            fl = c.floor(u[k])
            r = u[k] - c.toreal(fl)
            w.append(c.ite(c.ieq(fl, at[k]), 1 - r, c.ite(c.ieq(fl + 1, at[k]), r, 0)))
        return c.ite(inside, w[0] * w[1] * w[2], 0)
    near = [c.ite(u[k] < 0, lambda: -c.floor(0.5 - u[k]), lambda: c.floor(0.5 + u[k])) for k in range(3)]
    hit = c.and_(*[c.ieq(near[k], at[k]) for k in range(3)])
    return c.ite(c.and_(inside, hit), 1.0, 0.0)


def away(c, p, gs, N, P, ac, borders):
    """keep real runs away from the borders where rounding decides"""
    if not c.sym:
        for n in range(N):
            for q in range(P):
                for k, u in enumerate(coords(c, p, gs, n, q, ac)):
                    c.require(ac and int(gs[n, XYZ[k]]) == 1 or (abs(u - round(u)) if borders else abs(abs(u - round(u)) - 0.5)) > 1e-4)


def forward(c, ac, splat, N, P, C):
    N, P, C, D, gs, p, f, dens, feat, mask, pw = splat_setup(c, N, P, C)
    if not splat:
        away(c, p, gs, N, P, ac, False)
    d1, f1 = dens.clone(), feat.clone()
    keep = [c.unchanged("inputs untouched", t) for t in (p, f, gs, mask)]
    _C.points_to_volumes_forward(p, f, d1, f1, gs, mask, pw, ac, splat)
    [k() for k in keep]
    V = lambda n, q, z, y, x: votes(c, p, gs, mask, ac, splat, n, q, z, y, x)
    c.check("density", (N, *D), lambda n, z, y, x: c.eq(c.g(d1, n, 0, z, y, x), c.g(dens, n, 0, z, y, x) + c.sum(P, lambda q: V(n, q, z, y, x) * pw)))
    c.check("features", (N, C, *D), lambda n, k, z, y, x: c.eq(c.g(f1, n, k, z, y, x), c.g(feat, n, k, z, y, x) + c.sum(P, lambda q: V(n, q, z, y, x) * c.g(f, n, q, k) * pw)))


MODES = [dict(ac=a, splat=s) for s in (False, True) for a in (True, False)]


@contract("C17", "a point votes for its voxels", [CS + "PointsToVolumesForwardCpu"], MODES, tol=1e-4, seconds=120)
def _(c, ac, splat):
    forward(c, ac, splat, 1, 1, 1)


@contract("C17", "every point of a batch votes for its voxels", [CS + "PointsToVolumesForwardCpu"], MODES, tol=1e-4, bounded="4 clouds of 4 points with 4 features in volumes of up to 4 voxels per side", trials=30)
def _(c, ac, splat):
    if not c.sym:
        forward(c, ac, splat, None, None, None)


@contract("C17", "the votes of a point inside the grid sum to one", [CS + "PointsToVolumesForwardCpu"], tol=1e-4, seconds=60)
def _(c):
    c.default(F)
    r = [c.scalar(f"r{k}", 0.0, 1.0) for k in range(3)]
    w = lambda k, up: r[k] if up else 1 - r[k]
    c.check("lemma", (), lambda: c.eq(sum(w(0, d >> 2 & 1) * w(1, d >> 1 & 1) * w(2, d & 1) for d in range(8)), 1))


def backward(c, ac, splat, N, P, C):
    N, P, C, D, gs, p, f, dens, feat, mask, pw = splat_setup(c, N, P, C)
    away(c, p, gs, N, P, ac, splat)
    gp, gf = torch.zeros((N, P, 3), dtype=F), torch.zeros((N, P, C), dtype=F)
    _C.points_to_volumes_backward(p, f, gs, mask, pw, ac, splat, dens, feat, gp, gf)
    on = lambda n, q: c.not_(c.eq(c.g(mask, n, q), 0))
    u = lambda n, q: coords(c, p, gs, n, q, ac)

    def cells(n, q):
        """the voxels of a point: (inside, index, weight, per-axis weights, signs)"""
        uu = u(n, q)
        if not splat:
            i = [c.ite(uu[k] < 0, lambda: -c.floor(0.5 - uu[k]), lambda: c.floor(0.5 + uu[k])) for k in range(3)]
            yield i, [1, 1, 1], None
            return
        fl = [c.floor(uu[k]) for k in range(3)]
        for d in range(8):
            up = (d >> 2 & 1, d >> 1 & 1, d & 1)
            w = [(uu[k] - c.toreal(fl[k])) if up[k] else 1 - (uu[k] - c.toreal(fl[k])) for k in range(3)]
            yield [fl[k] + up[k] for k in range(3)], w, up

    def inside(n, i):
        return c.and_(*[c.and_(0 <= i[k], i[k] < c.g(gs, n, XYZ[k])) for k in range(3)])

    def at(t, n, k, i):
        return c.g(t, n, k, i[2], i[1], i[0])

    def gfeat(n, q, k):
        t = 0
        for i, w, up in cells(n, q):
            t = t + c.ite(c.and_(on(n, q), inside(n, i)), lambda i=i, w=w: at(feat, n, k, i) * w[0] * w[1] * w[2] * pw, lambda: 0)
        return c.eq(c.g(gf, n, q, k), t)

    def gpoint(a):
        def v(n, q):
            t = 0
            if splat:
                for i, w, up in cells(n, q):
                    o = [w[k] for k in range(3) if k != a]
                    src = lambda i=i: at(dens, n, 0, i) + c.sum(C, lambda k: c.g(f, n, q, k) * at(feat, n, k, i))
                    t = t + c.ite(c.and_(on(n, q), inside(n, i)), lambda o=o, up=up, src=src: src() * (1 if up[a] else -1) * o[0] * o[1] * 0.5 * (c.toreal(c.g(gs, n, XYZ[a])) - (1 if ac else 0)) * pw, lambda: 0)
            return c.eq(c.g(gp, n, q, a), t)
        return v
    c.check("feature gradient", (N, P, C), gfeat)
    for a in range(3):
        c.check(f"point gradient {'xyz'[a]}", (N, P), gpoint(a))


@contract("C17", "the gradient of a point's votes", [CS + "PointsToVolumesBackwardCpu"], MODES, tol=1e-3, seconds=100)
def _(c, ac, splat):
    backward(c, ac, splat, 1, 1, 1)


@contract("C17", "the gradient of every point of a batch", [CS + "PointsToVolumesBackwardCpu"], MODES, tol=1e-3, bounded="4 clouds of 4 points with 4 features in volumes of up to 4 voxels per side", trials=30)
def _(c, ac, splat):
    if not c.sym:
        backward(c, ac, splat, None, None, None)


@contract("C17", "adding points to a batch of volumes", [O + "add_pointclouds_to_volumes", O + "add_points_features_to_volume_densities_features", O + "_points_to_volumes_function", O + "_splat_points_to_volumes", O + "_round_points_to_volumes", S + "Volumes.update_padded"],
          [dict(splat=s, equal=e, ac=a, rescale=r) for s in (True, False) for e in (True, False) for a in (True, False) for r in (True, False)], trials=10, bounded="3 volumes of up to 5 voxels per side, clouds of up to 6 points")
def _(c, splat, equal, ac, rescale):
    if c.sym:
        return
    c.default(F)
    N = c.integer("N", 1, 4)
    D0 = [c.integer(f"D{k}", 2, 6) for k in range(3)]
    D = [D0 if equal else [c.integer(f"D{n}{k}", 2, 6) for k in range(3)] for n in range(N)]
    C = c.integer("C", 1, 3)
    dl = [c.real(f"d{n}", (1, *D[n]), F, 0.0, 2.0, fix=lambda t: torch.where(t > 1, t, torch.zeros_like(t))) for n in range(N)]
    fl = [c.real(f"f{n}", (C, *D[n]), F) for n in range(N)]
    ps = gen.cloud_lists(c, "c", N, N, 6, empty=True)
    if all(len(x) == 0 for x in ps):
        ps[0] = c.real("px", (2, 3), F)
    fs = [c.real(f"pf{n}", (len(ps[n]), C), F) if len(ps[n]) else torch.zeros((0, C)) for n in range(N)]
    vs, tr = c.real("vs", (N, 3), F, 0.4, 1.5), c.real("tr", (N, 3), F, -0.5, 0.5)
    vol = VO.Volumes(densities=[x.clone() for x in dl], features=[x.clone() for x in fl], voxel_size=vs, volume_translation=tr, align_corners=ac)
    keep = (vol.densities().clone(), vol.features().clone())
    mode = "trilinear" if splat else "nearest"
    loc = [(ps[n].double() + tr[n].double()) / (0.5 * vs[n].double() * (torch.tensor(D[n]).flip(0).double() - 1)) for n in range(N)]
    crd = [((loc[n] + 1) * 0.5 * (torch.tensor(D[n]).flip(0).double() - (1 if ac else 0)) - (0 if ac else 0.5)) for n in range(N)]
    for n in range(N):
        c.require(bool(((crd[n] - crd[n].round()).abs() - 0.5).abs().gt(1e-3).all()) or splat)
    import copy
    out = PV.add_pointclouds_to_volumes(Pointclouds(points=ps, features=fs), copy.deepcopy(vol), mode=mode, rescale_features=rescale, min_weight=1e-4)
    c.fact("sizes kept", gen.exact(out.get_grid_sizes(), vol.get_grid_sizes()) and out.get_align_corners() == ac)
    od, of = out.densities_list(), out.features_list()
    py = ac and rescale and equal       # what the reference documents
    if py:
        o2 = PV.add_pointclouds_to_volumes(Pointclouds(points=ps, features=fs), copy.deepcopy(vol), mode=mode, rescale_features=rescale, min_weight=1e-4, _python=True)
        c.fact("the reference agrees", gen.close(o2.densities(), out.densities(), 1e-4) and gen.close(o2.features(), out.features(), 2e-2))
    for n in range(N):
        d, f = dl[n].double().clone(), fl[n].double().clone()
        for q in range(len(ps[n])):
            u = crd[n][q]
            base = u.floor().long() if splat else u.round().long()
            for b in range(8 if splat else 1):
                up = [b >> 2 & 1, b >> 1 & 1, b & 1]
                x, y, z = (int(base[k]) + up[k] for k in range(3))
                w = 1.0
                if splat:
                    for k in range(3):
                        r = float(u[k] - base[k])
                        w *= r if up[k] else 1 - r
                if 0 <= z < D[n][0] and 0 <= y < D[n][1] and 0 <= x < D[n][2]:
                    d[0, z, y, x] += w
                    f[:, z, y, x] += w * fs[n][q].double()
        if rescale:
            f = f / d.clamp(1e-4 if splat else 1.0)
        c.fact("densities", gen.close(od[n], d, 1e-3))
        if not rescale or not splat:
            c.fact("features", gen.close(of[n], f, 1e-3))
        else:
            ok = (d > 2e-4).expand_as(f) if True else None
            c.fact("features", bool((((of[n].double() - f).abs() <= 2e-2 * (1 + f.abs())) | ~ok).all()))


@contract("C17", "batches of volumes", [S + "Volumes.__getitem__", S + "Volumes.densities_list", S + "Volumes.features_list", S + "Volumes.update_padded", S + "Volumes.clone", S + "Volumes.to", S + "VolumeLocator._copy_transform_and_sizes"],
          [dict(ac=True), dict(ac=False)], trials=20, bounded="4 volumes of up to 4 voxels per side")
def _(c, ac):
    if c.sym:
        return
    c.default(F)
    N = c.integer("N", 1, 5)
    D = [[c.integer(f"D{n}{k}", 2, 5) for k in range(3)] for n in range(N)]
    dl = [c.real(f"d{n}", (2, *D[n]), F) for n in range(N)]
    fl = [c.real(f"f{n}", (3, *D[n]), F) for n in range(N)]
    vs, tr = c.real("vs", (N, 3), F, 0.4, 1.5), c.real("tr", (N, 3), F, -0.5, 0.5)
    feat = bool(c.integer("feat", 0, 2))
    vol = VO.Volumes(densities=dl, features=fl if feat else None, voxel_size=vs, volume_translation=tr, align_corners=ac)

    def matches(label, v, idx, ds, fs):
        c.fact(label + ": length", len(v) == len(idx))
        c.fact(label + ": sizes", v.get_grid_sizes().tolist() == [D[i] for i in idx])
        c.fact(label + ": corners", v.get_align_corners() == ac)
        c.fact(label + ": densities", all(gen.exact(a, b) for a, b in zip(v.densities_list(), ds)))
        c.fact(label + ": features", (v.features() is None) == (not feat) and (not feat or all(gen.exact(a, b) for a, b in zip(v.features_list(), fs))))
        m = v.get_local_to_world_coords_transform().get_matrix()
        for j, i in enumerate(idx):
            s = (torch.tensor(D[i]).flip(0) - 1) * vs[i] * 0.5
            c.fact(label + ": transform", gen.close(torch.diagonal(m[j])[:3], s, 1e-5) and gen.close(m[j, 3, :3], -tr[i], 1e-5))
        g = v.get_coord_grid()
        full = vol.get_coord_grid()
        for j, i in enumerate(idx):
            a, b, e = D[i]
            c.fact(label + ": grid", gen.close(g[j, :a, :b, :e], full[i, :a, :b, :e], 1e-5))
    al = list(range(N))
    matches("whole", vol, al, dl, fl)
    i = c.integer("i", 0, N)
    pick = lambda x, ix: [x[k] for k in ix]
    for label, key, ix in (("int", i, [i]), ("slice", slice(i, N), al[i:]), ("list", [N - 1, i], [N - 1, i]), ("mask", torch.tensor([k % 2 == i % 2 for k in al]), [k for k in al if k % 2 == i % 2]),
                           ("tensor", torch.tensor([i, 0]), [i, 0])):
        matches(label, vol[key], ix, pick(dl, ix), pick(fl, ix))
    cl = vol.clone()
    matches("clone", cl, al, dl, fl)
    cl._densities += 1
    matches("whole after clone", vol, al, dl, fl)
    matches("to", vol.to("cpu", copy=True), al, dl, fl)
    up = vol.update_padded(vol.densities() * 2, vol.features() * 3 if feat else None)
    matches("update", up, al, [x * 2 for x in dl], [x * 3 for x in fl])
    matches("whole after update", vol, al, dl, fl)
    c.raises("wrong size", (ValueError,), lambda: vol.update_padded(torch.zeros(N, 2, 9, 9, 9)))
