"""C04: camera projection, unprojection, NDC and screen space."""
import math
import torch
from vt.ctx import contract
from pytorch3d.renderer import cameras as CM

F = torch.float32
MOD = "pytorch3d.renderer.cameras."
TOL = 3e-3
KINDS = ("fovp", "fovo", "persp", "ortho")
CLS = dict(fovp="FoVPerspectiveCameras", fovo="FoVOrthographicCameras", persp="PerspectiveCameras", ortho="OrthographicCameras")


def fns(*ks):
    r = [MOD + "CamerasBase." + m for m in ("get_world_to_view_transform", "get_full_projection_transform", "transform_points")] \
        + [MOD + "get_world_to_view_transform"]
    for k in ks:
        r += [MOD + CLS[k] + "." + m for m in ("__init__", "get_projection_transform")]
        if k.startswith("fov"):
            r.append(MOD + CLS[k] + ".compute_projection_matrix")
        else:
            r.append(MOD + "_get_sfm_calibration_matrix")
    return r


class Cam:
    """parameters of a camera batch and the documented projection they stand for"""

    def __init__(self, c, kind, N, tag="", screen=False, pixels=True, n_par=None):
        self.c, self.kind, self.N = c, kind, N
        n = N if n_par is None else n_par
        p = {}
        if kind == "fovp":
            p["znear"] = c.real("znear" + tag, (n,), F, 0.5, 1.5)
            p["zfar"] = c.real("zfar" + tag, (n,), F, 5.0, 30.0)
            p["aspect_ratio"] = c.real("aspect" + tag, (n,), F, 0.5, 2.0)
            p["fov"] = c.real("fov" + tag, (n,), F, 0.4, 2.0)
            c.require_all((n,), lambda i: c.and_(0 < c.g(p["znear"], i), c.lt(c.g(p["znear"], i), c.g(p["zfar"], i)) if c.sym else True,
                                                 0 < c.g(p["aspect_ratio"], i), 0 < c.tan(c.g(p["fov"], i) / 2)))
        elif kind == "fovo":
            p["znear"] = c.real("znear" + tag, (n,), F, 0.5, 1.5)
            p["zfar"] = c.real("zfar" + tag, (n,), F, 5.0, 30.0)
            for ax in "xy":
                p["min_" + ax] = c.real(f"min_{ax}{tag}", (n,), F, -2.0, -0.5)
                p["max_" + ax] = c.real(f"max_{ax}{tag}", (n,), F, 0.5, 2.0)
            p["scale_xyz"] = c.real("scale" + tag, (n, 3), F, 0.5, 2.0)
            if c.sym:
                for a, b in (("znear", "zfar"), ("min_x", "max_x"), ("min_y", "max_y")):
                    c.require_all((n,), lambda i, a=a, b=b: c.lt(c.g(p[a], i), c.g(p[b], i)))
                c.require_all((n, 3), lambda i, k: 0 < c.g(p["scale_xyz"], i, k))
        else:
            s = 40.0 if screen else 1.0
            p["focal_length"] = c.real("focal" + tag, (n, 2), F, 0.5 * s, 2.0 * s)
            p["principal_point"] = c.real("pp" + tag, (n, 2), F, -0.5 * s, 0.5 * s)
            if c.sym:
                c.require_all((n, 2), lambda i, k: 0 < c.g(p["focal_length"], i, k))
        self.p = p

    def k(self, n):
        """3x4-ish intrinsics rows: x', y', z', w' as coefficients on (x, y, z, 1)"""
        c, p = self.c, self.p
        g = lambda nm, *i: c.g(p[nm], n, *i)
        if self.kind == "fovp":
            t = c.tan(g("fov") / 2)
            zn, zf = g("znear"), g("zfar")
            return [[1 / (t * g("aspect_ratio")), 0, 0, 0], [0, 1 / t, 0, 0], [0, 0, zf / (zf - zn), -(zf * zn) / (zf - zn)], [0, 0, 1, 0]]
        if self.kind == "fovo":
            zn, zf = g("znear"), g("zfar")
            row = lambda ax: (2 / (g("max_" + ax) - g("min_" + ax)) * g("scale_xyz", "xy".index(ax)),
                              -(g("max_" + ax) + g("min_" + ax)) / (g("max_" + ax) - g("min_" + ax)))
            (sx, mx), (sy, my) = row("x"), row("y")
            return [[sx, 0, 0, mx], [0, sy, 0, my], [0, 0, g("scale_xyz", 2) / (zf - zn), -zn / (zf - zn)], [0, 0, 0, 1]]
        fx, fy, px, py = g("focal_length", 0), g("focal_length", 1), g("principal_point", 0), g("principal_point", 1)
        if self.kind == "persp":
            return [[fx, 0, px, 0], [0, fy, py, 0], [0, 0, 0, 1], [0, 0, 1, 0]]
        return [[fx, 0, 0, px], [0, fy, 0, py], [0, 0, 1, 0], [0, 0, 0, 1]]

    def project(self, n, X):
        K = self.k(n)
        h = [K[r][0] * X[0] + K[r][1] * X[1] + K[r][2] * X[2] + K[r][3] for r in range(4)]
        return [h[r] / h[3] for r in range(3)]


def pose(c, N, tag=""):
    R = c.rotation("R" + tag, (N,), F)
    T = c.real("T" + tag, (N, 3), F, 4.0, 6.0)
    return R, T


def to_view(c, R, T, n, X):
    return [c.dot(X, [c.g(R, n, m, i) for m in range(3)]) + c.g(T, n, i) for i in range(3)]


def points(c, N, P, R, T, persp=True):
    pts = c.real("p", (N, P, 3), F, -1.0, 1.0)
    if persp and c.sym:
        c.require_all((N, P), lambda n, k: c.not_(c.eq(to_view(c, R, T, n, c.vec(pts, n, k))[2], 0)))
    return pts


def mk(kind, **k):
    if kind == "fovp":
        k.setdefault("degrees", False)
    return getattr(CM, CLS[kind])(**k)


@contract("C04", "world points go through the pose and then the documented intrinsics", fns(*KINDS), [dict(kind=k) for k in KINDS], tol=TOL)
def _(c, kind):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind in ("fovp", "persp"))
    cam = Cam(c, kind, N)
    cams = mk(kind, R=R, T=T, **cam.p)
    out = cams.transform_points(pts)
    c.shape("shape", out, (N, P, 3))
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), cam.project(n, to_view(c, R, T, n, c.vec(pts, n, k)))[int(i)]))
    c.same("ndc cameras already live in NDC", cams.transform_points_ndc(pts), out)
    C = cams.get_camera_center()
    c.shape("centre shape", C, (N, 3))
    c.check("centre maps to the view origin", (N, 3), lambda n, i: c.eq(to_view(c, R, T, n, c.vec(C, n))[int(i)], 0))
    w2v = cams.get_world_to_view_transform().transform_points(pts)
    c.check("world to view", (N, P, 3), lambda n, k, i: c.eq(c.g(w2v, n, k, i), to_view(c, R, T, n, c.vec(pts, n, k))[int(i)]))
    c.fact("perspective flag", cams.is_perspective() == (kind in ("fovp", "persp")))
    c.fact("ndc flag", cams.in_ndc() is True)


@contract("C04", "keyword arguments override the stored parameters in projection", fns(*KINDS), [dict(kind=k) for k in KINDS], tol=TOL)
def _(c, kind):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind in ("fovp", "persp"))
    cam, cam0 = Cam(c, kind, N), Cam(c, kind, N, "0")
    R0, T0 = pose(c, N, "0")
    cams = mk(kind, R=R0, T=T0, **cam0.p)
    out = cams.transform_points(pts, R=R, T=T, **cam.p)
    if kind == "fovp":
        c.same("degrees can be overridden", mk(kind, R=R0, T=T0, degrees=True, **cam0.p).transform_points(pts, R=R, T=T, degrees=False, **cam.p), out)
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), cam.project(n, to_view(c, R, T, n, c.vec(pts, n, k)))[int(i)]))


@contract("C04", "field of view in degrees", fns("fovp"), tol=TOL)
def _(c):
    N = c.dim("N")
    cam = Cam(c, "fovp", N)
    a = mk("fovp", **cam.p).get_projection_transform().get_matrix()
    q = dict(cam.p)
    q["fov"] = cam.p["fov"] * (180 / math.pi)
    c.same("degrees", mk("fovp", degrees=True, **q).get_projection_transform().get_matrix(), a)


@contract("C04", "a custom calibration matrix replaces the intrinsics", fns(*KINDS), [dict(kind=k, kw=w) for k in KINDS for w in (False, True)], tol=TOL)
def _(c, kind, kw):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    K = c.real("K", (N, 4, 4), F, 0.5, 2.0)
    pts = c.real("p", (N, P, 3), F, -0.3, 0.3)

    def hom(n, k):
        X = to_view(c, R, T, n, c.vec(pts, n, k)) + [1]
        return [sum(c.g(K, n, r, m) * X[m] for m in range(4)) for r in range(4)]
    c.require_all((N, P), lambda n, k: c.not_(c.eq(hom(n, k)[3], 0)))
    if kw:
        out = mk(kind, R=R, T=T).transform_points(pts, K=K)
    else:
        out = mk(kind, R=R, T=T, K=K).transform_points(pts)
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), hom(n, k)[int(i)] / hom(n, k)[3]))
    bad = c.real("Kb", (N, 3, 4), F)
    c.raises("wrong K shape", ValueError, lambda: mk(kind, R=R, T=T).transform_points(pts, K=bad))


UNP = [MOD + CLS[k] + ".unproject_points" for k in KINDS]


@contract("C04", "unprojecting a projected point with its depth returns the point", fns(*KINDS) + UNP,
          [dict(kind=k, world=w, override=o) for k in KINDS for w in (True, False) for o in (False, True)], tol=TOL, seconds=90)
def _(c, kind, world, override):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind in ("fovp", "persp"))
    cam = Cam(c, kind, N)
    if override:
        R0, T0 = pose(c, N, "0")
        cams, kw = mk(kind, R=R0, T=T0, **Cam(c, kind, N, "0").p), dict(R=R, T=T, **cam.p)
    else:
        cams, kw = mk(kind, R=R, T=T, **cam.p), {}
    X = c.tensor((N, P, 3), lambda n, k, i: _pick(c, to_view(c, R, T, n, c.vec(pts, n, k)), i), F)
    xyd = c.tensor((N, P, 3), lambda n, k, i: _pick(c, cam.project(n, c.vec(X, n, k))[:2] + [c.g(X, n, k, 2)], i), F)
    back = cams.unproject_points(xyd, world_coordinates=world, **kw)
    c.shape("shape", back, (N, P, 3))
    c.same("value", back, pts if world else X)
    if kind.startswith("fov"):
        # depth given in the normalised units of the projection
        xys = c.tensor((N, P, 3), lambda n, k, i: _pick(c, cam.project(n, c.vec(X, n, k)), i), F)
        back = cams.unproject_points(xys, world_coordinates=world, scaled_depth_input=True, **kw)
        c.same("scaled depth", back, pts if world else X)


def _pick(c, v, i):
    if type(i) is int:
        return v[i]
    r = v[-1]
    for k in range(len(v) - 2, -1, -1):
        r = c.ite(c.ieq(i, k), v[k], r)
    return r


@contract("C04", "unprojection accepts a plain list of points", fns(*KINDS) + UNP, [dict(kind=k) for k in KINDS], tol=TOL)
def _(c, kind):
    P = c.dim("P")
    R, T = pose(c, 1)
    pts = c.real("p", (P, 3), F, 1.0, 3.0)
    if c.sym:
        c.require_all((P,), lambda k: c.not_(c.eq(c.g(pts, k, 2), 0)))
    cam = Cam(c, kind, 1)
    cams = mk(kind, R=R, T=T, **cam.p)
    flat = cams.unproject_points(pts)
    c.shape("shape", flat, (P, 3))
    c.same("same as the batch of one", flat, cams.unproject_points(pts[None])[0])


# ------------------------------------------------------------------- NDC and screen
def size(c, N, n=None, tag=""):
    s = c.real("hw" + tag, (N if n is None else n, 2), F, 20.0, 60.0)
    c.require_all((N if n is None else n, 2), lambda i, k: 1 <= c.g(s, i, k))
    return s


def half(c, s, n):
    return c.min(c.g(s, n, 0), c.g(s, n, 1)) / 2


@contract("C04", "NDC to screen follows the image-size convention and is inverted by screen to NDC",
          [MOD + "get_ndc_to_screen_transform", MOD + "get_screen_to_ndc_transform", MOD + "CamerasBase.transform_points_screen"],
          [dict(flip=f, shared=s) for f in (True, False) for s in (False, True)], tol=TOL)
def _(c, flip, shared):
    N, P = c.dim("N"), c.dim("P")
    s = size(c, N, 1 if shared else None)
    pts = c.real("p", (N, P, 3), F)
    cams = CM.PerspectiveCameras(R=c.rotation("R", (N,), F), T=c.real("T", (N, 3), F))
    t = CM.get_ndc_to_screen_transform(cams, with_xyflip=flip, image_size=s)
    out = t.transform_points(pts)
    sg = -1 if flip else 1

    def want(n, k, i):
        n_ = 0 if shared else n
        if i == 2:
            return c.g(pts, n, k, 2)
        return sg * (c.g(pts, n, k, i) * half(c, s, n_) - c.g(s, n_, 1 - int(i)) / 2)
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), want(n, k, i)))
    back = CM.get_screen_to_ndc_transform(cams, with_xyflip=flip, image_size=s).transform_points(out)
    c.same("inverse", back, pts)
    c.raises("image size needed", ValueError, lambda: CM.get_ndc_to_screen_transform(cams, with_xyflip=flip))


@contract("C04", "screen points are the NDC points in pixels", fns(*KINDS) + [MOD + "CamerasBase.transform_points_screen", MOD + "CamerasBase.transform_points_ndc"],
          [dict(kind=k, flip=f) for k in KINDS for f in (True, False)], tol=TOL)
def _(c, kind, flip):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind in ("fovp", "persp"))
    cam = Cam(c, kind, N)
    s = size(c, N)
    cams = mk(kind, R=R, T=T, **cam.p)
    kw = {} if flip else dict(with_xyflip=False)
    out = cams.transform_points_screen(pts, image_size=s, **kw)
    ndc = cams.transform_points_ndc(pts)
    c.same("conversion", out, CM.get_ndc_to_screen_transform(cams, with_xyflip=flip, image_size=s).transform_points(ndc))
    if not kind.startswith("fov"):
        c.same("stored image size", mk(kind, R=R, T=T, image_size=s, **cam.p).transform_points_screen(pts, **kw), out)


def eqcam(c, kind, N, tag=""):
    """a screen-space camera and the NDC camera with the same pixels"""
    s = size(c, N, tag=tag)
    cam = Cam(c, kind, N, tag, screen=True)
    f, p = cam.p["focal_length"], cam.p["principal_point"]
    f2 = c.tensor((N, 2), lambda n, i: c.g(f, n, i) / half(c, s, n), F)
    # pixels: principal point measured right/down from the top-left corner
    p2 = c.tensor((N, 2), lambda n, i: (_pick(c, [c.g(s, n, 1), c.g(s, n, 0)], i) / 2 - c.g(p, n, i)) / half(c, s, n), F)
    return s, cam, dict(focal_length=f2, principal_point=p2)


@contract("C04", "a camera defined in screen space projects like the equivalent NDC camera",
          fns("persp", "ortho") + [MOD + CLS[k] + "." + m for k in ("persp", "ortho") for m in ("get_ndc_camera_transform", "get_principal_point")],
          [dict(kind=k, how=h) for k in ("persp", "ortho") for h in ("stored", "override")], tol=TOL)
def _(c, kind, how):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind == "persp")
    s, cam, q = eqcam(c, kind, N)
    b = mk(kind, R=R, T=T, image_size=s, **q)
    if how == "stored":
        a, kw = mk(kind, R=R, T=T, in_ndc=False, image_size=s, **cam.p), {}
    else:
        R0, T0 = pose(c, N, "0")
        a = mk(kind, R=R0, T=T0, in_ndc=False, image_size=size(c, N, tag="0"), **Cam(c, kind, N, "0", screen=True).p)
        kw = dict(R=R, T=T, image_size=s, **cam.p)
    c.same("principal point", a.get_principal_point(**kw), cam.p["principal_point"])
    c.fact("flag", a.in_ndc() is False)
    o = a.transform_points_ndc(pts, **kw)
    c.same("NDC", o, b.transform_points_ndc(pts))
    c.same("screen", a.transform_points_screen(pts, **kw), b.transform_points_screen(pts))
    X = b.get_world_to_view_transform().transform_points(pts)
    xyd = torch.cat([o[..., :2], X[..., 2:]], -1)
    c.same("unproject from NDC", a.unproject_points(xyd, from_ndc=True, **kw), pts)
    own = a.transform_points(pts, **kw)
    c.check("own space", (N, P, 3), lambda n, k, i: c.eq(c.g(own, n, k, i), cam.project(n, to_view(c, R, T, n, c.vec(pts, n, k)))[int(i)]))
    c.same("view coordinates from NDC", a.unproject_points(xyd, world_coordinates=False, from_ndc=True, **kw), X)


@contract("C04", "parameters broadcast over the batch and scalars are accepted", fns(*KINDS), [dict(kind=k) for k in KINDS], tol=TOL)
def _(c, kind):
    N, P = c.dim("N", lo=2), c.dim("P")
    R, T = pose(c, N)
    pts = points(c, N, P, R, T, kind in ("fovp", "persp"))
    cam = Cam(c, kind, N, n_par=1)
    cams = mk(kind, R=R, T=T, **cam.p)
    out = cams.transform_points(pts)
    c.shape("shape", out, (N, P, 3))
    c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), cam.project(0, to_view(c, R, T, n, c.vec(pts, n, k)))[int(i)]))


@contract("C04", "points shared by all cameras", fns("persp"), tol=TOL)
def _(c):
    N, P = c.dim("N"), c.dim("P")
    R, T = pose(c, N)
    pts = c.real("p", (P, 3), F, -1, 1)
    if c.sym:
        c.require_all((N, P), lambda n, k: c.not_(c.eq(to_view(c, R, T, n, c.vec(pts, k))[2], 0)))
    f = c.real("f", (N,), F, 0.5, 2)
    cams = CM.PerspectiveCameras(focal_length=f, R=R, T=T)
    out = cams.transform_points(pts)

    def want(n, k, i):
        X = to_view(c, R, T, n, c.vec(pts, k))
        return [c.g(f, n) * X[0] / X[2], c.g(f, n) * X[1] / X[2], 1 / X[2]][int(i)]
    if c.sym or N > 1:
        c.shape("shape", out, (N, P, 3)) if not c.sym else None
        c.check("value", (N, P, 3), lambda n, k, i: c.eq(c.g(out, n, k, i), want(n, k, i))) if len(out.shape) == 3 else None
