"""C05: camera placement and conversion to other camera conventions."""
import math
import torch
from vt.ctx import contract
from pytorch3d.renderer import cameras as CM
from pytorch3d.renderer import camera_utils as CU
from pytorch3d.renderer import camera_conversions as CC
from pytorch3d.utils import camera_conversions as UC
from pytorch3d.transforms import matrix_to_rotation_6d

F = torch.float32
MOD = "pytorch3d.renderer.cameras."
U = "pytorch3d.renderer.camera_utils."
V = "pytorch3d.renderer.camera_conversions."
UT = "pytorch3d.renderer.utils."
TOL = 3e-3


def pick(c, v, i):
    if type(i) is int:
        return v[i]
    r = v[-1]
    for k in range(len(v) - 2, -1, -1):
        r = c.ite(c.ieq(i, k), v[k], r)
    return r


def frame(c, N, near=False):
    """an arbitrary camera frame: axes Q (columns x, y, z), a target at distance d on
    the z axis and an up vector with positive component along y"""
    Q = c.rotation("Q", (N,), F)
    C = c.real("C", (N, 3), F)
    d = c.real("d", (N,), F, 0.5, 3.0)
    a = c.real("a", (N,), torch.float64 if near else F, 0.3, 2.0) if not near else c.real("a", (N,), F, 1e-10 * 5, 4e-8)
    b = c.real("b", (N,), F, -1.0, 1.0)
    lo = 1e-10 if near else 1e-5
    if c.sym:
        c.require_all((N,), lambda n: c.and_(c.le(1e-5, c.g(d, n)), c.le(lo, c.g(a, n)), c.le(c.g(a, n), 5e-8) if near else True))
    at = c.tensor((N, 3), lambda n, i: c.g(C, n, i) + c.g(d, n) * c.g(Q, n, i, 2), F)
    up = c.tensor((N, 3), lambda n, i: c.g(a, n) * c.g(Q, n, i, 1) + c.g(b, n) * c.g(Q, n, i, 2), F)
    e = 5e-3
    if c.sym and not near:
        c.apply("a unit vector is not close to zero", (N,), lambda x, y, z: c.eq(x * x + y * y + z * z, 1),
                lambda x, y, z: c.not_(c.and_(*[c.le(c.abs(v), e) for v in (x, y, z)])), lambda n: [c.g(Q, n, i, 0) for i in range(3)])
    return Q, C, d, at, up


LOOK = [MOD + "look_at_rotation", UT + "convert_to_tensors_and_broadcast", UT + "format_tensor"]


@contract("C05", "look-at rotation is the frame looking from the camera to the target", LOOK, tol=TOL, seconds=100)
def _(c):
    c.default(F)
    N = c.dim("N")
    Q, C, d, at, up = frame(c, N)
    R = CM.look_at_rotation(C, at=at, up=up)
    c.shape("shape", R, (N, 3, 3))
    c.check("axes", (N, 3, 3), lambda n, i, j: c.eq(c.g(R, n, i, j), c.g(Q, n, i, j)))


@contract("C05", "look-at rotation when up is almost the viewing direction", LOOK, tol=TOL, seconds=60)
def _(c):
    # camera axes along the world axes: float32 holds the tiny offset only there
    c.default(F)
    N = c.dim("N")
    C = c.tensor((N, 3), lambda n, i: 0, F)
    d = c.real("d", (N,), F, 0.5, 3.0)
    a = c.real("a", (N,), F, 5e-10, 4e-8)
    if c.sym:
        c.require_all((N,), lambda n: c.and_(c.le(1e-5, c.g(d, n)), c.le(1e-10, c.g(a, n)), c.le(c.g(a, n), 5e-8)))
    at = c.tensor((N, 3), lambda n, i: pick(c, [0, 0, c.g(d, n)], i), F)
    up = c.tensor((N, 3), lambda n, i: pick(c, [0, c.g(a, n), 1], i), F)
    R = CM.look_at_rotation(C, at=at, up=up)
    c.check("axes", (N, 3, 3), lambda n, i, j: c.eq(c.g(R, n, i, j), 1 if i == j else 0))


@contract("C05", "look-at view transform sends the camera to the origin and the target ahead",
          LOOK + [MOD + "look_at_view_transform"], [dict(how=h) for h in ("eye", "spherical", "spherical_deg")], tol=TOL, seconds=100)
def _(c, how):
    c.default(F)
    N = c.dim("N")
    if how == "eye":
        Q, C, d, at, up = frame(c, N)
        if c.sym:
            # look_at_rotation through its contract (above): called on these arguments it returns Q
            args = []

            def look(*a, **k):
                args.extend(list(a) + [k[n] for n in ("at", "up") if n in k])
                return Q
            with c.stub(MOD + "look_at_rotation", look):
                R, T = CM.look_at_view_transform(eye=C, at=at, up=up)
            c.fact("look_at_rotation is called once", len(args) == 3)
            for n, (x, y) in enumerate(zip(args, (C, at, up))):
                c.same(f"look_at_rotation argument {n}", x, y)
        else:
            R, T = CM.look_at_view_transform(eye=C, at=at, up=up)
        c.check("rotation", (N, 3, 3), lambda n, i, j: c.eq(c.g(R, n, i, j), c.g(Q, n, i, j)))
    else:
        dist, el, az = c.real("dist", (N,), F, 0.5, 3), c.real("el", (N,), F, -1.2, 1.2), c.real("az", (N,), F, -3, 3)
        at, up = c.real("at", (N, 3), F), c.real("up", (N, 3), F)
        deg = how == "spherical_deg"
        R, T = CM.look_at_view_transform(dist=dist, elev=el, azim=az, degrees=deg, at=at, up=up)
        P = CM.camera_position_from_spherical_angles(dist, el, az, degrees=deg)
        C = P + at
        c.same("rotation", R, CM.look_at_rotation(C, at=at, up=up))
        if c.sym:
            R = c.real("Rany", (N, 3, 3), F)
            with c.stub(MOD + "look_at_rotation", lambda *a, **k: R):
                _, T = CM.look_at_view_transform(dist=dist, elev=el, azim=az, degrees=deg, at=at, up=up)
    c.shape("T", T, (N, 3))
    out = lambda n, X: [c.dot(X, [c.g(R, n, m, i) for m in range(3)]) + c.g(T, n, i) for i in range(3)]
    c.check("camera to origin", (N, 3), lambda n, i: c.eq(out(n, c.vec(C, n))[int(i)], 0))
    if how == "eye":
        c.check("target ahead", (N, 3), lambda n, i: c.eq(out(n, c.vec(at, n))[int(i)], [0, 0, c.g(d, n)][int(i)]))
    if how == "eye":
        eye2 = c.real("e2", (N, 3), F)
        if not c.sym:
            r1 = CM.look_at_view_transform(dist=c.real("dd", (N,), F), eye=C, at=at, up=up)
            c.same("eye wins over angles", r1[1], T)


@contract("C05", "spherical placement", [MOD + "camera_position_from_spherical_angles"] + LOOK[1:], [dict(deg=d) for d in (True, False)], tol=TOL)
def _(c, deg):
    c.default(F)
    N = c.dim("N")
    dist, el, az = c.real("dist", (N,), F, 0.5, 3), c.real("el", (N,), F, -1.2, 1.2), c.real("az", (N,), F, -3, 3)
    k = math.pi / 180 if deg else 1
    P = CM.camera_position_from_spherical_angles(dist, el, az, degrees=deg)
    c.shape("shape", P, (N, 3))
    kk = c.pi / 180 if deg else 1

    def want(n):
        r, e, a = c.g(dist, n), c.g(el, n) * kk, c.g(az, n) * kk
        return [r * c.cos(e) * c.sin(a), r * c.sin(e), r * c.cos(e) * c.cos(a)]
    c.check("value", (N, 3), lambda n, i: c.eq(c.g(P, n, i), want(n)[int(i)]))
    c.check("distance", (N,), lambda n: c.eq(c.dot(c.vec(P, n), c.vec(P, n)), c.g(dist, n) * c.g(dist, n)))
    one = CM.camera_position_from_spherical_angles(1.5, el, 0.0, degrees=deg)
    c.check("scalars broadcast", (N,), lambda n: c.and_(c.eq(c.g(one, n, 0), 0), c.eq(c.g(one, n, 1), 1.5 * c.sin(c.g(el, n) * kk))))
    if deg:
        c.same("degrees by default", CM.camera_position_from_spherical_angles(dist, el, az), P)


@contract("C05", "world-to-view rejects inconsistent shapes", [MOD + "get_world_to_view_transform"], tol=TOL)
def _(c):
    N = c.dim("N", lo=2)
    R, T = c.rotation("R", (N,), F), c.real("T", (N, 3), F)
    c.raises("batch", ValueError, lambda: CM.get_world_to_view_transform(R, T[:1]))
    c.raises("T dim", ValueError, lambda: CM.get_world_to_view_transform(R, c.real("T2", (N, 2), F)))
    c.raises("R dim", ValueError, lambda: CM.get_world_to_view_transform(c.real("R2", (N, 3, 2), F), T))
    P = c.dim("P")
    X = c.real("X", (N, P, 3), F)
    Y = CM.get_world_to_view_transform(R, T).transform_points(X)
    c.check("X R + T", (N, P, 3), lambda n, k, i: c.eq(c.g(Y, n, k, i), c.dot(c.vec(X, n, k), [c.g(R, n, m, i) for m in range(3)]) + c.g(T, n, i)))


@contract("C05", "eye, at and up recreate the camera", [U + "camera_to_eye_at_up"], tol=TOL, seconds=100)
def _(c):
    c.default(F)
    N = c.dim("N")
    R, T = c.rotation("R", (N,), F), c.real("T", (N, 3), F)
    eye, at, up = CU.camera_to_eye_at_up(CM.get_world_to_view_transform(R, T))
    c.check("eye", (N, 3), lambda n, i: c.eq(c.dot(c.vec(eye, n), [c.g(R, n, m, i) for m in range(3)]) + c.g(T, n, i), 0))
    c.check("at", (N, 3), lambda n, i: c.eq(c.g(at, n, i) - c.g(eye, n, i), c.g(R, n, i, 2)))
    c.check("up", (N, 3), lambda n, i: c.eq(c.g(up, n, i), c.g(R, n, i, 1)))
    if not c.sym:
        R2, T2 = CM.look_at_view_transform(eye=eye, at=at, up=up)
        c.same("R", R2, R)
        c.same("T", T2, T)


@contract("C05", "rotating on the spot keeps the camera centre", [U + "rotate_on_spot"], [dict(one=o) for o in ("N", "1", "flat")], tol=TOL)
def _(c, one):
    N = c.dim("N", lo=2)
    R, T = c.rotation("R", (N,), F), c.real("T", (N, 3), F)
    Q = c.rotation("Q", (N,) if one == "N" else (1,), F)
    R2, T2 = CU.rotate_on_spot(R, T, Q[0] if one == "flat" else Q)
    c.shape("R shape", R2, (N, 3, 3))
    c.shape("T shape", T2, (N, 3))
    q = lambda n: n if one == "N" else 0
    c.check("rotation", (N, 3, 3), lambda n, i, j: c.eq(c.g(R2, n, i, j), c.dot(c.vec(R, n, i), c.vec(Q, q(n), j))))
    # centre: x R + T = 0  <=>  x = -T R^T
    cen = lambda R, T, n: [-c.dot(c.vec(T, n), c.vec(R, n, i)) for i in range(3)]
    c.check("centre", (N, 3), lambda n, i: c.eq(cen(R2, T2, n)[int(i)], cen(R, T, n)[int(i)]))
    if one == "flat":
        R3, T3 = CU.rotate_on_spot(R[0], T[0], Q[0])
        c.check("unbatched", (1, 3, 3), lambda n, i, j: c.eq(c.g(R3, n, i, j), c.g(R2, n, i, j)))
        c.check("unbatched T", (1, 3), lambda n, i: c.eq(c.g(T3, n, i), c.g(T2, n, i)))
        c.raises("R", ValueError, lambda: CU.rotate_on_spot(c.real("B", (N, 3, 2), F), T, Q))
        c.raises("T", ValueError, lambda: CU.rotate_on_spot(R, c.real("B2", (N, 2), F), Q))
        c.raises("rotation", ValueError, lambda: CU.rotate_on_spot(R, T, c.real("B3", (N, 3, 2), F)))


def opencv(c, N):
    # the formulas hold for any matrix R; the real runs use rotations
    R, T = c.real("R", (N, 3, 3), F) if c.sym else c.rotation("R", (N,), F), c.real("T", (N, 3), F, 4.0, 6.0)
    f = c.real("f", (N, 2), F, 20.0, 60.0)
    p = c.real("p", (N, 2), F, 10.0, 40.0)
    K = c.tensor((N, 3, 3), lambda n, i, j: pick(c, [pick(c, [c.g(f, n, 0), 0, c.g(p, n, 0)], j), pick(c, [0, c.g(f, n, 1), c.g(p, n, 1)], j),
                                                     pick(c, [0, 0, 1], j)], i), F)
    s = c.real("hw", (N, 2), F, 20.0, 60.0)
    c.require_all((N, 2), lambda n, k: 1 <= c.g(s, n, k))
    return R, T, f, p, K, s


@contract("C05", "cameras from OpenCV project to the same pixels", [V + "_cameras_from_opencv_projection", "pytorch3d.utils.camera_conversions.cameras_from_opencv_projection"], tol=TOL, seconds=100)
def _(c):
    c.default(F)
    N, P = c.dim("N"), c.dim("P")
    R, T, f, p, K, s = opencv(c, N)
    u1, u2, u3 = c.unchanged("R untouched", R), c.unchanged("T untouched", T), c.unchanged("K untouched", K)
    cams = UC.cameras_from_opencv_projection(R, T, K, s)
    u1(), u2(), u3()
    X = c.real("X", (N, P, 3), F, -1, 1)
    cv = lambda n, k: [c.dot(c.vec(R, n, i), c.vec(X, n, k)) + c.g(T, n, i) for i in range(3)]
    if c.sym:
        c.require_all((N, P), lambda n, k: c.not_(c.eq(cv(n, k)[2], 0)))
    out = cams.transform_points_screen(X)
    c.check("pixels", (N, P, 2), lambda n, k, i: c.eq(c.g(out, n, k, i), c.g(f, n, i) * pick(c, cv(n, k), i) / cv(n, k)[2] + c.g(p, n, i)))
    w = cams.get_world_to_view_transform().transform_points(X)
    c.check("depth", (N, P), lambda n, k: c.eq(c.g(w, n, k, 2), cv(n, k)[2]))
    c.same("image size", cams.get_image_size(), s)


@contract("C05", "conversion to OpenCV inverts conversion from OpenCV", [V + "_cameras_from_opencv_projection", V + "_opencv_from_cameras_projection",
          "pytorch3d.utils.camera_conversions.opencv_from_cameras_projection"], [dict(d=d) for d in ("cv", "p3d")], tol=TOL)
def _(c, d):
    c.default(F)
    N = c.dim("N")
    R, T, f, p, K, s = opencv(c, N)
    if d == "cv":
        R2, T2, K2 = UC.opencv_from_cameras_projection(UC.cameras_from_opencv_projection(R, T, K, s), s)
        c.same("R", R2, R)
        c.same("T", T2, T)
        c.same("K", K2, K)
    else:
        cams = CM.PerspectiveCameras(R=R, T=T, focal_length=f, principal_point=p, image_size=s)
        u1, u2 = c.unchanged("R untouched", R), c.unchanged("T untouched", T)
        r = UC.opencv_from_cameras_projection(cams, s)
        u1(), u2()
        back = UC.cameras_from_opencv_projection(*r, s)
        c.same("R", back.R, R)
        c.same("T", back.T, T)
        c.same("focal", back.focal_length, f)
        c.same("principal point", back.principal_point, p)


@contract("C05", "conversion to Pulsar cameras", [V + "_pulsar_from_opencv_projection", V + "_pulsar_from_cameras_projection"], tol=TOL)
def _(c):
    c.default(F)
    N = c.dim("N")
    R, T, f, p, K, s0 = opencv(c, N)
    h, w = c.scalar("h", 20.0, 60.0), c.scalar("w", 20.0, 60.0)
    c.require(1 <= h)
    c.require(1 <= w)
    s = c.tensor((N, 2), lambda n, i: pick(c, [h, w], i), F)
    prm = UC.pulsar_from_opencv_projection(R, T, K, s, znear=0.1)
    c.shape("shape", prm, (N, 13))
    six = matrix_to_rotation_6d(R.permute(0, 2, 1))
    c.check("position", (N, 3), lambda n, i: c.eq(c.g(prm, n, i), -c.dot([c.g(R, n, m, i) for m in range(3)], c.vec(T, n))))
    c.check("rotation", (N, 6), lambda n, i: c.eq(c.g(prm, n, int(i) + 3), c.g(six, n, i)))
    fl = 0.1 - 1e-5
    c.check("focal", (N,), lambda n: c.eq(c.g(prm, n, 9), fl))
    c.check("sensor", (N,), lambda n: c.eq(c.g(prm, n, 10) * (c.g(f, n, 0) + c.g(f, n, 1)) / 2, fl * w))
    c.check("offset x", (N,), lambda n: c.eq(c.g(prm, n, 11), w / 2 - c.g(p, n, 0)))
    c.check("offset y", (N,), lambda n: c.eq(c.g(prm, n, 12), c.g(p, n, 1) - h / 2))
    cams = UC.cameras_from_opencv_projection(R, T, K, s)
    c.same("through cameras", UC.pulsar_from_cameras_projection(cams, s), UC.pulsar_from_opencv_projection(R, T, K, s))


CLS = [CM.FoVPerspectiveCameras, CM.FoVOrthographicCameras, CM.PerspectiveCameras, CM.OrthographicCameras]


def batch(c, cls, N, tag, ndc=True):
    R, T = c.rotation("R" + tag, (N,), F), c.real("T" + tag, (N, 3), F)
    kw = dict(R=R, T=T)
    if cls is CM.FoVPerspectiveCameras:
        kw.update(fov=c.real("fov" + tag, (N,), F, 0.4, 2), znear=c.real("zn" + tag, (N,), F, 0.5, 1), zfar=c.real("zf" + tag, (N,), F, 5, 9),
                  aspect_ratio=c.real("ar" + tag, (N,), F, 0.5, 2), degrees=ndc)
    elif cls is CM.FoVOrthographicCameras:
        kw.update(znear=c.real("zn" + tag, (N,), F, 0.5, 1), zfar=c.real("zf" + tag, (N,), F, 5, 9), scale_xyz=c.real("sc" + tag, (N, 3), F, 0.5, 2))
        for m in ("min_x", "min_y"):
            kw[m] = c.real(m + tag, (N,), F, -2, -0.5)
        for m in ("max_x", "max_y"):
            kw[m] = c.real(m + tag, (N,), F, 0.5, 2)
    else:
        kw.update(focal_length=c.real("fl" + tag, (N, 2), F, 0.5, 2), principal_point=c.real("pp" + tag, (N, 2), F), in_ndc=ndc)
        s = c.real("hw" + tag, (N, 2), F, 20, 40)
        c.require_all((N, 2), lambda n, k: 1 <= c.g(s, n, k))
        kw["image_size"] = s
    return kw


@contract("C05", "joining and indexing camera batches keeps every parameter",
          [U + "join_cameras_as_batch", MOD + "CamerasBase.__getitem__", MOD + "CamerasBase.clone", "pytorch3d.renderer.utils.TensorProperties.__init__",
           "pytorch3d.renderer.utils.TensorProperties.clone"],
          [dict(k=k, ndc=n) for k in range(4) for n in (True, False)], tol=TOL)
def _(c, k, ndc):
    cls = CLS[k]
    N, M = c.dim("N"), c.dim("M")
    a, b = batch(c, cls, N, "a", ndc), batch(c, cls, M, "b", ndc)
    A, B = cls(**a), cls(**b)
    J = CU.join_cameras_as_batch([A, B])
    c.fact("type", type(J) is cls)
    I = A[0]
    L = A[[0, -1, 0]]
    cl = A.clone()
    for nm, v in a.items():
        if isinstance(v, bool):
            at = "degrees" if nm == "degrees" else "_in_ndc"
            for lab, x in (("joined", J), ("cloned", cl)):
                c.fact(f"{lab} {nm}", getattr(x, at) is v)
            if nm != "degrees" or True:
                c.fact("indexed " + nm, getattr(I, at) is v)
            continue
        w = b[nm]
        j = getattr(J, nm)
        c.check("joined " + nm, (N + M,) + tuple(v.shape[1:]), lambda n, *r: c.eq(c.g(j, n, *r), c.ite(n < N, lambda: c.g(v, n, *r), lambda: c.g(w, n - N, *r))))
        c.same("cloned " + nm, getattr(cl, nm), v)
        i0 = getattr(I, nm)
        c.check("indexed " + nm, (1,) + tuple(v.shape[1:]), lambda n, *r: c.eq(c.g(i0, n, *r), c.g(v, 0, *r)))
        l0 = getattr(L, nm)
        c.check("list " + nm, (3,) + tuple(v.shape[1:]), lambda n, *r: c.eq(c.g(l0, n, *r), c.g(v, N - 1 if int(n) == 1 else 0, *r)))
    c.raises("out of bounds", IndexError, lambda: A[[N]])
    o = CLS[(k + 1) % 4](**batch(c, CLS[(k + 1) % 4], M, "z", ndc))
    c.raises("mixed types", ValueError, lambda: CU.join_cameras_as_batch([A, o]))
    if k != 1:
        o = cls(**batch(c, cls, M, "y", not ndc))
        c.raises("shared fields must agree", ValueError, lambda: CU.join_cameras_as_batch([A, o]))


@contract("C05", "indexing by tensors and masks", [MOD + "CamerasBase.__getitem__"], [dict(k=k) for k in range(4)], tol=TOL, conc_only=True,
          bounded="random index tensors and masks")
def _(c, k):
    cls = CLS[k]
    c.default(F)
    N = c.dim("N")
    a = batch(c, cls, N, "a")
    A = cls(**a)
    idx = c.ints("idx", (c.dim("K"),), 0, N)
    m = c.bools("m", (N,))
    X, Y = A[idx], A[m] if bool(m.any()) else None
    for nm, v in a.items():
        if torch.is_tensor(v):
            c.same("long " + nm, getattr(X, nm), v[idx])
            if Y is not None:
                c.same("mask " + nm, getattr(Y, nm), v[m])
    c.raises("mask length", ValueError, lambda: A[torch.ones(N + 1, dtype=torch.bool)])
    c.raises("float index", ValueError, lambda: A[torch.zeros(1)])
    c.raises("bool list", ValueError, lambda: A[[True]])


@contract("C05", "inputs are converted and broadcast to a common batch", LOOK[1:], tol=TOL)
def _(c):
    N = c.dim("N", lo=2)
    x, y, s = c.real("x", (N, 3), F), c.real("y", (1, 2), F), c.scalar("s")
    a, b, d, e = CM.convert_to_tensors_and_broadcast(x, y, s, ((1.0, 2.0),))
    c.same("full", a, x)
    c.check("row", (N, 2), lambda n, i: c.eq(c.g(b, n, i), c.g(y, 0, i)))
    c.check("scalar", (N,), lambda n: c.eq(c.g(d, n), s))
    c.check("tuple", (N, 2), lambda n, i: c.eq(c.g(e, n, i), [1.0, 2.0][int(i)]))
    c.shape("shapes", b, (N, 2))
    z = c.real("z", (N + 1, 2), F)
    c.raises("not broadcastable", ValueError, lambda: CM.convert_to_tensors_and_broadcast(x, z))
