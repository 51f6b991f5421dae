"""C24: lights, materials and the Phong, Gouraud and flat shading models."""
import torch
from vt.ctx import contract
from pytorch3d.renderer import lighting as LI
from pytorch3d.renderer import materials as MA
from pytorch3d.renderer.mesh import shading as SH
from pytorch3d.renderer.mesh.textures import TexturesVertex
from pytorch3d.renderer.utils import TensorProperties
from pytorch3d.renderer.mesh.rasterizer import Fragments

F = torch.float32
L = "pytorch3d.renderer.lighting."
S = "pytorch3d.renderer.mesh.shading."
UT = "pytorch3d.renderer.utils."
EPS = 1e-6
TOL = 2e-3


def unit(c, v, clamp=True):
    n = c.max(c.norm(v), EPS) if clamp else c.norm(v)
    return [x / n for x in v]


def dif(c, n, d, col):
    """light colour times the non-negative cosine"""
    k = c.max(c.dot(unit(c, n), unit(c, d)), 0)
    return [x * k for x in col]


def spec(c, p, n, d, col, cam, sh):
    n, d = unit(c, n), unit(c, d)
    k = c.dot(n, d)
    v = unit(c, [a - b for a, b in zip(cam, p)])
    r = [2 * k * a - b for a, b in zip(n, d)]
    # zero on the side facing away
    al = c.max(c.dot(v, r), 0) * c.ite(k > (0 if c.sym else 1e-7), 1.0, 0.0)
    w = c.pow(al, sh)
    return [x * w for x in col]


SHAPES = [dict(kind=k, b=b) for k in ("packed", "pixels", "batch") for b in ("N", "1")]


def dims(c, kind):
    N = c.dim("N")
    rest = {"packed": (), "pixels": tuple(c.dim(x, hi=2 if not c.sym else None) for x in "HWK"), "batch": (c.dim("P"),)}[kind]
    return N, rest


@contract("C24", "diffuse light is the colour times the non-negative cosine", [L + "diffuse", UT + "convert_to_tensors_and_broadcast"], SHAPES, tol=TOL)
def _(c, kind, b):
    c.default(F)
    N, rest = dims(c, kind)
    n = c.real("n", (N,) + rest + (3,), F)
    B = N if b == "N" else 1
    col, d = c.real("col", (B, 3), F, 0, 1), c.real("d", (B, 3), F)
    q = lambda k: k if b == "N" else 0
    keep = c.unchanged("normals untouched", n)
    out = LI.diffuse(n, col, d)
    keep()
    c.shape("shape", out, (N,) + rest + (3,))
    c.check("value", (N,) + rest + (3,), lambda k, *r: c.eq(c.g(out, k, *r), dif(c, c.vec(n, k, *r[:-1]), c.vec(d, q(k)), c.vec(col, q(k)))[int(r[-1])]))
    dd = c.real("dd", (N,) + rest + (3,), F)
    o2 = LI.diffuse(n, col, dd)
    c.check("one direction per point", (N,) + rest + (3,),
            lambda k, *r: c.eq(c.g(o2, k, *r), dif(c, c.vec(n, k, *r[:-1]), c.vec(dd, k, *r[:-1]), c.vec(col, q(k)))[int(r[-1])]))


@contract("C24", "specular light is the power of the cosine to the reflected direction", [L + "specular", UT + "convert_to_tensors_and_broadcast"], SHAPES, tol=TOL)
def _(c, kind, b):
    c.default(F)
    N, rest = dims(c, kind)
    n, p = c.real("n", (N,) + rest + (3,), F), c.real("p", (N,) + rest + (3,), F)
    B = N if b == "N" else 1
    col, d, cam, sh = c.real("col", (B, 3), F, 0, 1), c.real("d", (B, 3), F), c.real("cam", (B, 3), F, 2, 4), c.real("sh", (B,), F, 1, 9)
    q = lambda k: k if b == "N" else 0
    out = LI.specular(p, n, d, col, cam, sh)
    c.shape("shape", out, (N,) + rest + (3,))
    c.check("value", (N,) + rest + (3,), lambda k, *r: c.eq(c.g(out, k, *r), spec(c, c.vec(p, k, *r[:-1]), c.vec(n, k, *r[:-1]), c.vec(d, q(k)),
            c.vec(col, q(k)), c.vec(cam, q(k)), c.g(sh, q(k)))[int(r[-1])]))
    dd = c.real("dd", (N,) + rest + (3,), F)
    o2 = LI.specular(p, n, dd, col, cam, sh)
    c.check("one direction per point", (N,) + rest + (3,), lambda k, *r: c.eq(c.g(o2, k, *r), spec(c, c.vec(p, k, *r[:-1]), c.vec(n, k, *r[:-1]),
            c.vec(dd, k, *r[:-1]), c.vec(col, q(k)), c.vec(cam, q(k)), c.g(sh, q(k)))[int(r[-1])]))
    c.raises("shapes must agree", ValueError, lambda: LI.specular(p, c.real("m", (N,) + rest + (4,), F), d, col, cam, sh))


class Cam(TensorProperties):
    """a camera reduced to its centre (cameras: C04, C05)"""

    def __init__(self, center=((0.0, 0.0, 0.0),), device="cpu"):
        super().__init__(center=center, device=device)

    def clone(self):
        return super().clone(Cam())

    def get_camera_center(self):
        return self.center


class Lt:
    """a light of each kind with its documented terms"""

    def __init__(self, c, kind, B, tag=""):
        self.c, self.kind, self.one = c, kind, type(B) is int and B == 1
        if kind == "ambient":
            self.amb = c.real("la" + tag, (B, 3), F, 0, 1)
            self.obj = LI.AmbientLights(ambient_color=self.amb)
            return
        self.amb, self.d, self.s = (c.real(x + tag, (B, 3), F, 0, 1) for x in ("la", "ld", "ls"))
        self.x = c.real("lx" + tag, (B, 3), F, -2, 2)
        kw = {"location" if kind == "point" else "direction": self.x}
        self.obj = (LI.PointLights if kind == "point" else LI.DirectionalLights)(ambient_color=self.amb, diffuse_color=self.d, specular_color=self.s, **kw)

    def at(self, k):
        return 0 if self.one else k

    def dirn(self, k, p):
        v = self.c.vec(self.x, self.at(k))
        return [a - b for a, b in zip(v, p)] if self.kind == "point" else v

    def ambient(self, k):
        return self.c.vec(self.amb, self.at(k))

    def diffuse(self, k, p, n):
        return [0] * 3 if self.kind == "ambient" else dif(self.c, n, self.dirn(k, p), self.c.vec(self.d, self.at(k)))

    def specular(self, k, p, n, cam, sh):
        return [0] * 3 if self.kind == "ambient" else spec(self.c, p, n, self.dirn(k, p), self.c.vec(self.s, self.at(k)), cam, sh)


LIGHTS = [L + k + "." + m for k in ("PointLights", "DirectionalLights", "AmbientLights") for m in ("__init__", "diffuse", "specular")] \
    + [L + "PointLights.reshape_location", L + "AmbientLights._zeros_channels", L + "diffuse", L + "specular"]

@contract("C24", "lights light each point from their own direction", LIGHTS, [dict(kind=k, form=f, b=b) for k in ("point", "directional", "ambient")
          for f in ("pixels", "packed") for b in ("N", "1")], tol=TOL)
def _(c, kind, form, b):
    c.default(F)
    N, rest = dims(c, form)
    B = N if b == "N" else 1
    lt = Lt(c, kind, B)
    n, p = c.real("n", (N,) + rest + (3,), F), c.real("p", (N,) + rest + (3,), F)
    cam, sh = c.real("cam", (B, 3), F, 2, 4), c.real("sh", (B,), F, 1, 9)
    c.shape("ambient shape", lt.obj.ambient_color, (B, 3))
    c.check("ambient colour", (B, 3), lambda k, d: c.eq(c.g(lt.obj.ambient_color, k, d), c.g(lt.amb, k, d)))
    D = lt.obj.diffuse(normals=n, points=p)
    S_ = lt.obj.specular(normals=n, points=p, camera_position=cam, shininess=sh)
    if kind != "ambient":
        c.shape("diffuse shape", D, (N,) + rest + (3,))
        c.shape("specular shape", S_, (N,) + rest + (3,))
    z = torch.zeros_like(p)
    D, S_ = D + z, S_ + z      # ambient lights: broadcast to the points
    e = lambda k: lt.at(k)
    c.check("diffuse", (N,) + rest + (3,), lambda k, *r: c.eq(c.g(D, k, *r), lt.diffuse(k, c.vec(p, k, *r[:-1]), c.vec(n, k, *r[:-1]))[int(r[-1])]))
    c.check("specular", (N,) + rest + (3,), lambda k, *r: c.eq(c.g(S_, k, *r), lt.specular(k, c.vec(p, k, *r[:-1]), c.vec(n, k, *r[:-1]),
            c.vec(cam, e(k)), c.g(sh, e(k)))[int(r[-1])]))
    o = lt.obj.clone()
    c.same("clone ambient", o.ambient_color, lt.obj.ambient_color)
    if kind != "ambient":
        for k in ("diffuse_color", "specular_color", "location" if kind == "point" else "direction"):
            c.same("clone " + k, getattr(o, k), getattr(lt.obj, k))


class AnyLight(TensorProperties):
    """an arbitrary light: shading may use it through diffuse, specular, ambient_color, clone and gather_props only"""

    def __init__(self, device="cpu", **kw):
        super().__init__(device=device, **kw)

    def clone(self):
        o = super().clone(AnyLight())
        o.scene = self.scene
        return o


    def diffuse(self, normals, points):
        return self.scene.lit("diffuse", self, normals, points)

    def specular(self, normals, points, camera_position, shininess):
        return self.scene.lit("specular", self, normals, points, camera_position, shininess)


class Scene:
    """materials, camera and a light; symbolically the light is an arbitrary one (its diffuse and specular terms are
    arbitrary values and the arguments it is asked with are checked), on real runs one of the library's"""

    def __init__(self, c, kind, N, b="N", C=3):
        B = N if b == "N" else 1
        self.c, self.C, self.one, self.kind = c, C, type(B) is int and B == 1, kind
        self.ma, self.md, self.ms = (c.real(x, (B, C), F, 0, 1) for x in ("ma", "md", "ms"))
        self.sh = c.real("sh", (B,), F, 1, 9)
        self.mat = MA.Materials(ambient_color=self.ma, diffuse_color=self.md, specular_color=self.ms, shininess=self.sh)
        self.cen = c.real("cam", (B, 3), F, 2, 4)
        self.cam = Cam(center=self.cen)
        self.asked = {}
        if kind == "any":
            self.amb, self.key = c.real("la", (B, C), F, 0, 1), c.real("key", (B, 2), F)
            self.light = None
            self.obj = AnyLight(ambient_color=self.amb, key=self.key)
            self.obj.scene = self
        else:
            self.light = Lt(c, kind, B)
            self.amb, self.obj = self.light.amb, self.light.obj

    def __deepcopy__(self, memo):
        return self

    def lit(self, what, light, normals, points, cam=None, sh=None):
        c = self.c
        self.asked[what] = (light, normals, points, cam, sh)
        if c.sym:
            self.val = getattr(self, "val", {})
            v = c.real(what + "!lit", tuple(points.shape[:-1]) + (self.C,), F, 0, 1)
        else:
            u = torch.sin(3 * normals.sum(-1, keepdim=True) + points.sum(-1, keepdim=True) + (1 if what == "diffuse" else 2)) ** 2
            v = u * torch.arange(1, self.C + 1) / self.C
        self.asked[what + "!"] = v
        return v

    def consistent(self, shp, P, Nn, mesh=lambda i: i[0]):
        """the light was asked about the expected points and normals, with the light, camera and material of the mesh"""
        c, C = self.c, self.C
        for what in ("diffuse", "specular"):
            light, n, p, cam, sh = self.asked[what]
            c.shape(what + " asked normals shape", n, tuple(shp) + (3,))
            c.shape(what + " asked points shape", p, tuple(shp) + (3,))
            c.check(what + " asked normals", tuple(shp) + (3,), lambda *i: c.eq(c.g(n, *i), Nn(i[:-1])[int(i[-1])]))
            c.check(what + " asked points", tuple(shp) + (3,), lambda *i: c.eq(c.g(p, *i), P(i[:-1])[int(i[-1])]))
            props = [("light", light.key, self.key, 2)] + ([("camera", cam, self.cen, 3), ("shininess", sh, self.sh, None)] if what == "specular" else [])
            for lab, x, y, w in props:
                self.row(f"{what} {lab}", shp, x, y, w, mesh)

    def row(self, lab, shp, x, y, w, mesh):
        """x, broadcast against points of shape shp, holds at point i the row of y for i's mesh"""
        c = self.c
        single = type(x.shape[0]) is int and x.shape[0] == 1
        want = (1,) if self.one else (shp[0],)
        c.shape(lab + " shape", x, want + (() if w is None else (w,)))
        c.check(lab, tuple(shp) + (() if w is None else (w,)), lambda *i: c.eq(
            c.g(x, *((0,) if single else i[:1]), *(i[len(shp):])), c.g(y, *((0,) if self.one else (mesh(i),)), *(i[len(shp):]))))

    def terms(self, k, p, n, i):
        """ambient, diffuse and specular parts at point i of mesh k"""
        c, m = self.c, (0 if self.one else k)
        C = range(self.C)
        ml = lambda a, b: [x * y for x, y in zip(a, b)]
        col = lambda x: [c.g(x, m, d) for d in C]
        if self.light is None:
            D, S_ = ([c.g(self.asked[w + "!"], *i, d) for d in C] for w in ("diffuse", "specular"))
        else:
            D, S_ = self.light.diffuse(k, p, n), self.light.specular(k, p, n, c.vec(self.cen, m), c.g(self.sh, m))
        return ml(col(self.ma), col(self.amb)), ml(col(self.md), D), ml(col(self.ms), S_)


# the arbitrary light is proved; the library's own lights (proved above to be such lights) are also run end to end
KINDS = [dict(kind="any", b=b, C=C) for b in ("N", "1") for C in (3, 1)]
REAL = [dict(kind=k, b=b, C=3) for k in ("point", "directional", "ambient") for b in ("N", "1")]
RUNS = "real runs with the library's own lights"


def both(name, fns, body):
    contract("C24", name, fns, KINDS, tol=TOL)(body)
    contract("C24", name + " (library lights)", fns, REAL, tol=TOL, conc_only=True, bounded=RUNS)(body)


def _terms(c, kind, b, C, form):
    c.default(F)
    N, rest = dims(c, form)
    sc = Scene(c, kind, N, b, C)
    n, p = c.real("n", (N,) + rest + (3,), F), c.real("p", (N,) + rest + (3,), F)
    amb, d, s = SH._apply_lighting(p, n, sc.obj, sc.cam, sc.mat)
    z = torch.zeros_like(p[..., :C])
    for lab, x, j in (("ambient", amb, 0), ("diffuse", d, 1), ("specular", s, 2)):
        x = x + z      # each broadcasts to the points
        c.shape(lab + " shape", x, (N,) + rest + (C,))
        c.check(lab, (N,) + rest + (C,), lambda k, *r: c.eq(c.g(x, k, *r), sc.terms(k, c.vec(p, k, *r[:-1]), c.vec(n, k, *r[:-1]), (k,) + r[:-1])[j][int(r[-1])]))
    if kind == "any":
        sc.consistent((N,) + rest, lambda i: c.vec(p, *i), lambda i: c.vec(n, *i))


for _f in ("pixels", "packed"):
    both("lighting terms combine lights and materials, " + _f, [S + "_apply_lighting", "pytorch3d.renderer.materials.Materials.__init__"],
         lambda c, kind, b, C, form=_f: _terms(c, kind, b, C, form))


class Mesh:
    def __init__(self, c, N, C=3):
        self.N = N
        V, Fc = c.dim("V"), c.dim("F")
        self.V, self.Fn = V, Fc
        self.verts, self.vn, self.fn = c.real("verts", (V, 3), F), c.real("vn", (V, 3), F), c.real("fn", (Fc, 3), F)
        self.faces = c.ints("faces", (Fc, 3), 0, V)
        self.v2m = c.ints("v2m", (V,), 0, N)
        self.feat = c.real("feat", (V, C), F, 0, 1)
        self.textures = TexturesVertex.__new__(TexturesVertex)
        self.textures.verts_features_packed = lambda: self.feat

    verts_packed = lambda self: self.verts
    faces_packed = lambda self: self.faces
    verts_normals_packed = lambda self: self.vn
    faces_normals_packed = lambda self: self.fn
    verts_packed_to_mesh_idx = lambda self: self.v2m

    def __len__(self):
        return self.N


def interp(c):
    """contract of interpolate_face_attributes (C16)"""
    def f(p2f, bary, attrs):
        def v(n, h, w, k, d):
            p = c.g(p2f, n, h, w, k)
            return c.ite(p < 0, lambda: 0, lambda: c.dot([c.g(bary, n, h, w, k, j) for j in range(3)], [c.g(attrs, p, j, d) for j in range(3)]))
        return c.tensor(tuple(p2f.shape) + (attrs.shape[2],), v, F)
    return f


def frags(c, N, m):
    H, W, K = (c.dim(x, hi=None if c.sym else 2) for x in "HWK")
    p2f = c.ints("p2f", (N, H, W, K), -1, m.Fn)
    bary = c.real("bary", (N, H, W, K, 3), F, 0, 1)
    return (N, H, W, K, 3), Fragments(pix_to_face=p2f, bary_coords=bary, zbuf=None, dists=None)


def at(c, fr, i, f):
    """sum_j bary_j f(face, j); zero where no face was hit"""
    p = c.g(fr.pix_to_face, *i)
    return c.ite(p < 0, lambda: 0, lambda: c.dot([c.g(fr.bary_coords, *i, j) for j in range(3)], [f(p, j) for j in range(3)]))


class use:
    def __init__(self, c):
        self.cm = c.stub(S + "interpolate_face_attributes", interp(c)) if c.sym else None

    def __enter__(self):
        self.cm and self.cm.__enter__()

    def __exit__(self, *a):
        self.cm and self.cm.__exit__(*a)


def _phong(c, kind, b, C):
    c.default(F)
    N = c.dim("N", hi=None if c.sym else 3)
    m = Mesh(c, N)
    sc = Scene(c, kind, N, b, C)
    shp, fr = frags(c, N, m)
    tex = c.real("tex", shp[:-1] + (C,), F, 0, 1)
    with use(c):
        out = SH.phong_shading(m, fr, sc.obj, sc.cam, sc.mat, tex)
        asked = dict(sc.asked)
        out2, pix = SH._phong_shading_with_pixels(m, fr, sc.obj, sc.cam, sc.mat, tex)
    c.shape("shape", out, shp[:-1] + (C,))
    P = lambda i: [at(c, fr, i, lambda f, j: c.g(m.verts, c.g(m.faces, f, j), d)) for d in range(3)]
    Nn = lambda i: [at(c, fr, i, lambda f, j: c.g(m.vn, c.g(m.faces, f, j), d)) for d in range(3)]
    c.check("pixel points", shp, lambda *i: c.eq(c.g(pix, *i), P(i[:-1])[int(i[-1])]))

    def want(i):
        a, d, s = sc.terms(i[0], c.vec(pix, *i), Nn(i), i)
        return [(a[k] + d[k]) * c.g(tex, *i, k) + s[k] for k in range(C)]
    for lab, o, asked in (("", out, asked), (" with pixels", out2, sc.asked)):
        sc.asked = asked
        c.check("colours" + lab, shp[:-1] + (C,), lambda *i: c.eq(c.g(o, *i), want(i[:-1])[int(i[-1])]))
        if kind == "any":
            sc.consistent(shp[:-1], P, Nn)


both("Phong shading lights the interpolated point and normal", [S + "_phong_shading_with_pixels", S + "phong_shading", S + "_apply_lighting"], _phong)


def _flat(c, kind, b, C):
    c.default(F)
    N = c.dim("N", hi=None if c.sym else 3)
    m = Mesh(c, N)
    sc = Scene(c, kind, N, b, C)
    shp, fr = frags(c, N, m)
    tex = c.real("tex", shp[:-1] + (C,), F, 0, 1)
    keep = c.unchanged("fragments untouched", fr.pix_to_face)
    out = SH.flat_shading(m, fr, sc.obj, sc.cam, sc.mat, tex)
    keep()
    c.shape("shape", out, shp[:-1] + (C,))

    def hit(i, h):
        f = c.g(fr.pix_to_face, *i)
        return [c.ite(f < 0, lambda: 0, lambda: h(f, d)) for d in range(3)]
    P = lambda i: hit(i, lambda f, d: (c.g(m.verts, c.g(m.faces, f, 0), d) + c.g(m.verts, c.g(m.faces, f, 1), d) + c.g(m.verts, c.g(m.faces, f, 2), d)) / 3)
    Nn = lambda i: hit(i, lambda f, d: c.g(m.fn, f, d))

    def want(i):
        a, d, s = sc.terms(i[0], P(i), Nn(i), i)
        return [(a[k] + d[k]) * c.g(tex, *i, k) + s[k] for k in range(C)]
    c.check("colours", shp[:-1] + (C,), lambda *i: c.eq(c.g(out, *i), want(i[:-1])[int(i[-1])]))
    if kind == "any":
        sc.consistent(shp[:-1], P, Nn)


both("flat shading lights the face centroid with the face normal", [S + "flat_shading", S + "_apply_lighting"], _flat)


def _gouraud(c, kind, b, C, one):
    c.default(F)
    N = 1 if one else c.dim("N", lo=2, hi=None if c.sym else 3)
    m = Mesh(c, N, C)
    sc = Scene(c, kind, N, b, C)
    shp, fr = frags(c, N, m)
    with use(c):
        out = SH.gouraud_shading(m, fr, sc.obj, sc.cam, sc.mat)
    c.shape("shape", out, shp[:-1] + (C,))
    mesh = lambda i: 0 if one else c.g(m.v2m, i[0])

    def vcol(v, k):
        a, d, s = sc.terms(mesh((v,)), c.vec(m.verts, v), c.vec(m.vn, v), (v,))
        return c.g(m.feat, v, k) * (a[k] + d[k]) + s[k]
    c.check("colours", shp[:-1] + (C,), lambda *i: c.eq(c.g(out, *i), at(c, fr, i[:-1], lambda f, j: vcol(c.g(m.faces, f, j), int(i[-1])))))
    if kind == "any":
        sc.consistent((m.V,), lambda i: c.vec(m.verts, *i), lambda i: c.vec(m.vn, *i), mesh)
    m.textures = object()
    c.raises("only vertex textures", ValueError, lambda: SH.gouraud_shading(m, fr, sc.obj, sc.cam, sc.mat))


for _o in (False, True):
    both("Gouraud shading interpolates lit vertex colours, " + ("one mesh" if _o else "several meshes"),
         [S + "gouraud_shading", S + "_apply_lighting", UT + "TensorProperties.gather_props", UT + "TensorProperties.clone"],
         lambda c, kind, b, C, one=_o: _gouraud(c, kind, b, C, one))


@contract("C24", "lights and materials reject colours of the wrong size", [L + "_validate_light_properties", "pytorch3d.renderer.materials.Materials.__init__"], tol=TOL)
def _(c):
    N = c.dim("N", lo=2)
    bad, ok = c.real("bad", (N, 4), F), c.real("ok", (N, 3), F)
    for kw in ("ambient_color", "diffuse_color", "specular_color"):
        c.raises("point " + kw, ValueError, lambda: LI.PointLights(**{kw: bad}))
        c.raises("directional " + kw, ValueError, lambda: LI.DirectionalLights(**{kw: bad}))
        c.raises("materials " + kw, ValueError, lambda: MA.Materials(**{kw: bad}))
    c.raises("location", ValueError, lambda: LI.PointLights(location=bad))
    c.raises("direction", ValueError, lambda: LI.DirectionalLights(direction=bad))
    c.raises("shininess", ValueError, lambda: MA.Materials(ambient_color=ok, shininess=ok))
