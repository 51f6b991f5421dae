"""C23: intersection volume and IoU of oriented boxes."""
import importlib
import itertools
import math
import torch
from vt.ctx import contract
from vt import gen
import pytorch3d.ops  # noqa

B = importlib.import_module("pytorch3d.ops.iou_box3d")
O = "pytorch3d.ops.iou_box3d."
F = torch.float32
NATIVE = True
UNIT = torch.tensor([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], dtype=torch.float64)
FACES = [[0, 1, 2, 3], [3, 2, 6, 7], [0, 1, 5, 4], [0, 3, 7, 4], [1, 2, 6, 5], [4, 5, 6, 7]]


# ------------------------------------------------ oracle: clipping of convex polyhedra in double precision
def polys(box):
    """faces of a hexahedron as lists of points"""
    return [[box[i] for i in f] for f in FACES]


def planes(box):
    ctr = box.mean(0)
    out = []
    for f in FACES:
        p = box[f]
        n = torch.linalg.cross(p[1] - p[0], p[2] - p[0])
        n = n / n.norm()
        d = float(n @ p.mean(0))
        s = 1.0 if float(n @ ctr) >= d else -1.0
        out.append((n * s, d * s))
    return out


def clip(faces, n, d, tol=1e-12):
    """the part of a convex polyhedron in the half-space n.x >= d"""
    out, cut = [], []
    for f in faces:
        g = []
        h = [float(n @ p) - d for p in f]
        for i, p in enumerate(f):
            j = (i + 1) % len(f)
            if h[i] >= -tol:
                g.append(p)
                if h[i] <= tol:
                    cut.append(p)
            if (h[i] > tol and h[j] < -tol) or (h[i] < -tol and h[j] > tol):
                q = p + (f[j] - p) * (h[i] / (h[i] - h[j]))
                g.append(q)
                cut.append(q)
        if len(g) >= 3:
            out.append(g)
    if len(cut) >= 3:
        m = torch.stack(cut)
        ctr = m.mean(0)
        a = torch.eye(3, dtype=torch.float64)[int(n.abs().argmin())]
        u = torch.linalg.cross(n, a)
        u = u / u.norm()
        w = torch.linalg.cross(n, u)
        ang = torch.atan2((m - ctr) @ w, (m - ctr) @ u)
        out.append([m[i] for i in ang.argsort().tolist()])
    return out


def volume(faces):
    if not faces:
        return 0.0
    o = torch.stack([p for f in faces for p in f]).mean(0)
    v = 0.0
    for f in faces:
        for i in range(1, len(f) - 1):
            v += abs(float(torch.dot(f[0] - o, torch.linalg.cross(f[i] - o, f[i + 1] - o)))) / 6
    return v


def overlap(a, b):
    f = polys(a)
    for n, d in planes(b):
        f = clip(f, n, d)
    # faces lying in one plane twice (a face of a in a plane of b) enclose no volume twice: volume of a hull by its own faces
    return hull_volume(f)


def hull_volume(faces):
    seen, out = [], []
    for f in faces:
        m = torch.stack(f)
        n = torch.zeros(3, dtype=torch.float64)
        for i in range(1, len(f) - 1):
            n = n + torch.linalg.cross(m[i] - m[0], m[i + 1] - m[0])
        if float(n.norm()) < 1e-12:
            continue
        n = n / n.norm()
        if any(float(torch.linalg.cross(n, k).norm()) < 1e-7 and abs(float(k @ (m[0] - q))) < 1e-7 for k, q in seen):
            continue
        seen.append((n, m[0]))
        out.append(f)
    return volume(out)


# ------------------------------------------------ generators
def rot(c, name):
    q = c.real(name, (4,), torch.float64)
    c.require(float(q.norm()) > 0.1)
    w, x, y, z = (q / q.norm()).tolist()
    return torch.tensor([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                         [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                         [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]], dtype=torch.float64)


def box(c, k, kind):
    if kind == "axis":
        lo = c.ints(f"lo{k}", (3,), -3, 3).double() * 0.5
        sz = c.ints(f"sz{k}", (3,), 1, 5).double() * 0.5
        return lo + UNIT * sz
    sz = c.real(f"sz{k}", (3,), torch.float64, 0.3, 2.0)
    b = (UNIT - 0.5) * sz
    if kind == "frustum":
        s = float(c.real(f"s{k}", (), torch.float64, 0.4, 1.0))
        sh = c.real(f"sh{k}", (2,), torch.float64, -0.3, 0.3)
        b[4:, :2] = b[4:, :2] * s + sh
    t = c.real(f"t{k}", (3,), torch.float64, -0.8, 0.8)
    b = b @ rot(c, f"r{k}").T + t
    return b


def general(a, b):
    """no face of one box nearly (but not exactly) parallel to a face of the other"""
    return all(float(torch.linalg.cross(n, m).norm()) > 0.1 for n, _ in planes(a) for m, _ in planes(b))


@contract("C23", "volume of the intersection and intersection over union", [O + "box3d_overlap"], [dict(kind=k) for k in ("cuboid", "frustum", "axis")], trials=250, seconds=60,
          bounded="up to 3 x 3 random boxes, edges of 0.3 to 2, faces parallel or more than 6 degrees apart")
def _(c, kind):
    if c.sym:
        return
    c.default(F)
    N, M = c.integer("N", 1, 4), c.integer("M", 1, 4)
    a = [box(c, f"a{i}", kind) for i in range(N)]
    b = [box(c, f"b{i}", kind) for i in range(M)]
    if kind == "axis":
        R = rot(c, "R") if c.boolean("turned") else torch.eye(3, dtype=torch.float64)
        a, b = [x @ R.T for x in a], [x @ R.T for x in b]
    x, y = torch.stack(a).float(), torch.stack(b).float()
    if kind != "axis":
        c.require(all(general(p, q) for p in a for q in b))
    keep = [c.unchanged("boxes untouched", t) for t in (x, y)]
    vol, iou = B.box3d_overlap(x, y)
    [k() for k in keep]
    c.fact("a matrix of pairs", tuple(vol.shape) == (N, M) and tuple(iou.shape) == (N, M))
    va, vb = [hull_volume(polys(p)) for p in a], [hull_volume(polys(p)) for p in b]
    for i, j in itertools.product(range(N), range(M)):
        if kind == "axis":
            p, q = a[i] @ R, b[j] @ R
            want = float((torch.minimum(p[6], q[6]) - torch.maximum(p[0], q[0])).clamp(min=0).prod())
        else:
            want = overlap(a[i], b[j])
        c.fact("volume", abs(float(vol[i, j]) - want) < 2e-3 * max(va[i], vb[j]))
        c.fact("over the union", abs(float(iou[i, j]) - want / (va[i] + vb[j] - want)) < 4e-3)
    v2, i2 = B.box3d_overlap(y, x)
    c.fact("symmetric", gen.close(v2.T, vol, 5e-3) and gen.close(i2.T, iou, 5e-3))
    if kind != "axis":
        Q, t = rot(c, "Q"), c.real("tq", (3,), torch.float64)
        v3, i3 = B.box3d_overlap((x.double() @ Q.T + t).float(), (y.double() @ Q.T + t).float())
        c.fact("the same after a common rigid motion", gen.close(v3, vol, 5e-3) and gen.close(i3, iou, 5e-3))


@contract("C23", "a box with itself", [O + "box3d_overlap"], [dict(kind=k) for k in ("cuboid", "frustum", "axis")], trials=200, seconds=30, bounded="random boxes")
def _(c, kind):
    if c.sym:
        return
    c.default(F)
    a = box(c, "a", kind)
    x = a.float()[None]
    vol, iou = B.box3d_overlap(x, x)
    want = hull_volume(polys(a))
    c.fact("its volume, and 1", abs(float(vol) - want) < 2e-3 * want and abs(float(iou) - 1) < 2e-3)
    s = float(c.real("s", (), torch.float64, 0.3, 0.9))
    ctr = a.mean(0)
    inner = ((a - ctr) * s + ctr).float()[None]
    vol, iou = B.box3d_overlap(x, inner)
    c.fact("a box inside", abs(float(vol) - want * s ** 3) < 2e-3 * want and abs(float(iou) - s ** 3) < 2e-3)
    far = x + torch.tensor([9.0, 0, 0])
    vol, iou = B.box3d_overlap(x, far)
    c.fact("disjoint", float(vol) == 0 and float(iou) == 0)


def signed(v):
    """signed distance of the fourth corner of every face to the plane of the other three"""
    return torch.stack([(v[f[3]] - v[f[0]]) @ (lambda n: n / n.norm())(torch.linalg.cross(v[f[1]] - v[f[0]], v[f[2]] - v[f[0]])) for f in FACES])


@contract("C23", "boxes that are not planar or are degenerate are rejected", [O + "_check_coplanar", O + "_check_nonzero", O + "box3d_overlap"], [dict(which=w) for w in ("first", "second")], trials=600, seconds=40,
          bounded="random boxes with up to all corners moved")
def _(c, which):
    if c.sym:
        return
    c.default(F)
    good = torch.stack([box(c, "g", "cuboid")]).float()
    k = c.integer("n", 1, 4)
    boxes = torch.stack([box(c, f"b{i}", "frustum") for i in range(k)])
    i = c.integer("i", 0, k)
    if c.boolean("bent"):
        d = c.real("d", (8, 3), torch.float64, -0.2, 0.2) * c.bools("moved", (8, 1)).double()
        if c.boolean("opposite deviations"):
            # far from planar although the signed deviations of the faces add up to nothing
            e = c.real("e", (8, 3), torch.float64, -0.1, 0.1)
            lo, hi = -2.0, 2.0
            f = lambda s: float(signed(boxes[i] + d + s * e).sum())
            c.require(f(lo) * f(hi) < 0)
            for _ in range(60):
                m = (lo + hi) / 2
                lo, hi = (m, hi) if f(m) * f(hi) < 0 else (lo, m)
            d = d + lo * e
        boxes[i] += d
        v = boxes[i].float().double()
        devs = signed(v).abs().tolist()
        c.require(not 2e-5 < max(devs) < 5e-4)
        bad = max(devs) > 1e-4
    else:
        ax = c.integer("ax", 0, 3)
        s = [1.0, 0.0, 1e-5][c.integer("s", 0, 3)]
        b = UNIT.clone() * 0.7
        b[:, ax] *= s
        boxes[i] = b
        bad = s < 1
    call = lambda: B.box3d_overlap(*((boxes.float(), good) if which == "first" else (good, boxes.float())))
    if bad:
        c.raises("rejected", (ValueError,), call)
    else:
        call()


@contract("C23", "arguments of other shapes are rejected", [O + "box3d_overlap"], trials=1, bounded="fixed arguments")
def _(c):
    if c.sym:
        return
    g = UNIT.float()[None]
    c.raises("corners", (ValueError,), lambda: B.box3d_overlap(g[:, :7], g))
    c.raises("coordinates", (ValueError,), lambda: B.box3d_overlap(g, g[..., :2]))
