"""C21: saving and loading meshes and point clouds (real files in a scratch directory)."""
import contextlib
import importlib
import io
import os
import shutil
import struct
import tempfile
import warnings
from pathlib import Path
import torch
from vt.ctx import contract
import pytorch3d.io  # noqa
from pytorch3d.structures import Meshes, Pointclouds
from pytorch3d.renderer import TexturesVertex, TexturesUV, TexturesAtlas

IO = importlib.import_module("pytorch3d.io").IO
OBJ = importlib.import_module("pytorch3d.io.obj_io")
PLY = importlib.import_module("pytorch3d.io.ply_io")
OFF = importlib.import_module("pytorch3d.io.off_io")
F = torch.float32
FO = ["pytorch3d.io.obj_io._parse_obj", "pytorch3d.io.obj_io._parse_face", "pytorch3d.io.obj_io._format_faces_indices", "pytorch3d.io.obj_io._load_obj"]
FP = ["pytorch3d.io.ply_io._load_ply", "pytorch3d.io.ply_io._get_verts", "pytorch3d.io.ply_io._load_ply_raw_stream"]
FF = ["pytorch3d.io.off_io._load_off_stream", "pytorch3d.io.off_io._read_verts", "pytorch3d.io.off_io._read_faces"]
WARN = "invalid indices"


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vt_c21_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(thunk):
    """value, messages of the warnings"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = thunk()
    return r, [str(x.message) for x in w]


def pick(c, name, options):
    return options[c.integer(name, 0, len(options))]


def tensor(c, name, n, k, lo=-30.0, hi=30.0):
    return c.real(name, (n, k), F, lo, hi)


def near(a, b, tol):
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    return tuple(a.shape) == tuple(b.shape) and (a.numel() == 0 or bool(((a.double() - b.double()).abs() <= tol).all()))


def same(a, b):
    return near(a, b, 0.0)


# ------------------------------------------------------------------------------------------------ OBJ
@contract("C21", "save_obj / load_obj", fns=["pytorch3d.io.obj_io.save_obj", "pytorch3d.io.obj_io._save", "pytorch3d.io.obj_io._write_faces"] + FO,
          bounded="meshes with up to 6 vertices and 7 faces, with and without normals and texture, 0 to 8 decimal places", trials=60, seconds=60,
          cases=[dict(nrm=n, tex=t) for n in (0, 1) for t in (0, 1)])
def _obj(c, nrm, tex):
    if c.sym:
        return
    c.default(F)
    V, Fn = c.dim("V", 1, 6), c.dim("F", 1, 7)
    verts, faces = tensor(c, "verts", V, 3), c.ints("faces", (Fn, 3), 0, V)
    dp = pick(c, "dp", [None, 1, 3, 6, 8])
    tol = 0.5001 * 10.0 ** -(6 if dp is None else dp) + 4e-6
    kw = {}
    if nrm:
        N = c.dim("N", 1, 5)
        kw["normals"], kw["faces_normals_idx"] = tensor(c, "normals", N, 3), c.ints("fn", (Fn, 3), 0, N)
    if tex:
        T = c.dim("T", 1, 5)
        H, W = c.dim("H", 1, 4), c.dim("W", 1, 4)
        kw["verts_uvs"], kw["faces_uvs"] = tensor(c, "uvs", T, 2, -1.0, 2.0), c.ints("ft", (Fn, 3), 0, T)
        exact = c.boolean("exact")
        kw["texture_map"] = c.ints("map", (H, W, 3), 0, 256).to(F) / 255.0 if exact else c.real("rmap", (H, W, 3), F, 0.0, 1.0)
    with scratch() as d:
        path = os.path.join(d, "m.obj")
        if c.boolean("as_path"):
            path = Path(path)
        _, w = quiet(lambda: OBJ.save_obj(path, verts, faces, dp, **kw))
        c.fact("saving gives no warning", not w)
        (v, f, aux), w = quiet(lambda: OBJ.load_obj(path))
    c.fact("loading reports no invalid indices", not any(WARN in x for x in w))
    c.fact("vertices", near(v, verts, tol) and v.dtype == F)
    c.fact("faces", same(f.verts_idx, faces))
    c.fact("normals", (near(aux.normals, kw["normals"], tol) if nrm else aux.normals is None))
    c.fact("indices of the normals", same(f.normals_idx, kw["faces_normals_idx"] if nrm else torch.full((Fn, 3), -1)))
    c.fact("texture coordinates", (near(aux.verts_uvs, kw["verts_uvs"], tol) if tex else aux.verts_uvs is None))
    c.fact("indices of the texture coordinates", same(f.textures_idx, kw["faces_uvs"] if tex else torch.full((Fn, 3), -1)))
    if tex:
        c.fact("texture map", len(aux.texture_images) == 1 and near(list(aux.texture_images.values())[0], kw["texture_map"], 1e-6 if exact else 0.501 / 255))


@contract("C21", "_load_obj (generated files)", fns=FO, trials=120, seconds=60,
          bounded="generated files with up to 3 blocks of vertices, normals, texture coordinates and polygons of 3-6 corners with absolute and relative indices, comments, blank lines, tabs and trailing values")
def _obj_read(c):
    if c.sym:
        return
    c.default(F)
    use_t, use_n = c.boolean("use_t"), c.boolean("use_n")
    V, VT, VN = [], [], []
    fv, ft, fn, fm = [], [], [], []
    lines = []
    sep = pick(c, "sep", [" ", "  ", "\t"])
    mat, mats = -1, []
    for blk in range(c.dim("blocks", 1, 3)):
        for _ in range(c.dim("nv%d" % blk, 3 if blk == 0 else 1, 5)):
            p = [round(x, 4) for x in tensor(c, "p%d_%d" % (blk, len(V)), 1, 3)[0].tolist()]
            V.append(p)
            lines.append(sep.join(["v"] + ["%.4f" % x for x in p] + (["0.5", "0.25", "1"] if c.boolean("vc%d" % len(V)) else [])))
            if c.boolean("cm%d" % len(V)):
                lines += ["# v 1 2 3", "", "vp 1 2"]
        for _ in range(c.dim("nt%d" % blk, 1, 3)):
            p = [round(x, 4) for x in tensor(c, "t%d_%d" % (blk, len(VT)), 1, 2)[0].tolist()]
            VT.append(p)
            lines.append(sep.join(["vt"] + ["%.4f" % x for x in p]))
        for _ in range(c.dim("nn%d" % blk, 1, 3)):
            p = [round(x, 4) for x in tensor(c, "n%d_%d" % (blk, len(VN)), 1, 3)[0].tolist()]
            VN.append(p)
            lines.append(sep.join(["vn"] + ["%.4f" % x for x in p]))
        if c.boolean("um%d" % blk):
            m = pick(c, "mat%d" % blk, ["a", "b"])
            lines.append("usemtl %s" % m)
            if m not in mats:
                mats.append(m)
            mat = mats.index(m)
        for k in range(c.dim("nf%d" % blk, 1, 3)):
            tag = "%d_%d" % (blk, k)
            deg = c.dim("deg" + tag, 3, 6)
            with_t, with_n = use_t and c.boolean("ht" + tag), use_n and c.boolean("hn" + tag)
            corner, cols = [], []
            for j in range(deg):
                txt, cur = [], []
                for arr, on, nm in ((V, True, "v"), (VT, with_t, "t"), (VN, with_n, "n")):
                    if not on:
                        txt.append("")
                        cur.append(-1)
                        continue
                    i = c.integer("%s%s_%d" % (nm, tag, j), 0, len(arr))
                    if c.boolean("rel%s%s_%d" % (nm, tag, j)):
                        txt.append(str(i - len(arr)))
                    else:
                        txt.append(str(i + 1))
                    cur.append(i)
                s = "/".join(txt)
                corner.append(s.rstrip("/"))
                cols.append(cur)
            lines.append(sep.join(["f"] + corner))
            for i in range(deg - 2):
                for out, q in ((fv, 0), (ft, 1), (fn, 2)):
                    out.append([cols[0][q], cols[i + 1][q], cols[i + 2][q]])
                fm.append(mat)
    eol = pick(c, "eol", ["\n", "\r\n"])
    text = eol.join(lines) + (eol if c.boolean("final") else "")
    stream = io.BytesIO(text.encode()) if c.boolean("bytes") else io.StringIO(text)
    (v, f, aux), w = quiet(lambda: OBJ.load_obj(stream, load_textures=False))
    c.fact("no invalid indices reported", not any(WARN in x for x in w))
    c.fact("vertices", near(v, torch.tensor(V), 1e-5))
    c.fact("faces, split into fans", same(f.verts_idx, torch.tensor(fv)))
    c.fact("normals", near(aux.normals, torch.tensor(VN), 1e-5))
    c.fact("indices of the normals, -1 where a face has none", same(f.normals_idx, torch.tensor(fn)))
    c.fact("texture coordinates", near(aux.verts_uvs, torch.tensor(VT), 1e-5))
    c.fact("indices of the texture coordinates, -1 where a face has none", same(f.textures_idx, torch.tensor(ft)))
    c.fact("materials", same(f.materials_idx, torch.tensor(fm)))


@contract("C21", "_load_obj (invalid indices)", fns=FO, trials=60, seconds=30,
          bounded="files with one index 0, beyond the last value or counting back too far, in a position, normal or texture coordinate")
def _obj_bad(c):
    if c.sym:
        return
    n = c.dim("n", 3, 6)
    which = c.integer("which", 0, 3)
    bad = pick(c, "bad", [0, n + 1, n + 5, -n - 1, -n - 3])
    pos = c.integer("pos", 0, 3)
    every = c.boolean("every")
    good = c.boolean("good_first")
    lines = ["v 0 %d 1" % i for i in range(n)] + ["vt 0 %d" % i for i in range(n)] + ["vn 0 1 %d" % i for i in range(n)]
    if good:
        lines.append("f 1/1/1 2/2/2 3/3/3")
    lines.append("f " + " ".join("/".join(str(bad if q == which and (every or j == pos) else j + 1) for q in range(3)) for j in range(3)))
    _, w = quiet(lambda: OBJ.load_obj(io.StringIO("\n".join(lines)), load_textures=False))
    c.fact("reported", any(WARN in x for x in w))


@contract("C21", "malformed files are rejected", fns=FO + FP + FF, trials=1, seconds=20, bounded="the malformed files listed in the contract")
def _malformed(c):
    if c.sym:
        return
    v3 = "v 0 0 0\nv 1 0 0\nv 0 1 0\n"
    for i, t in enumerate(["v 0 1\n", v3 + "f 1/1/1/1 2/1/1/1 3/1/1/1\n", v3 + "f 1//1 2 3\n", v3 + "f 1/1 2 3\n", v3 + "vn 1 2\n", v3 + "vt 1\n", v3 + "f a b c\n"]):
        c.raises("OBJ %d" % i, (ValueError,), lambda t=t: OBJ.load_obj(io.StringIO(t), load_textures=False))
    head = "ply\nformat ascii 1.0\nelement vertex 3\nproperty float x\nproperty float y\nproperty float z\n"
    fl = "element face 1\nproperty list uchar int vertex_index\n"
    pts = "0 0 0\n1 0 0\n0 1 0\n"
    bad = ["", "plx\n", "ply\nformat ascii 1.0\n", "ply\n", head, head + fl, head.replace("ascii", "binary"), head + fl + "end_header\n" + pts, head + fl + "end_header\n0 0 0\n",
           head + fl + "end_header\n" + pts + "4 0 1 2\n", head + fl + "end_header\n" + pts + "2 0 1\n", head + fl + "end_header\n" + pts + "3 0 1 2\n3 0 1 2\n",
           head.replace("float x", "floot x") + "end_header\n" + pts, head.replace("float y", "float x") + "end_header\n" + pts,
           head.replace("property float x\n", "") + "end_header\n0 0\n0 0\n0 0\n", "ply\nformat ascii 1.0\nend_header\n", "ply\nelement vertex 1\nproperty float x\nproperty float y\nproperty float z\nend_header\n0 0 0\n",
           head.replace("vertex 3", "vertex three") + "end_header\n" + pts, head + "end_header\n" + pts.replace("1 0 0", "1 0"), head + "element a 1\nend_header\n" + pts]
    for i, t in enumerate(bad):
        c.raises("PLY %d" % i, (ValueError,), lambda t=t: PLY.load_ply(io.BytesIO(t.encode())))
    bh = (head + fl + "end_header\n").replace("ascii", "binary_little_endian").encode()
    body = struct.pack("<9f", *range(9))
    for i, t in enumerate([bh + body, bh + body[:-1], bh + body + struct.pack("<B2i", 3, 0, 1), bh + body + struct.pack("<B3i", 3, 0, 1, 2) + b"abc"]):
        c.raises("binary PLY %d" % i, (ValueError,), lambda t=t: PLY.load_ply(io.BytesIO(t)))
    off = "off\n3 1 0\n" + pts
    for i, t in enumerate(["", "off", "off\n\n# comment\n", "off\n3 1\n" + pts + "3 0 1 2\n", off, "off\n3 1 0\n0 0 0\n", off + "4 0 1 2\n", off + "2 0 1\n", off + "3 0 1 2\n3 0 1 2\n", off + "3 0 1 2 0.5 0.5\n", "off\na 1 0\n", "off\n-1 1 0\n",
                           "off\n3 1 0\n0 0\n1 0\n0 1\n3 0 1 2\n", "off\n3 2 0\n" + pts + "3 0 1 2\n3 0 1 2 0.5 0.5 0.5\n"]):
        c.raises("OFF %d" % i, (ValueError,), lambda t=t: OFF._load_off_stream(io.BytesIO(t.encode())))
    # indices which are out of range
    for idx in ("0 1 3", "0 1 -1", "7 1 2"):
        _, w = quiet(lambda: PLY.load_ply(io.BytesIO((head + fl + "end_header\n" + pts + "3 " + idx + "\n").encode())))
        c.fact("PLY: invalid indices are reported", any(WARN in x for x in w))
        with scratch() as d:
            Path(d, "a.off").write_text(off + "3 " + idx + "\n")
            _, w = quiet(lambda: IO().load_mesh(os.path.join(d, "a.off")))
        c.fact("OFF: invalid indices are reported", any(WARN in x for x in w))


@contract("C21", "IO: OBJ with a UV texture", fns=["pytorch3d.io.obj_io.MeshObjFormat.save", "pytorch3d.io.obj_io.MeshObjFormat.read"], trials=40, seconds=40,
          bounded="meshes of up to 6 vertices, maps up to 5x5")
def _obj_io(c):
    if c.sym:
        return
    c.default(F)
    V, Fn, T = c.dim("V", 1, 6), c.dim("F", 1, 6), c.dim("T", 1, 5)
    verts, faces = tensor(c, "verts", V, 3), c.ints("faces", (Fn, 3), 0, V)
    tex = None
    if c.boolean("tex"):
        uv, fuv = tensor(c, "uv", T, 2, 0.0, 1.0), c.ints("fuv", (Fn, 3), 0, T)
        mp = c.ints("map", (c.dim("H", 1, 5), c.dim("W", 1, 5), 3), 0, 256).to(F) / 255.0
        tex = TexturesUV([mp], [fuv], [uv])
    with scratch() as d:
        path = os.path.join(d, "x.obj")
        IO().save_mesh(Meshes([verts], [faces], tex), path)
        m = quiet(lambda: IO().load_mesh(path))[0]
    c.fact("vertices", near(m.verts_list()[0], verts, 5e-6) and same(m.faces_list()[0], faces))
    if tex is not None:
        c.fact("texture", isinstance(m.textures, TexturesUV) and near(m.textures.maps_padded()[0], mp, 1e-6) and near(m.textures.verts_uvs_list()[0], uv, 5e-6) and same(m.textures.faces_uvs_list()[0], fuv))
    else:
        c.fact("no texture", m.textures is None)


# ------------------------------------------------------------------------------------------------ PLY
@contract("C21", "IO: PLY meshes", fns=["pytorch3d.io.ply_io.MeshPlyFormat.save", "pytorch3d.io.ply_io.MeshPlyFormat.read", "pytorch3d.io.ply_io._save_ply", "pytorch3d.io.ply_io._write_ply_header"] + FP,
          bounded="meshes with up to 6 vertices and 6 faces (possibly none), normals, colours as floats and bytes, 0 to 8 decimal places", trials=60, seconds=60,
          cases=[dict(binary=b, nrm=n, col=k) for b in (None, False, True) for n in (0, 1) for k in (0, 1, 2)])
def _ply_io(c, binary, nrm, col):
    if c.sym:
        return
    c.default(F)
    V, Fn = c.dim("V", 1, 6), c.integer("F", 0, 7)
    verts, faces = tensor(c, "verts", V, 3), c.ints("faces", (Fn, 3), 0, V)
    normals = tensor(c, "normals", V, 3) if nrm else None
    colors = None if col == 0 else (c.ints("colors", (V, 3), 0, 256).to(F) / 255.0 if col == 2 else tensor(c, "colors", V, 3, 0.0, 1.0))
    dp = pick(c, "dp", [None, 2, 5, 8])
    asc = binary is False
    tol = 0.5001 * 10.0 ** -(6 if dp is None else dp) + 4e-6 if asc else 0.0
    m0 = Meshes([verts], [faces], TexturesVertex([colors]) if col else None, verts_normals=[normals] if nrm else None)
    with scratch() as d:
        path = os.path.join(d, "x.ply")
        _, w = quiet(lambda: IO().save_mesh(m0, Path(path) if c.boolean("as_path") else path, binary=binary, decimal_places=dp, colors_as_uint8=col == 2))
        c.fact("saving gives no warning", not w)
        m, w = quiet(lambda: IO().load_mesh(path))
        with_stream = PLY.load_ply(io.BytesIO(Path(path).read_bytes()))
    c.fact("loading gives no warning", not w)
    c.fact("vertices", near(m.verts_list()[0], verts, tol) and near(with_stream[0], verts, tol))
    c.fact("faces", same(m.faces_list()[0], faces) and same(with_stream[1], faces))
    c.fact("normals", (m.has_verts_normals() and near(m.verts_normals_packed(), normals, tol)) if nrm else not m.has_verts_normals())
    if col:
        c.fact("colours", isinstance(m.textures, TexturesVertex) and near(m.textures.verts_features_list()[0], colors, max(tol, 1e-6) if col == 2 else tol))
    else:
        c.fact("no colours", m.textures is None)


@contract("C21", "IO: PLY point clouds", fns=["pytorch3d.io.ply_io.PointcloudPlyFormat.save", "pytorch3d.io.ply_io.PointcloudPlyFormat.read", "pytorch3d.io.ply_io._save_ply"] + FP,
          bounded="clouds with up to 6 points, normals, colours as floats and bytes", trials=40, seconds=40,
          cases=[dict(binary=b, nrm=n, col=k) for b in (False, True) for n in (0, 1) for k in (0, 1, 2)])
def _ply_pc(c, binary, nrm, col):
    if c.sym:
        return
    c.default(F)
    V = c.dim("V", 1, 6)
    pts = tensor(c, "pts", V, 3)
    normals = tensor(c, "normals", V, 3) if nrm else None
    colors = None if col == 0 else (c.ints("colors", (V, 3), 0, 256).to(F) / 255.0 if col == 2 else tensor(c, "colors", V, 3, 0.0, 1.0))
    tol = 0.0 if binary else 5e-6
    pc0 = Pointclouds([pts], normals=[normals] if nrm else None, features=[colors] if col else None)
    with scratch() as d:
        path = os.path.join(d, "x.ply")
        IO().save_pointcloud(pc0, path, binary=binary, colors_as_uint8=col == 2)
        pc, w = quiet(lambda: IO().load_pointcloud(path))
    c.fact("no warning", not w)
    c.fact("points", near(pc.points_list()[0], pts, tol))
    c.fact("normals", near(pc.normals_list()[0], normals, tol) if nrm else pc.normals_list() is None)
    c.fact("colours", near(pc.features_list()[0], colors, max(tol, 1e-6) if col == 2 else tol) if col else pc.features_list() is None)


@contract("C21", "save_ply / load_ply", fns=["pytorch3d.io.ply_io.save_ply", "pytorch3d.io.ply_io.load_ply", "pytorch3d.io.ply_io._save_ply"], trials=60, seconds=30,
          bounded="up to 5 vertices and 5 faces, empty faces and normals included")
def _ply_fn(c):
    if c.sym:
        return
    c.default(F)
    V, Fn = c.integer("V", 0, 6), c.integer("F", 0, 6)
    if V == 0:
        Fn = 0
    verts, faces = tensor(c, "verts", V, 3), c.ints("faces", (Fn, 3), 0, max(V, 1))
    fa = pick(c, "fa", ["faces", "none", "flat"])
    if fa != "faces":
        Fn, faces = 0, (None if fa == "none" else torch.LongTensor([]))
    na = pick(c, "na", ["some", "none", "empty"])
    normals = {"some": tensor(c, "normals", V, 3), "none": None, "empty": torch.zeros(0, 3) if c.boolean("e2") else torch.FloatTensor([])}[na]
    asc = c.boolean("ascii")
    f = io.BytesIO()
    quiet(lambda: PLY.save_ply(f, verts, faces, normals, ascii=asc))
    f.seek(0)
    (v, fc), w = quiet(lambda: PLY.load_ply(f))
    c.fact("no warning", not w)
    c.fact("vertices", near(v, verts, 5e-6 if asc else 0.0))
    c.fact("faces", same(fc, faces if fa == "faces" else torch.zeros(0, 3, dtype=torch.int64)))
    if na == "some" and V:
        f.seek(0)
        dat = PLY._load_ply(f, path_manager=None)
        c.fact("normals", near(dat.verts_normals, normals, 5e-6 if asc else 0.0))


INT = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I"}
FLT = {"float": "f", "double": "d", "float32": "f", "float64": "d"}


@contract("C21", "_load_ply (generated files)", fns=FP + ["pytorch3d.io.ply_io._read_ply_element_ascii", "pytorch3d.io.ply_io._read_ply_element_binary", "pytorch3d.io.ply_io._try_read_ply_constant_list_binary"],
          cases=[dict(enc=e) for e in ("ascii", "binary_little_endian", "binary_big_endian")], trials=250, seconds=80,
          bounded="generated files with up to 5 vertices and 5 polygons of 3-6 corners, properties in any order and of any type, extra properties and elements")
def _ply_read(c, enc):
    if c.sym:
        return
    c.default(F)
    end = ">" if enc == "binary_big_endian" else "<"
    asc = enc == "ascii"
    V, Fn = c.dim("V", 3, 5), c.integer("F", 0, 6)
    groups = [["x", "y", "z"]]
    has = {}
    for nm, cols in (("col", ["red", "green", "blue"]), ("nrm", ["nx", "ny", "nz"]), ("tex", ["texture_u", "texture_v"]), ("ext", ["quality"])):
        has[nm] = c.boolean(nm)
        if has[nm]:
            groups.append(cols)
    names = [x for g in groups for x in g]
    order = list(range(len(names)))
    if c.boolean("shuffle"):
        for i in range(len(order) - 1, 0, -1):
            j = c.integer("sh%d" % i, 0, i + 1)
            order[i], order[j] = order[j], order[i]
    names = [names[i] for i in order]
    onetype = pick(c, "onetype", [None, "float", "double", "int"])
    kinds, vals = {}, {}
    byte_col = False
    for nm in ("geo", "col", "nrm", "tex", "quality"):
        kinds[nm] = onetype or pick(c, "k_" + nm, ["float", "double", "float32", "float64"] + (["uchar", "uint8"] if nm == "col" else ["int", "short", "uchar", "uint16"] if nm in ("geo", "quality") else []))
    byte_col = kinds["col"] in ("uchar", "uint8")
    for x in names:
        k = "geo" if x in "xyz" else "col" if x in ("red", "green", "blue") else "nrm" if x in ("nx", "ny", "nz") else "tex" if x.startswith("texture") else "quality"
        ty = kinds[k]
        vals[x] = (ty, [c.integer("%s%d" % (x, i), 0, 200) if ty in INT else c.integer("%s%d" % (x, i), -4000, 4000) / 64.0 for i in range(V)])
    polys = []
    regular = c.boolean("regular")
    deg0 = c.dim("deg", 3, 6)
    for i in range(Fn):
        dg = deg0 if regular else c.dim("deg%d" % i, 3, 6)
        polys.append([c.integer("p%d_%d" % (i, j), 0, V) for j in range(dg)])
    sz, ix = pick(c, "sz", ["uchar", "int", "uint16", "uint8"]), pick(c, "ix", ["int", "uint", "short", "uchar", "uint32"])
    lines = ["ply", "format %s 1.0" % enc, "comment made by hand", "obj_info none"] if c.boolean("cmt") else ["ply", "format %s 1.0" % enc]
    vert = ["element vertex %d" % V] + ["property %s %s" % (vals[x][0], x) for x in names]
    face = ["element face %d" % Fn, "property list %s %s %s" % (sz, ix, pick(c, "vi", ["vertex_index", "vertex_indices"]))]
    extra, ET = [], None
    if c.boolean("extra"):
        ET = pick(c, "et", ["float", "float32", "double", "float64", "int", "uint8"])
        E = c.dim("E", 1, 3)
        ed = [([c.integer("e%d_%d" % (i, j), 0, 100) for j in range(c.integer("el%d" % i, 0, 3))], c.integer("es%d" % i, 0, 99) if ET in INT else c.integer("es%d" % i, 0, 99) / 4.0) for i in range(E)]
        extra = ["element misc %d" % E, "property list uchar int stuff", "property %s weight" % ET]
    sect = ["v", "e", "f"] if c.boolean("e_mid") else (["v", "f", "e"] if c.boolean("e_last") else ["e", "v", "f"])
    for s in sect:
        lines += {"v": vert, "f": face, "e": extra}[s]
    lines.append("end_header")
    out = ("\n".join(lines) + "\n").encode()
    txt = lambda q: str(q) if isinstance(q, int) else repr(q)
    for s in sect:
        if s == "v":
            for i in range(V):
                if asc:
                    out += (" ".join(txt(vals[x][1][i]) for x in names) + "\n").encode()
                else:
                    for x in names:
                        out += struct.pack(end + {**INT, **FLT}[vals[x][0]], vals[x][1][i])
        elif s == "f":
            for p in polys:
                out += ((" ".join(map(str, [len(p)] + p)) + "\n").encode() if asc else struct.pack(end + INT[sz], len(p)) + struct.pack(end + "%d%s" % (len(p), INT[ix]), *p))
        elif ET is not None:
            for l, w in ed:
                out += ((" ".join(map(str, [len(l)] + l + [w])) + "\n").encode() if asc else struct.pack(end + "B", len(l)) + struct.pack(end + "%di" % len(l), *l) + struct.pack(end + {**INT, **FLT}[ET], w))
    if c.boolean("realfile"):
        with scratch() as d:
            Path(d, "a.ply").write_bytes(out)
            dat, w = quiet(lambda: PLY._load_ply(Path(d, "a.ply"), path_manager=None))
    else:
        dat, w = quiet(lambda: PLY._load_ply(io.BytesIO(out), path_manager=None))
    cols = lambda xs: torch.tensor([[float(vals[x][1][i]) for x in xs] for i in range(V)])
    c.fact("no warning", not any(WARN in x for x in w))
    c.fact("vertices", near(dat.verts, cols(["x", "y", "z"]), 0.0))
    c.fact("normals", near(dat.verts_normals, cols(["nx", "ny", "nz"]), 0.0) if has["nrm"] else dat.verts_normals is None)
    c.fact("texture coordinates", near(dat.verts_texture_uvs, cols(["texture_u", "texture_v"]), 0.0) if has["tex"] else dat.verts_texture_uvs is None)
    c.fact("colours", near(dat.verts_colors, cols(["red", "green", "blue"]) / (255.0 if byte_col else 1.0), 1e-6) if has["col"] else dat.verts_colors is None)
    tris = [sorted_fan for p in polys for sorted_fan in ([p[0], p[i + 1], p[i + 2]] for i in range(len(p) - 2))]
    if Fn == 0:
        c.fact("no faces", dat.faces is None)
    else:
        c.fact("faces, split into fans (in any order)", sorted(dat.faces.tolist()) == sorted(tris) and dat.faces.dtype == torch.int64)


# ------------------------------------------------------------------------------------------------ OFF
@contract("C21", "IO: OFF meshes", fns=["pytorch3d.io.off_io._save_off", "pytorch3d.io.off_io._write_off_data", "pytorch3d.io.off_io.MeshOffFormat.read", "pytorch3d.io.off_io.MeshOffFormat.save"] + FF,
          bounded="meshes with up to 6 vertices and 6 faces (possibly none), colours of vertices or faces", trials=60, seconds=40,
          cases=[dict(col=k) for k in ("none", "verts", "faces")])
def _off_io(c, col):
    if c.sym:
        return
    c.default(F)
    V, Fn = c.integer("V", 0 if col == "none" else 1, 7), c.integer("F", 1 if col == "faces" else 0, 7)
    if V == 0:
        Fn = 0
    verts, faces = tensor(c, "verts", V, 3), c.ints("faces", (Fn, 3), 0, max(V, 1))
    C = c.integer("C", 3, 5)
    tex = None
    if col == "verts":
        colors = tensor(c, "colors", V, C, 0.0, 1.0)
        tex = TexturesVertex([colors])
    elif col == "faces":
        colors = tensor(c, "colors", Fn, C, 0.0, 1.0)
        tex = TexturesAtlas([colors[:, None, None, :]])
    dp = pick(c, "dp", [None, 2, 8])
    tol = 0.5001 * 10.0 ** -(6 if dp is None else dp) + 4e-6
    with scratch() as d:
        path = os.path.join(d, "x.off")
        IO().save_mesh(Meshes([verts], [faces], tex), Path(path) if c.boolean("as_path") else path, decimal_places=dp)
        m, w = quiet(lambda: IO().load_mesh(path))
    c.fact("no invalid indices", not any(WARN in x for x in w))
    c.fact("vertices", near(m.verts_list()[0], verts, tol))
    c.fact("faces", same(m.faces_list()[0], faces))
    if col == "verts":
        c.fact("colours", isinstance(m.textures, TexturesVertex) and near(m.textures.verts_features_list()[0], colors, tol))
    elif col == "faces":
        c.fact("colours", isinstance(m.textures, TexturesAtlas) and near(m.textures.atlas_list()[0][:, 0, 0], colors, tol))
    else:
        c.fact("no colours", m.textures is None)


@contract("C21", "_load_off_stream (generated files)", fns=FF + ["pytorch3d.io.off_io._read_faces_lump"], trials=200, seconds=60,
          bounded="generated files with up to 5 vertices and 5 polygons of 3-6 corners, integer or real colours, comments")
def _off_read(c):
    if c.sym:
        return
    c.default(F)
    V, Fn = c.dim("V", 3, 5), c.integer("F", 0, 6)
    intc = c.boolean("int_coords")
    pts = [[c.integer("v%d_%d" % (i, j), -9, 9) if intc else c.integer("v%d_%d" % (i, j), -900, 900) / 32.0 for j in range(3)] for i in range(V)]

    def color(tag, n):
        kind = pick(c, "kind" + tag, ["none", "int", "real"])
        C = c.integer("C" + tag, 3, 5)
        if kind == "none":
            return [[] for _ in range(n)], None
        vals = [[c.integer("c%s%d_%d" % (tag, i, j), 0, 256) if kind == "int" else c.integer("c%s%d_%d" % (tag, i, j), 0, 65) / 64.0 for j in range(C)] for i in range(n)]
        return vals, torch.tensor(vals, dtype=F).reshape(n, C) / (255.0 if kind == "int" else 1.0)

    vc, VC = color("v", V)
    fc, FC = color("f", Fn)
    regular, deg0 = c.boolean("regular"), c.dim("deg", 3, 6)
    polys = [[c.integer("p%d_%d" % (i, j), 0, V) for j in range(deg0 if regular else c.dim("deg%d" % i, 3, 6))] for i in range(Fn)]
    com = c.boolean("comments")
    row = lambda q: " ".join(str(x) if isinstance(x, int) else repr(float(x)) for x in q) + (" # 1.5 2 3" if com else "")
    lines = [["off", "%d %d 0" % (V, Fn)], ["OFF", "# nothing", "", "%d %d 7" % (V, Fn)], ["OFF %d %d 0" % (V, Fn)], ["%d %d 0" % (V, Fn)]][c.integer("head", 0, 4)]
    if com:
        lines = ["# first"] + lines + ["", "# the vertices"]
    lines = lines + [row(p + q) for p, q in zip(pts, vc)] + (["# faces"] if com and Fn else []) + [row([len(p)] + p + q) for p, q in zip(polys, fc)]
    dat, w = quiet(lambda: OFF._load_off_stream(io.BytesIO(("\n".join(lines) + "\n").encode())))
    c.fact("vertices", near(dat["verts"], torch.tensor(pts, dtype=F), 0.0))
    c.fact("colours of the vertices", near(dat["verts_colors"], VC, 1e-6) if VC is not None else "verts_colors" not in dat)
    tris, tcol = [], []
    for k, p in enumerate(polys):
        for i in range(len(p) - 2):
            tris.append((p[0], p[i + 1], p[i + 2]) + tuple(round(float(x), 4) for x in (FC[k] if FC is not None else [])))
    if Fn == 0:
        c.fact("no faces", "faces" not in dat and "faces_colors" not in dat)
        return
    got = [tuple(int(x) for x in f) + tuple(round(float(x), 4) for x in (dat["faces_colors"][i] if FC is not None else [])) for i, f in enumerate(dat["faces"])]
    c.fact("colours of the faces are there when written", ("faces_colors" in dat) == (FC is not None))
    c.fact("faces and their colours, split into fans (in any order)", sorted(got) == sorted(tris))


@contract("C21", "_read_faces_lump (large indices)", fns=["pytorch3d.io.off_io._read_faces_lump"], trials=20, seconds=10, bounded="indices up to 2^31")
def _off_big(c):
    if c.sym:
        return
    idx = [c.integer("i%d" % j, 0, 2 ** 31) for j in range(4)]
    dat = OFF._read_faces_lump(io.BytesIO(("4 %d %d %d %d\n" % tuple(idx)).encode()), 1, None)[0]
    c.fact("indices", sorted(dat.tolist()) == sorted([[idx[0], idx[1], idx[2]], [idx[0], idx[2], idx[3]]]))
