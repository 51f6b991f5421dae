"""The native extension used by runs of the real code.

/repo's own _C*.so is used as it is when the comment-stripped sources hash to
vt/csrc.sha and a probe shows that it was built with the committed repairs (the
.so may be older than they are), and otherwise the extension is
compiled from the current sources, out of tree, into a scratch directory.
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import tempfile
import atexit
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SHA_FILE = os.path.join(HERE, "csrc.sha")


def strip(s):
    s = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: "\n" * m.group(0).count("\n"), s, flags=re.S)
    return re.sub(r"\s+", " ", s)


def digest(repo):
    h = hashlib.sha256()
    root = os.path.join(repo, "pytorch3d/csrc")
    for p in sorted(glob.glob(root + "/**/*.*", recursive=True)):
        if p.endswith((".cpp", ".h")) and os.path.isfile(p):
            h.update(os.path.relpath(p, root).encode() + b"\0")
            h.update(strip(open(p, errors="replace").read()).encode())
    return h.hexdigest()


def existing(repo):
    r = glob.glob(os.path.join(repo, "pytorch3d/_C*.so"))
    return r[0] if r else None


PROBE = """
import sys, importlib.util, torch
spec = importlib.util.spec_from_file_location("pytorch3d._C", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
v = torch.tensor([[0.0, 0.0, 0.0], [1.0, 0.25, 0.5], [-0.5, 1.0, 0.75]])
f = torch.tensor([[0, 1, 2]])
g = m.face_areas_normals_backward(torch.zeros(1), torch.tensor([[0.0, 1.0, 0.0]]), v, f)
a, b = v[1], v[2]
c = torch.linalg.cross(a, b)
n = c.norm()
want = b[0] / n - c[1] * (b[0] * c[1] - b[1] * c[0]) / n ** 3
if not abs(float(g[1, 2] - want)) < 1e-4:
    sys.exit(3)
p = torch.tensor([[0.0, 0, 0], [9.0, 9, 9], [9.0, 9, 10]])
s = torch.tensor([[[0.0, 0, 0], [1.0, 0, 0]], [[9.0, 9, 0], [9.0, 9, 1]], [[9.0, 9, 9], [9.0, 9, 11]]])
d, _ = m.point_edge_dist_forward(p, torch.tensor([0, 1, 1]), s, torch.tensor([0, 1, 2]), 2)
if not float(d.max()) < 1e-4:
    sys.exit(3)
if int(m.sample_farthest_points(torch.zeros(1, 2, 3), torch.tensor([0]), torch.tensor([1]), torch.tensor([0]), 1)[0, 0]) != -1:
    sys.exit(3)
q, w = torch.zeros(1, 1, 2, 2, 2), torch.zeros(1, 1, 2, 2, 2)
m.points_to_volumes_forward(torch.tensor([[[-2.0, 0, 0]]]), torch.ones(1, 1, 1), q, w, torch.tensor([[2, 2, 2]]), torch.ones(1, 1), 1.0, True, True)
if not float(q.min()) >= 0:
    sys.exit(3)
torch.set_num_threads(4)
o = torch.full((6, 2), 0.5)
m.sample_pdf(torch.rand(6, 4)[:5], torch.rand(6, 3)[:5], o[:5], 1e-5)
z = torch.zeros(2, 2, 2)
z[1, 1, 0], z[1, 1, 1] = 1.0, 0.5
if len(m.marching_cubes(z, 0.5)[1]) != 1:
    sys.exit(3)
sys.exit(0 if float((o[5] - 0.5).abs().max()) == 0 else 3)
"""


def repaired(so):
    return subprocess.run([sys.executable, "-c", PROBE, so], capture_output=True).returncode == 0


def build(repo, out):
    import torch
    from torch.utils import cpp_extension as ce
    root = os.path.join(repo, "pytorch3d/csrc")
    inc = [f"-I{root}"] + [f"-isystem{p}" for p in ce.include_paths()]
    import sysconfig
    inc.append("-isystem" + sysconfig.get_paths()["include"])
    srcs = glob.glob(root + "/**/*.cpp", recursive=True)
    srcs.sort(key=lambda p: -os.path.getsize(p))

    def one(s):
        o = os.path.join(out, re.sub(r"\W", "_", os.path.relpath(s, root)) + ".o")
        p = subprocess.run(["g++", "-c", "-fPIC", "-std=c++17", "-O1", "-w", "-DTORCH_EXTENSION_NAME=_C", "-DTORCH_API_INCLUDE_EXTENSION_H",
                            f"-D_GLIBCXX_USE_CXX11_ABI={int(torch._C._GLIBCXX_USE_CXX11_ABI)}"] + inc + [s, "-o", o], capture_output=True,
                           text=True)
        if p.returncode:
            raise RuntimeError(p.stderr[:2000])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    so = os.path.join(out, "_C" + importlib.machinery.EXTENSION_SUFFIXES[0])
    lib = os.path.join(os.path.dirname(torch.__file__), "lib")
    p = subprocess.run(["g++", "-shared", "-o", so] + objs + [f"-L{lib}", "-lc10", "-ltorch", "-ltorch_cpu", "-ltorch_python", "-lpthread"],
                       capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[:2000])
    return so


def ensure(repo):
    """put an extension built from the current sources into sys.modules; returns how it was obtained"""
    import torch  # noqa
    so = existing(repo)
    how = "the tree's own extension (sources unchanged)"
    if so is None or digest(repo) != open(SHA_FILE).read().strip() or not repaired(so):
        d = tempfile.mkdtemp(prefix="vt_native_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        so = build(repo, d)
        how = "compiled from the current sources"
    import pytorch3d
    spec = importlib.util.spec_from_file_location("pytorch3d._C", so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules["pytorch3d._C"] = m
    pytorch3d._C = m
    return how


if __name__ == "__main__":
    open(SHA_FILE, "w").write(digest("/repo") + "\n")
