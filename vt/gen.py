"""Random structures for real runs (bounded contracts)."""
import torch


def faces_of(c, tag, V, Fn, distinct=True):
    def fix(t):
        if distinct and V >= 3:
            for r in range(t.shape[0]):
                a = t[r].tolist()
                k = 0
                while len(set(a)) < 3:
                    a = [a[0], (a[0] + 1 + (r + k) % (V - 1)) % V, (a[0] + 1 + (r + k + 1) % (V - 1)) % V]
                    k += 1
                t[r] = torch.tensor(a)
        return t
    if Fn == 0:
        return torch.zeros((0, 3), dtype=torch.int64)
    return c.ints("f" + tag, (Fn, 3), 0, V, fix=fix)


def mesh_lists(c, tag="", nmin=1, nmax=3, vmax=6, fmax=6, empty=True, distinct=True, lo=-2.0, hi=2.0, equal=False):
    """lists of vertices and faces of a random batch, empty meshes included"""
    n = c.integer("n" + tag, nmin, nmax + 1)
    vs, fs = [], []
    V0, F0 = c.integer("V" + tag, 3, vmax + 1), c.integer("F" + tag, 1, fmax + 1)
    for k in range(n):
        e = empty and not equal and c.integer(f"e{tag}{k}", 0, 3) == 0
        V = V0 if equal else c.integer(f"V{tag}{k}", 3, vmax + 1)
        Fn = F0 if equal else c.integer(f"F{tag}{k}", 1, fmax + 1)
        if e:
            V = Fn = 0
        vs.append(c.real(f"v{tag}{k}", (V, 3), torch.float32, lo, hi) if V else torch.zeros((0, 3)))
        fs.append(faces_of(c, f"{tag}{k}", V, Fn, distinct))
    return vs, fs


def close(a, b, tol=1e-5):
    """tensors of equal shape and nearly equal values"""
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    if tuple(a.shape) != tuple(b.shape):
        return False
    if a.numel() == 0:
        return True
    a, b = a.double(), b.double()
    return bool(((a - b).abs() <= tol * (1 + b.abs())).all())


def exact(a, b):
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    return tuple(a.shape) == tuple(b.shape) and bool((a == b).all())


def cloud_lists(c, tag="", nmin=1, nmax=3, pmax=6, D=3, empty=True, equal=False, name="p", lo=-2.0, hi=2.0):
    n = c.integer("n" + tag, nmin, nmax + 1)
    P0 = c.integer("P" + tag, 1, pmax + 1)
    out = []
    for k in range(n):
        e = empty and not equal and c.integer(f"e{tag}{k}", 0, 3) == 0
        P = P0 if equal else c.integer(f"P{tag}{k}", 1, pmax + 1)
        out.append(torch.zeros((0, D)) if e else c.real(f"{name}{tag}{k}", (P, D), torch.float32, lo, hi))
    return out
