"""Symbolic tensors: the real Python code of the library is executed on these.

Each torch operation below is a *contract* for the corresponding torch
operation over mathematical reals/integers (see trusted base in the evidence);
the contracts are cross-checked against real torch by selftest.py.
"""
import builtins
import math
from fractions import Fraction
import numpy as np
import torch
from . import term as tm
from .term import T
from .sess import (Session, S, Unsupported, SymInt, SymReal, SymBool, scalar_term, mkint, mkreal,
                   mkbool, dimT, lin, smart_idiv, smart_imod, t_mod, t_floordiv)

I0 = tm.num(0, "I")
UNROLL = 40
TRUE, FALSE = tm.TRUE, tm.FALSE
CPU = torch.device("cpu")


class SymSize(tuple):
    @property
    def __class__(self):
        return torch.Size

    def numel(self):
        r = 1
        for d in self:
            r = r * d
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return SymSize(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return SymSize(tuple(self) + tuple(o))

    def __radd__(self, o):
        return SymSize(tuple(o) + tuple(self))

    def __mul__(self, k):
        return SymSize(tuple(self) * k)

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)) or len(self) != len(o):
            return False
        return all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = tuple.__hash__


class Storage:
    __slots__ = ("fn", "shape")

    def __init__(self, fn, shape):
        self.fn = fn
        self.shape = shape


def memo(fn):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = fn(idx)
            cache[idx] = r
        return r
    return g


def ent(c):
    s = Session.cur
    return c is TRUE or (s is not None and c is not FALSE and s.entails(c))


# ---------------------------------------------------------------- dims
def same_dim(a, b):
    """True/False/None"""
    if type(a) is SymInt or type(b) is SymInt:
        c = tm.eq(dimT(a), dimT(b))
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return S().decide(c)
    return a == b


def is_one(a):
    return type(a) is not SymInt and a == 1


def bdim(a, b):
    """broadcast two dims (forks when undetermined)"""
    if is_one(a):
        return b
    if is_one(b):
        return a
    r = same_dim(a, b)
    if r is True:
        return a if type(a) is not SymInt else b
    if type(a) is not SymInt and type(b) is not SymInt:
        raise RuntimeError(f"The size of tensor a ({a}) must match the size of tensor b ({b})")
    s = S()
    if r is None and s.branch(tm.eq(dimT(a), dimT(b))):
        return a
    if type(a) is SymInt and s.branch(tm.eq(dimT(a), tm.num(1, "I"))):
        return b
    if type(b) is SymInt and s.branch(tm.eq(dimT(b), tm.num(1, "I"))):
        return a
    raise RuntimeError(f"The size of tensor a ({a}) must match the size of tensor b ({b})")


def bshape(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = len(s) - n + k
            if j >= 0:
                d = bdim(d, s[j])
        out.append(d)
    return SymSize(out)


def bmap(shape, out):
    """index map out-index -> index into an operand of the given shape"""
    off = len(out) - len(shape)
    one = []
    for k, d in enumerate(shape):
        o = out[off + k]
        if is_one(d):
            one.append(not is_one(o))
        elif type(d) is SymInt and same_dim(d, o) is not True:
            one.append(ent(tm.eq(dimT(d), tm.num(1, "I"))))
        else:
            one.append(False)
    if off == 0 and not any(one):
        return None

    def f(idx):
        return tuple(I0 if one[k] else idx[off + k] for k in range(len(shape)))
    return f


def numelT(shape):
    r = tm.num(1, "I")
    for d in shape:
        r = tm.mul(r, dimT(d))
    return r


# ---------------------------------------------------------------- dtypes
def cat(dt):
    if dt is torch.bool:
        return 0
    if dt.is_floating_point:
        return 2
    if dt.is_complex:
        raise Unsupported("complex")
    return 1


SORT = {0: "B", 1: "I", 2: "R"}


def cast(t, dt):
    c = cat(dt)
    if c == 2:
        return tm.to_real(t)
    if c == 1:
        return tm.to_int(t)
    return t if t.sort == "B" else tm.ne(t, tm.num(0, t.sort))


def scalar_cat(v):
    if type(v) is SymBool or isinstance(v, (bool, np.bool_)):
        return 0
    if type(v) is SymInt or (isinstance(v, (int, np.integer)) and type(v) is not SymReal):
        return 1
    return 2


def result_dtype(*xs):
    """torch type promotion (tensors dominate scalars of the same category)"""
    best = {0: None, 1: None, 2: None}
    zero = {0: None, 1: None, 2: None}
    sc = -1
    for x in xs:
        if isinstance(x, SymTensor):
            d = x.dtype
            tgt = zero if x.ndim == 0 else best
            c = cat(d)
            if tgt[c] is None:
                tgt[c] = d
            else:
                tgt[c] = torch.promote_types(tgt[c], d)
        else:
            sc = builtins.max(sc, scalar_cat(x))
    cb = builtins.max([c for c in best if best[c] is not None], default=-1)
    cz = builtins.max([c for c in zero if zero[c] is not None], default=-1)

    def merge(tbl):
        r = None
        for c in (0, 1, 2):
            if tbl[c] is not None:
                r = tbl[c] if r is None else torch.promote_types(r, tbl[c])
        return r
    db, dz = merge(best), merge(zero)
    r = db if (cb >= cz and db is not None) else (dz if db is None else torch.promote_types(db, dz))
    if r is None:
        r = {0: torch.bool, 1: torch.int64, 2: torch.get_default_dtype()}[sc]
    elif sc > cat(r):
        r = {1: torch.int64, 2: torch.get_default_dtype()}[sc]
    return r


# ---------------------------------------------------------------- tensor
class _Meta(type(object)):
    pass


class SymTensor:
    _is_param = False
    __slots__ = ("_s", "_to", "_from", "_shape", "dtype", "requires_grad", "_contig", "_hid", "grad", "__dict__")
    __array_priority__ = 1000

    @property
    def __class__(self):
        return torch.Tensor

    def __init__(self, shape, fn, dtype, storage=None, to=None, frm=None, contig=True):
        self._shape = SymSize(shape)
        self.dtype = dtype
        self._s = storage or Storage(memo(fn), self._shape)
        self._to, self._from = to, frm
        self.requires_grad = False
        self._contig = contig
        self.grad = None

    # ---- basic attributes
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    device = CPU
    is_cuda = False
    is_sparse = False
    is_leaf = True
    grad_fn = None
    is_quantized = False
    is_mps = False
    is_meta = False
    layout = torch.strided

    @property
    def data(self):
        return self

    @property
    def T(self):
        return self.permute(*reversed(range(self.ndim)))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def dim(self):
        return len(self._shape)

    ndimension = dim

    def size(self, d=None):
        return self._shape if d is None else self._shape[d]

    def numel(self):
        return self._shape.numel()

    nelement = numel

    def reader(self):
        f, to = self._s.fn, self._to
        if to is None:
            return f
        return lambda idx: f(to(idx))

    def elem(self, idx):
        f, to = self._s.fn, self._to
        return f(idx if to is None else to(idx))

    def is_contiguous(self, *a, **k):
        return self._contig

    def is_floating_point(self):
        return self.dtype.is_floating_point

    def is_complex(self):
        return False

    def get_device(self):
        return -1

    def data_ptr(self):
        return id(self._s)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def retain_grad(self):
        pass

    def storage_offset(self):
        raise Unsupported("storage_offset")

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        d = self._shape[0]
        if type(d) is SymInt:
            raise Unsupported("len() of a symbolic dimension outside the shimmed modules")
        return d

    def __repr__(self):
        return f"SymTensor(shape={tuple(self._shape)}, dtype={self.dtype})"

    def __format__(self, s):
        return repr(self)

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo_):
        return self.clone()

    def __copy__(self):
        return self

    def __bool__(self):
        t = scalar_term(self)
        return bool(mkbool(cast(t, torch.bool)))

    def __index__(self):
        v = self.item()
        if type(v) is int:
            return v
        raise Unsupported("symbolic tensor as an index")

    def __int__(self):
        v = self.item()
        if isinstance(v, (int, float)) and type(v) in (int, float):
            return int(v)
        raise Unsupported("int(tensor)")

    def __float__(self):
        v = self.item()
        if type(v) in (int, float):
            return float(v)
        raise Unsupported("float(tensor)")

    def item(self):
        t = scalar_term(self)
        c = cat(self.dtype)
        return mkreal(t) if c == 2 else mkint(t) if c == 1 else mkbool(t)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        d = self._shape[0]
        if type(d) is SymInt:
            raise Unsupported("tolist of a symbolic dimension")
        return [self[k].tolist() for k in range(d)]

    def __iter__(self):
        d = self._shape[0]
        if type(d) is SymInt:
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[k] for k in range(d)])

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion")

    def numpy(self, *a, **k):
        raise Unsupported("numpy conversion")

    # ---- views
    def _view(self, shape, to, frm, contig=False):
        t0, f0 = self._to, self._from
        root = t0 is None and f0 is None
        if root:
            nt, nf = to, frm
        else:
            nt = (lambda i: t0(to(i))) if t0 is not None else to
            if frm is None or (f0 is None and t0 is not None):
                nf = None
            else:
                def nf(b):
                    c1, i1 = f0(b)
                    c2, i2 = frm(i1)
                    return tm.and_(c1, c2), i2
        r = SymTensor(shape, None, self.dtype, storage=self._s, to=nt, frm=nf, contig=contig)
        if frm is None:
            r._from = None
        return r

    def _write(self, val, cond=None):
        """self[idx] = val(idx) where cond(idx)"""
        old = self._s.fn
        if self._to is None:
            if cond is None:
                self._s.fn = memo(val)
            else:
                self._s.fn = memo(lambda i: tm.ite(cond(i), val(i), old(i)) if cond(i) not in (TRUE, FALSE)
                                  else (val(i) if cond(i) is TRUE else old(i)))
            return self
        frm = self._from
        if frm is None:
            raise Unsupported("write through a non-invertible view")

        def fn(b):
            c, i = frm(b)
            if c is FALSE:
                return old(b)
            if cond is not None:
                c = tm.and_(c, cond(i))
                if c is FALSE:
                    return old(b)
            v = val(i)
            return v if c is TRUE else tm.ite(c, v, old(b))
        self._s.fn = memo(fn)
        return self

    # ---- creation helpers bound to self
    def new_zeros(self, *size, dtype=None, device=None, **k):
        return full_(_sz(size, k), 0, dtype or self.dtype)

    def new_ones(self, *size, dtype=None, device=None, **k):
        return full_(_sz(size, k), 1, dtype or self.dtype)

    def new_full(self, size, fill_value, dtype=None, device=None, **k):
        return full_(size, fill_value, dtype or self.dtype)

    def new_empty(self, *size, dtype=None, device=None, **k):
        return empty_(_sz(size, k), dtype or self.dtype)

    def new_tensor(self, data, dtype=None, device=None, **k):
        return tensor_(data, dtype=dtype or self.dtype)

    # ---- conversions
    def _cast(self, dt):
        if dt is self.dtype:
            return self
        f = self.reader()
        r = SymTensor(self._shape, lambda i: cast(f(i), dt), dt)
        return r

    def to(self, *a, dtype=None, device=None, copy=False, non_blocking=False, **k):
        for x in a:
            if isinstance(x, torch.dtype):
                dtype = x
            elif isinstance(x, torch.Tensor):
                dtype = x.dtype
        if dtype is None or dtype is self.dtype:
            return self.clone() if copy else self
        return self._cast(dtype)

    def type(self, dt=None, **k):
        if dt is None:
            return "torch.FloatTensor"
        if isinstance(dt, str):
            raise Unsupported("type(str)")
        return self._cast(dt)

    def type_as(self, o):
        return self._cast(o.dtype)

    def float(self):
        return self._cast(torch.float32)

    def double(self):
        return self._cast(torch.float64)

    def half(self):
        return self._cast(torch.float16)

    def long(self):
        return self._cast(torch.int64)

    def int(self):
        return self._cast(torch.int32)

    def bool(self):
        return self._cast(torch.bool)

    def byte(self):
        return self._cast(torch.uint8)

    def cpu(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        raise Unsupported("cuda")

    def detach(self):
        return self._view(self._shape, lambda i: i, lambda b: (TRUE, b), self._contig) if self._to is not None else \
            SymTensor(self._shape, None, self.dtype, storage=self._s)

    def contiguous(self, *a, **k):
        return self if self._contig else self.clone()

    def clone(self, *a, **k):
        f = self.reader()
        return SymTensor(self._shape, f, self.dtype)

    def detach_(self):
        return self

    # ---- shape ops
    def _d(self, d, extra=0):
        n = self.ndim + extra
        if type(d) is SymInt:
            raise Unsupported("symbolic dim number")
        if d < -n or d >= n:
            raise IndexError(f"Dimension out of range (got {d})")
        return d % n if n else 0

    def unsqueeze(self, d):
        d = self._d(d, 1)
        sh = self._shape[:d] + (1,) + self._shape[d:]
        return self._view(sh, lambda i: i[:d] + i[d + 1:], lambda b: (TRUE, b[:d] + (I0,) + b[d:]), self._contig)

    def _sq1(self, d):
        sh = self._shape[:d] + self._shape[d + 1:]
        return self._view(sh, lambda i: i[:d] + (I0,) + i[d:], lambda b: (TRUE, b[:d] + b[d + 1:]), self._contig)

    def squeeze(self, dim=None):
        if dim is None:
            ds = [k for k in range(self.ndim)]
        elif isinstance(dim, (tuple, list)):
            ds = [self._d(k) for k in dim]
        else:
            ds = [self._d(dim)] if self.ndim else []
        r = self
        for d in sorted(ds, reverse=True):
            x = self._shape[d]
            if type(x) is SymInt:
                x = 1 if bool(x == 1) else 2
            if x == 1:
                r = r._sq1(d)
        return r

    def permute(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        p = [self._d(k) for k in p]
        if sorted(p) != list(range(self.ndim)):
            raise RuntimeError("permute: repeated dim")
        inv = [p.index(k) for k in range(self.ndim)]
        sh = [self._shape[k] for k in p]
        return self._view(sh, lambda i: tuple(i[inv[k]] for k in range(len(inv))),
                          lambda b: (TRUE, tuple(b[k] for k in p)), p == list(range(self.ndim)) and self._contig)

    def transpose(self, a, b):
        p = list(range(self.ndim))
        a, b = self._d(a), self._d(b)
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    swapaxes = swapdims = transpose

    def movedim(self, a, b):
        a = [a] if not isinstance(a, (tuple, list)) else list(a)
        b = [b] if not isinstance(b, (tuple, list)) else list(b)
        a = [self._d(k) for k in a]
        b = [self._d(k) for k in b]
        p = [k for k in range(self.ndim) if k not in a]
        for y, x in sorted(zip(b, a)):
            p.insert(y, x)
        return self.permute(*p)

    moveaxis = movedim

    def t(self):
        return self.transpose(0, 1) if self.ndim == 2 else self

    def expand(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        off = len(sz) - self.ndim
        if off < 0:
            raise RuntimeError("expand: fewer dims")
        sh = []
        for k, s in enumerate(sz):
            if k < off:
                sh.append(_dimv(s))
                continue
            d = self._shape[k - off]
            s = _dimv(s)
            if type(s) is not SymInt and s == -1:
                sh.append(d)
            elif is_one(d):
                sh.append(s)
            else:
                r = same_dim(d, s)
                if r is None:
                    if bool(mkbool(tm.eq(dimT(d), dimT(s)))):
                        r = True
                    elif type(d) is SymInt and bool(d == 1):
                        sh.append(s)
                        continue
                if not r:
                    raise RuntimeError(f"The expanded size {s} must match the existing size {d}")
                sh.append(d)
        sh = SymSize(sh)
        m = bmap(self._shape, sh)
        if m is None:
            return self._view(sh, lambda i: i, lambda b: (TRUE, b), self._contig)
        return self._view(sh, m, None)

    def expand_as(self, o):
        return self.expand(*o.shape)

    def broadcast_to(self, sz):
        return self.expand(*sz)

    def view_as(self, o):
        return self.view(*o.shape)

    def reshape(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        if len(sz) == 1 and isinstance(sz[0], torch.dtype):
            raise Unsupported("view(dtype)")
        sh, to, frm = reshape_maps(self._shape, sz)
        return self._view(sh, to, frm, True) if self._contig else \
            SymTensor(sh, (lambda f: (lambda i: f(to(i))))(self.reader()), self.dtype)

    def view(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        if len(sz) == 1 and isinstance(sz[0], torch.dtype):
            raise Unsupported("view(dtype)")
        sh, to, frm = reshape_maps(self._shape, sz)
        return self._view(sh, to, frm, self._contig)

    def reshape_as(self, o):
        return self.reshape(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        if self.ndim == 0:
            return self.reshape(1)
        a, b = self._d(start_dim), self._d(end_dim)
        m = 1
        for d in self._shape[a:b + 1]:
            m = m * d
        return self.reshape(*self._shape[:a], m, *self._shape[b + 1:])

    def ravel(self):
        return self.flatten()

    def unflatten(self, dim, sizes):
        d = self._d(dim)
        return self.reshape(*self._shape[:d], *sizes, *self._shape[d + 1:])

    def repeat(self, *sz):
        if len(sz) == 1 and isinstance(sz[0], (tuple, list)):
            sz = tuple(sz[0])
        sz = [_dimv(s) for s in sz]
        off = len(sz) - self.ndim
        x = self
        base = [1] * off + list(self._shape)
        sh = [b * s for b, s in zip(base, sz)]
        f = self.reader()

        def fn(i):
            out = []
            for k in range(off, len(sz)):
                b = base[k]
                if is_one(sz[k]):
                    out.append(i[k])
                elif is_one(b):
                    out.append(I0)
                else:
                    out.append(smart_imod(i[k], dimT(b)))
            return f(tuple(out))
        return SymTensor(sh, fn, self.dtype)

    tile = repeat

    def repeat_interleave(self, repeats, dim=None, **k):
        x = self
        if dim is None:
            x, dim = self.flatten(), 0
        dim = x._d(dim)
        if isinstance(repeats, torch.Tensor):
            repeats = lift(repeats)
            if repeats.ndim == 0 or (repeats.ndim == 1 and is_one(repeats.shape[0])):
                repeats = repeats.item() if repeats.ndim == 0 else repeats[0].item()
            elif repeats.ndim == 1 and type(repeats.shape[0]) is not SymInt:
                parts = []
                for j in range(repeats.shape[0]):
                    r = repeats[j].item()
                    sl = x.narrow(dim, j, 1)
                    sh = list(sl.shape)
                    sh[dim] = r
                    parts.append(sl.expand(*sh))
                return cat_(parts, dim)
            else:
                raise Unsupported("repeat_interleave with a symbolic number of repeats")
        sh = list(x.shape)
        sh[dim] = sh[dim] * repeats
        f = x.reader()
        rT = dimT(repeats)
        return SymTensor(sh, lambda i: f(i[:dim] + (smart_idiv(i[dim], rT),) + i[dim + 1:]), x.dtype)

    def to_dense(self, *a, **k):
        return self            # sparse matrices are kept as the dense matrix they denote

    def coalesce(self):
        return self

    def narrow(self, dim, start, length):
        dim = self._d(dim)
        return self[(slice(None),) * dim + (slice(start, start + length),)]

    def select(self, dim, index):
        dim = self._d(dim)
        return self[(slice(None),) * dim + (index,)]

    def unbind(self, dim=0):
        dim = self._d(dim)
        n = self._shape[dim]
        if type(n) is SymInt:
            raise Unsupported("unbind of a symbolic dimension")
        return tuple(self.select(dim, k) for k in range(n))

    def split(self, sizes, dim=0):
        dim = self._d(dim)
        n = self._shape[dim]
        if isinstance(sizes, torch.Tensor):
            sizes = sizes.tolist()
        if not isinstance(sizes, (list, tuple)):
            if type(n) is SymInt or type(sizes) is SymInt:
                if same_dim(n, sizes) is True:
                    return (self.narrow(dim, 0, n),)
                raise Unsupported("split of a symbolic dimension")
            sizes = [min(sizes, n - k) for k in range(0, n, sizes)] or [0]
        tot = 0
        out = []
        for s in sizes:
            out.append(self.narrow(dim, tot, s))
            tot = tot + s
        if same_dim(tot, n) is not True:
            if not bool(tot == n):
                raise RuntimeError("split sizes do not sum to the dimension")
        return tuple(out)

    def chunk(self, n, dim=0):
        d = self._shape[self._d(dim)]
        if type(d) is SymInt:
            raise Unsupported("chunk of a symbolic dimension")
        return self.split(-(-d // n), dim)

    def flip(self, *dims, **k):
        dims = dims or (k["dims"],)
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = dims[0]
        ds = {self._d(d) for d in dims}
        f = self.reader()
        sh = self._shape
        one = tm.num(1, "I")
        return SymTensor(sh, lambda i: f(tuple(tm.sub(tm.sub(dimT(sh[k]), one), x) if k in ds else x
                                               for k, x in enumerate(i))), self.dtype)

    def roll(self, shifts, dims=None):
        if isinstance(shifts, int):
            shifts, dims = [shifts], [dims]
        x = self
        for s, d in zip(shifts, dims):
            d = x._d(d)
            f = x.reader()
            n = dimT(x.shape[d])
            x = SymTensor(x.shape, (lambda f, d, n, s: lambda i: f(
                i[:d] + (smart_imod(tm.sub(i[d], scalar_term(s)), n),) + i[d + 1:]))(f, d, n, s), x.dtype)
        return x

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset:
            raise Unsupported("diagonal offset")
        a, b = self._d(dim1), self._d(dim2)
        rest = [k for k in range(self.ndim) if k not in (a, b)]
        n = self._shape[a]
        m = self._shape[b]
        if same_dim(n, m) is not True:
            raise Unsupported("diagonal of a non-square matrix")

        def to(i):
            out = [None] * self.ndim
            for j, k in enumerate(rest):
                out[k] = i[j]
            out[a] = out[b] = i[-1]
            return tuple(out)

        def frm(bi):
            return tm.eq(bi[a], bi[b]), tuple(bi[k] for k in rest) + (bi[a],)
        return self._view([self._shape[k] for k in rest] + [n], to, frm)

    def diag_embed(self, offset=0, dim1=-2, dim2=-1):
        d = self.ndim + 1
        if offset != 0 or {dim1 % d, dim2 % d} != {d - 2, d - 1}:
            raise Unsupported("diag_embed with non-default dims")
        f = self.reader()
        n = self._shape[-1]
        z = tm.num(0, SORT[cat(self.dtype)])
        return SymTensor(self._shape + (n,), lambda i: tm.ite(tm.eq(i[-1], i[-2]), f(i[:-1]), z), self.dtype)

    def diag(self):
        return self.diag_embed() if self.ndim == 1 else self.diagonal()

    def tril(self, diagonal=0):
        f = self.reader()
        z = tm.num(0, SORT[cat(self.dtype)])
        k = tm.num(diagonal, "I")
        return SymTensor(self._shape, lambda i: tm.ite(tm.le(i[-1], tm.add(i[-2], k)), f(i), z), self.dtype)

    def triu(self, diagonal=0):
        f = self.reader()
        z = tm.num(0, SORT[cat(self.dtype)])
        k = tm.num(diagonal, "I")
        return SymTensor(self._shape, lambda i: tm.ite(tm.le(tm.add(i[-2], k), i[-1]), f(i), z), self.dtype)

    # ---- indexing
    def __getitem__(self, key):
        v, adv = self._basic(key)
        if not adv:
            return v
        return adv_get(v, adv)

    def __setitem__(self, key, val):
        v, adv = self._basic(key)
        if isinstance(val, (list, tuple)):
            val = tensor_(val, dtype=self.dtype)
        val = lift(val) if isinstance(val, torch.Tensor) else val
        if not adv:
            if isinstance(val, SymTensor):
                while val.ndim > v.ndim and is_one(val.shape[0]):
                    val = val._sq1(0)
                val = val.expand(*v.shape)
                f = val.reader()
            else:
                t = scalar_term(val)
                f = lambda i: t
            dt = self.dtype
            v._write(lambda i: cast(f(i), dt))
            return
        adv_set(v, adv, val)

    def _basic(self, key):
        """apply the basic part of an index; -> (view, {dim: index tensor})"""
        if not isinstance(key, tuple) or isinstance(key, SymSize):
            key = (key,)
        items = []
        for k in key:
            if isinstance(k, (list, range)) and not isinstance(k, torch.Tensor):
                k = tensor_(list(k))
            elif isinstance(k, np.ndarray):
                k = torch.from_numpy(k)
            items.append(k)
        used = 0
        for k in items:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, torch.Tensor) and k.dtype is torch.bool:
                used += k.dim()
            elif isinstance(k, bool) or type(k) is SymBool:
                raise Unsupported("bool scalar index")
            else:
                used += 1
        if used > self.ndim:
            raise IndexError("too many indices for tensor")
        if not any(k is Ellipsis for k in items):
            items.append(Ellipsis)
        out = []
        for k in items:
            if k is Ellipsis:
                out += [slice(None)] * (self.ndim - used)
            else:
                out.append(k)
        # plan
        d = 0
        plan = []       # per base dim: ('int', T) | ('sl', start, step, viewdim)
        vshape = []
        adv = {}
        news = []
        for k in out:
            if k is None:
                vshape.append(1)
                news.append(len(vshape) - 1)
                continue
            if isinstance(k, torch.Tensor):
                kk = lift(k)
                if kk.dtype is torch.bool:
                    adv[len(vshape)] = kk
                    for j in range(kk.ndim):
                        plan.append(("sl", I0, 1, len(vshape)))
                        vshape.append(self._shape[d])
                        d += 1
                    continue
                if kk.ndim == 0 and cat(kk.dtype) == 1:
                    k = kk.item()
                else:
                    adv[len(vshape)] = kk
                    plan.append(("sl", I0, 1, len(vshape)))
                    vshape.append(self._shape[d])
                    d += 1
                    continue
            if isinstance(k, slice):
                st, step, n = slice_dims(k, self._shape[d])
                plan.append(("sl", st, step, len(vshape)))
                vshape.append(n)
                d += 1
                continue
            # integer
            plan.append(("int", norm_index(k, self._shape[d])))
            d += 1
        full = all(p[0] == "sl" and p[1] is I0 and p[2] == 1 for p in plan) and not news
        shp = self._shape
        if full and all(a is b or (type(a) is not SymInt and a == b) for a, b in zip(vshape, shp)):
            v = self._view(vshape, lambda i: i, lambda b: (TRUE, b), self._contig)
            return v, adv

        def to(i):
            r = []
            for p in plan:
                if p[0] == "int":
                    r.append(p[1])
                else:
                    x = i[p[3]]
                    if p[2] != 1:
                        x = tm.mul(tm.num(p[2], "I"), x)
                    r.append(tm.add(p[1], x) if p[1] is not I0 else x)
            return tuple(r)

        nv = len(vshape)

        def frm(b):
            r = [I0] * nv
            cs = []
            for k, p in enumerate(plan):
                if p[0] == "int":
                    cs.append(tm.eq(b[k], p[1]))
                else:
                    x = tm.sub(b[k], p[1]) if p[1] is not I0 else b[k]
                    fulld = p[1] is I0 and p[2] == 1 and same_dim(vshape[p[3]], shp[k]) is True
                    if p[2] != 1:
                        s = tm.num(p[2], "I")
                        cs.append(tm.eq(tm.imod(x, s), I0))
                        x = tm.idiv(x, s)
                    if not fulld:
                        cs.append(tm.le(I0, x))
                        cs.append(tm.lt(x, dimT(vshape[p[3]])))
                    r[p[3]] = x
            return tm.and_(*cs), tuple(r)
        lead = True
        contig = self._contig
        for k, p in enumerate(plan):
            if p[0] == "sl" and not (p[1] is I0 and p[2] == 1 and same_dim(vshape[p[3]], shp[k]) is True):
                if not all(q[0] == "int" for q in plan[:k]):
                    contig = False
            if p[0] == "int" and not all(q[0] == "int" for q in plan[:k]):
                contig = False
            if p[0] == "sl" and p[2] != 1:
                contig = False
        return self._view(vshape, to, frm, contig), adv

    # ---- torch function protocol
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def backward(self, *a, **k):
        raise Unsupported("backward")

    def register_hook(self, *a, **k):
        raise Unsupported("hook")

    def apply_(self, *a):
        raise Unsupported("apply_")


def _dimv(s):
    """size argument -> python int or SymInt"""
    if type(s) is SymInt or type(s) is int:
        return s
    if isinstance(s, torch.Tensor):
        v = lift(s).item()
        return v
    if isinstance(s, (int, np.integer)):
        return int(s)
    if type(s) is SymReal:
        raise TypeError("size must be int")
    raise TypeError(f"bad size {s!r}")


def _sz(size, k=None):
    if k and "size" in k:
        size = k.pop("size")
    if len(size) == 1 and isinstance(size[0], (tuple, list)):
        size = tuple(size[0])
    return SymSize(_dimv(s) for s in size)


def norm_index(k, n):
    t = scalar_term(k)
    if t.sort != "I":
        raise IndexError("index must be an integer")
    nt = dimT(n)
    if t.op == "num":
        v = int(t.args[0])
        if v < 0:
            r = tm.add(nt, t)
            inb = tm.le(I0, r)
        else:
            r = t
            inb = tm.lt(t, nt)
        if inb is TRUE:
            return r
        if inb is FALSE or not bool(mkbool(inb)):
            raise IndexError(f"index {v} is out of bounds for dimension with size {n}")
        return r
    inb = tm.and_(tm.le(I0, t), tm.lt(t, nt))
    if bool(mkbool(inb)):
        return t
    if bool(mkbool(tm.and_(tm.lt(t, I0), tm.le(I0, tm.add(t, nt))))):
        return tm.add(t, nt)
    raise IndexError("index out of bounds")


def slice_dims(k, n):
    step = 1 if k.step is None else scalar_int(k.step)
    if step <= 0:
        raise ValueError("step must be greater than zero")
    nt = dimT(n)

    def bound(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, torch.Tensor):
            x = lift(x).item()
        t = scalar_term(x)
        if t.sort != "I":
            raise TypeError("slice indices must be integers")
        if t.op == "num" and t.args[0] < 0:
            t = tm.add(nt, t)
            if t.op == "num":
                return t if t.args[0] >= 0 else I0
            return t if ent(tm.le(I0, t)) else tm.tmax(t, I0)
        if t.op != "num" and not ent(tm.le(I0, t)):
            if bool(mkbool(tm.lt(t, I0))):
                t = tm.tmax(tm.add(nt, t), I0)
        if t.op == "num" and nt.op == "num":
            return t if t.args[0] <= nt.args[0] else nt
        if t is nt or ent(tm.le(t, nt)):
            return t
        if bool(mkbool(tm.le(t, nt))):
            return t
        return nt
    a = bound(k.start, I0)
    b = bound(k.stop, nt)
    ln = tm.sub(b, a)
    if step != 1:
        ln = smart_idiv(tm.add(ln, tm.num(step - 1, "I")), tm.num(step, "I"))
    if ln.op == "num":
        if ln.args[0] < 0:
            ln = I0
    elif not ent(tm.le(I0, ln)):
        if bool(mkbool(tm.lt(ln, I0))):
            ln = I0
    return a, step, mkint(ln)


def scalar_int(x):
    t = scalar_term(x)
    if t.op == "num":
        return int(t.args[0])
    raise Unsupported("symbolic step")


def _group(old, new):
    """align dims of equal products; -> list of (old range, new range)"""
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        # single equal dims
        if i < len(old) and j < len(new) and same_syn(old[i], new[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        gi, gj = [], []
        pi, pj = tm.num(1, "I"), tm.num(1, "I")
        # grow until products agree
        while True:
            if (gi or gj) and pi is pj:
                break
            if i >= len(old) and j >= len(new):
                return None
            # decide which side to grow
            grow_old = divides(pi, pj) if i < len(old) else False
            if not gi and i < len(old):
                grow_old = True
            if gi and not gj and j < len(new):
                grow_old = False
            elif gi and gj:
                if pi.op == "num" and pj.op == "num":
                    grow_old = pi.args[0] < pj.args[0] and i < len(old)
                else:
                    dn = divides(pj, pi)   # pj | pi : grow new
                    do = divides(pi, pj)
                    if do and not dn and i < len(old):
                        grow_old = True
                    elif dn and not do and j < len(new):
                        grow_old = False
                    else:
                        grow_old = i < len(old) and (j >= len(new) or len(gi) <= len(gj))
            if grow_old and i < len(old):
                gi.append(i)
                pi = tm.mul(pi, dimT(old[i]))
                i += 1
            elif j < len(new):
                gj.append(j)
                pj = tm.mul(pj, dimT(new[j]))
                j += 1
            elif i < len(old):
                gi.append(i)
                pi = tm.mul(pi, dimT(old[i]))
                i += 1
            else:
                return None
        groups.append((gi, gj))
    return groups


def same_syn(a, b):
    return dimT(a) is dimT(b)


def factors(t):
    return list(t.args) if t.op == "mul" else [t]


def divides(a, b):
    """a | b syntactically"""
    fb = factors(b)
    for f in factors(a):
        if f.op == "num":
            hit = [x for x in fb if x.op == "num" and f.args[0] != 0 and x.args[0] % f.args[0] == 0]
            if f.args[0] == 1:
                continue
            if not hit:
                return False
            fb.remove(hit[0])
            fb.append(tm.num(hit[0].args[0] / f.args[0], "I"))
        elif f in fb:
            fb.remove(f)
        else:
            return False
    return True


def quotient(total, part):
    from .sess import _exact_idiv
    if part.op == "num" and part.args[0] == 1:
        return total
    if total.op == "num" and part.op == "num":
        if part.args[0] == 0:
            raise RuntimeError("cannot reshape: ambiguous")
        q = total.args[0] / part.args[0]
        if q.denominator != 1:
            raise RuntimeError("shape is invalid for input")
        return tm.num(q, "I")
    if total.op == "num" and total.args[0] == 0:
        return I0
    q = _exact_idiv(total, part)
    if q is None:
        # total == part * q with q provable?
        q = smart_idiv(total, part)
        if not ent(tm.eq(tm.mul(q, part), total)):
            if not bool(mkbool(tm.eq(tm.mul(q, part), total))):
                raise RuntimeError("shape is invalid for input size")
    return q


def reshape_maps(old, sz):
    new = [_dimv(s) for s in sz]
    neg = [k for k, s in enumerate(new) if type(s) is not SymInt and s == -1]
    tot = numelT(old)
    if neg:
        part = tm.num(1, "I")
        for k, s in enumerate(new):
            if k != neg[0]:
                part = tm.mul(part, dimT(s))
        new[neg[0]] = mkint(quotient(tot, part))
    nt = numelT(new)
    if nt is not tot:
        c = tm.eq(nt, tot)
        if c is FALSE or not bool(mkbool(c)):
            raise RuntimeError(f"shape '{tuple(new)}' is invalid for input of size {tuple(old)}")
    new = SymSize(new)
    # drop unit dims, align the rest
    oi = [k for k, d in enumerate(old) if not is_one(d)]
    ni = [k for k, d in enumerate(new) if not is_one(d)]
    g = _group([old[k] for k in oi], [new[k] for k in ni])
    if g is None:
        if len(oi) == len(ni) and all(ent(tm.eq(dimT(old[a]), dimT(new[b]))) for a, b in zip(oi, ni)):
            g = [([k], [k]) for k in range(len(oi))]
        else:
            g = [(list(range(len(oi))), list(range(len(ni))))]
    g = [([oi[a] for a in x], [ni[b] for b in y]) for x, y in g]

    def mapper(src, dst, nd, sd):
        # src: list of (from dims), dst: (to dims)
        def f(i):
            r = [I0] * len(dst)
            for a, b in nd:
                # a: dims of dst group, b: dims of src group
                if len(a) == 1 and len(b) == 1:
                    r[a[0]] = i[b[0]]
                    continue
                if not a or not b:
                    continue
                l = i[b[0]]
                for k in b[1:]:
                    l = lin(l, i[k], dimT(src[k]))
                for k in reversed(a[1:]):
                    n = dimT(dst[k])
                    r[k] = smart_imod(l, n)
                    l = smart_idiv(l, n)
                r[a[0]] = l
            return tuple(r)
        return f
    to = mapper(new, old, g, None)
    fr = mapper(old, new, [(b, a) for a, b in g], None)
    return new, to, (lambda b: (TRUE, fr(b)))


# ------------------------------------------------------------ advanced index
_MASKS = {}


def closed(shape, f, op="ball"):
    """canonical closed term of a boolean tensor (identity of a mask)"""
    ks = [tm.fresh("m", "I") for _ in shape]
    t = f(tuple(ks))
    t = tm.mk("maskbody", (t,), "B")
    for k, d in reversed(list(zip(ks, shape))):
        t = tm.mk("pair", (tm.subst(t, {k: tm.var(f"@{ks.index(k)}", "I")}), dimT(d)), "B")
    return t


def all_true(n, f):
    """is the mask f entailed to be true on the whole of range(n)?  (concatenations: part by part)"""
    if ent(forall((n,), f)):
        return True
    N = dimT(n)
    if N.op == "mul" and N.args[0].op == "num" and 2 <= N.args[0].args[0] <= 4 and len(N.args) == 2:
        parts = [N.args[1]] * int(N.args[0].args[0])
    elif N.op == "add" and 2 <= len(N.args) <= 4 and not any(x.op == "num" for x in N.args):
        parts = list(N.args)
    else:
        return False
    import itertools
    for order in set(itertools.permutations(parts)):
        o, ok = I0, True
        for p in order:
            g = lambda i, o=o: f((tm.add(i[0], o),))
            if not ent(tm.le(I0, p)) or not ent(forall((mkint(p),), g)):
                ok = False
                break
            o = tm.add(o, p)
        if ok:
            return True
    return False


def mask_info(mask):
    """(count term, nz(j) -> index tuple, rank(idx) -> T) of a boolean tensor"""
    f = mask.reader()
    shape = mask.shape
    if len(shape) == 1 and all_true(shape[0], f):
        return dimT(shape[0]), (lambda j: (j,)), (lambda idx: idx[0])       # everything is selected
    key = closed(shape, f)
    name = f"nz{key.id}"
    rname = f"rank{key.id}"
    s = S()
    cnt = reduce_all(shape, lambda i: tm.to_int(f(i)), "sum")
    if not hasattr(s, "masks"):
        s.masks = {}

    def nz(j):
        if j.op == "app" and j.args[0] == rname:
            return tuple(j.args[1:])
        return tuple(tm.app(name, (j, tm.num(k, "I"))) if len(shape) > 1 else tm.app(name, (j,))
                     for k in range(len(shape)))

    def rank(idx):
        return tm.app(rname, idx)
    if key.id not in s.masks:
        s.masks[key.id] = True
        # facts: every nz(j) is an in-range true position; nz/rank are inverse
        j = tm.fresh("j", "I")
        p = nz(j)
        body = tm.and_(f(p), *[tm.and_(tm.le(I0, x), tm.lt(x, dimT(d))) for x, d in zip(p, shape)],
                       tm.eq(tm.app(rname, p), j))
        s.assume(tm.close_binder("ball", j, I0, cnt, body))
        ks = [tm.fresh("j", "I") for _ in shape]
        r = tm.app(rname, ks)
        q = tuple(tm.app(name, (r, tm.num(k, "I"))) if len(shape) > 1 else tm.app(name, (r,))
                  for k in range(len(shape)))
        b = tm.implies(f(tuple(ks)), tm.and_(tm.le(I0, r), tm.lt(r, cnt), *[tm.eq(x, y) for x, y in zip(q, ks)]))
        for k, d in reversed(list(zip(ks, shape))):
            b = tm.close_binder("ball", k, I0, dimT(d), b)
        s.assume(b)
    return cnt, nz, rank


def wrap_index(t, n):
    """python-style negative index on a term (kept branch-free)"""
    if t.op == "num":
        return tm.add(dimT(n), t) if t.args[0] < 0 else t
    if ent(tm.le(I0, t)):
        return t
    return tm.ite(tm.lt(t, I0), tm.add(dimT(n), t), t)


class Lazyw:
    pass


def adv_plan(v, adv):
    """expand masks to integer index functions; -> (bshape, {dim: fn}, out position)"""
    idx = {}
    shapes = []
    for d, k in adv.items():
        if k.dtype is torch.bool:
            for j in range(k.ndim):
                if same_dim(k.shape[j], v.shape[d + j]) is not True:
                    if not bool(mkbool(tm.eq(dimT(k.shape[j]), dimT(v.shape[d + j])))):
                        raise IndexError("The shape of the mask does not match the indexed tensor")
            if all(type(x) is not SymInt for x in k.shape) and k.numel() <= UNROLL:
                # concrete mask?
                vals = [(ix, k.elem(ix)) for ix in all_idx(k.shape)]
                if all(x in (TRUE, FALSE) for _, x in vals):
                    sel = [ix for ix, x in vals if x is TRUE]
                    for j in range(k.ndim):
                        idx[d + j] = const_list([s[j] for s in sel])
                    shapes.append((len(sel),))
                    continue
            cnt, nz, _ = mask_info(k)
            for j in range(k.ndim):
                idx[d + j] = ((mkint(cnt),), (lambda nz, j: lambda i: nz(i[0])[j])(nz, j))
            shapes.append((mkint(cnt),))
        else:
            f = k.reader()
            n = v.shape[d]
            idx[d] = (k.shape, (lambda f, n: lambda i: wrap_index(f(i), n))(f, n))
            shapes.append(tuple(k.shape))
    bs = bshape(*shapes)
    fns = {}
    for d, (sh, f) in idx.items():
        m = bmap(sh, bs)
        fns[d] = f if m is None else (lambda f, m: lambda i: f(m(i)))(f, m)
    ds = sorted(fns)
    adj = ds == list(range(ds[0], ds[0] + len(ds)))
    return bs, fns, (ds[0] if adj else 0)


def const_list(ts):
    def f(i):
        if i[0].op == "num":
            return ts[int(i[0].args[0])]
        r = ts[-1]
        for k in range(len(ts) - 2, -1, -1):
            r = tm.ite(tm.eq(i[0], tm.num(k, "I")), ts[k], r)
        return r
    return ((len(ts),), f)


def all_idx(shape):
    out = [()]
    for d in shape:
        out = [x + (tm.num(k, "I"),) for x in out for k in range(d)]
    return out


def adv_get(v, adv):
    bs, fns, pos = adv_plan(v, adv)
    rest = [d for d in range(v.ndim) if d not in fns]
    nb = len(bs)
    sh = [v.shape[d] for d in rest]
    pre = len([d for d in rest if d < pos]) if pos else 0
    if pos == 0:
        pre = 0
    shape = sh[:pre] + list(bs) + sh[pre:]
    f = v.reader()

    def fn(i):
        b = i[pre:pre + nb]
        o = i[:pre] + i[pre + nb:]
        full = [None] * v.ndim
        for d, x in zip(rest, o):
            full[d] = x
        for d, g in fns.items():
            full[d] = g(b)
        return f(tuple(full))
    r = SymTensor(shape, fn, v.dtype)
    return r


def adv_set(v, adv, val, accumulate=False):
    dt = v.dtype
    if len(adv) == 1:
        ((d, k),) = adv.items()
        if k.dtype is torch.bool:
            kf = k.reader()
            kd = k.ndim
            if not isinstance(val, SymTensor) or val.ndim == 0:
                t = cast(scalar_term(val), dt)
                v._write(lambda i: t, lambda i: kf(i[d:d + kd]))
                return
            cnt, nz, rank = mask_info(k)
            tsh = SymSize(tuple(v.shape[:d]) + (mkint(cnt),) + tuple(v.shape[d + kd:]))
            val = val.expand(*tsh) if not all(is_one(x) for x in val.shape) else val.reshape(*([1] * len(tsh))).expand(*tsh)
            vf = val.reader()
            v._write(lambda i: cast(vf(i[:d] + (rank(i[d:d + kd]),) + i[d + kd:]), dt),
                     lambda i: kf(i[d:d + kd]))
            return
    bs, fns, pos = adv_plan(v, adv)
    rest = [d for d in range(v.ndim) if d not in fns]
    pre = len([d for d in rest if d < pos]) if pos else 0
    nb = len(bs)
    shape = SymSize([v.shape[d] for d in rest][:pre] + list(bs) + [v.shape[d] for d in rest][pre:])
    if isinstance(val, SymTensor):
        vf = val.expand(*shape).reader()
    else:
        t = scalar_term(val)
        vf = lambda i: t
    sym = [x for x in bs if type(x) is SymInt]
    if not sym:
        # sequential writes, later ones win
        for b in all_idx(bs):
            at = {d: g(b) for d, g in fns.items()}

            def c(i, at=at):
                return tm.and_(*[tm.eq(i[d], x) for d, x in at.items()])

            def w(i, b=b):
                o = tuple(i[d] for d in rest)
                return cast(vf(o[:pre] + b + o[pre:]), dt)
            if accumulate:
                old = v.reader()
                v._write((lambda old, w: lambda i: tm.add(old(i), w(i)))(old, w), c)
            else:
                v._write(w, c)
        return
    # symbolic index tensor: identify an inverse when each index function is the
    # identity of one batch coordinate or a value equal for all its writers
    if accumulate:
        old = v.reader()

        def fn(i):
            def body(b):
                c = tm.and_(*[tm.eq(i[d], g(b)) for d, g in fns.items()])
                o = tuple(i[d] for d in rest)
                x = vf(o[:pre] + b + o[pre:])
                return tm.ite(c, x, tm.num(0, x.sort))
            return tm.add(old(i), reduce_all(bs, body, "sum"))
        v._write(fn)
        return
    # dims whose index is a pure batch coordinate
    ks = tuple(tm.fresh("w", "I") for _ in bs)
    solved = {}
    other = {}
    for d, g in fns.items():
        t = g(ks)
        if t in ks and t not in solved:
            solved[t] = d
        else:
            other[d] = t
    free = [k for k, n in zip(ks, bs) if k not in solved and not is_one(n)]
    if not free:
        def cond(i):
            m = {k: i[solved[k]] if k in solved else I0 for k in ks}
            cs = [tm.eq(i[d], tm.subst(t, m)) for d, t in other.items()]
            for k, n in zip(ks, bs):
                if k in solved:
                    cs += [tm.lt(m[k], dimT(n))] if same_dim(n, v.shape[solved[k]]) is not True else []
            return tm.and_(*cs)

        def w(i):
            b = tuple(i[solved[k]] if k in solved else I0 for k in ks)
            o = tuple(i[d] for d in rest)
            return cast(vf(o[:pre] + b + o[pre:]), dt)
        v._write(w, cond)
        return
    # general scatter: element i receives the value of *some* writer b(i) (an
    # unspecified one when several write it), if any writer exists
    if isinstance(val, SymTensor):
        const_val = None
        tv = vf(tuple(tm.fresh("u", "I") for _ in shape))
        if not any(x.args[0].startswith("u!") for x in tm.free_vars(tv)):
            const_val = tv
    else:
        const_val = scalar_term(val)

    def exists(i):
        def body(b):
            return tm.not_(tm.and_(*[tm.eq(i[d], g(b)) for d, g in fns.items()]))
        return tm.not_(forall(bs, body))
    if const_val is not None:
        cv = cast(const_val, dt)
        v._write(lambda i: cv, exists)
        return
    raise Unsupported("scatter write with a symbolic index tensor")


def forall(shape, body):
    ks = [tm.fresh("q", "I") for _ in shape]
    t = body(tuple(ks))
    for k, d in reversed(list(zip(ks, shape))):
        t = tm.close_binder("ball", k, I0, dimT(d), t)
    return t


# ------------------------------------------------------------ reductions
def reduce_all(shape, f, op):
    """fold f over all indices of shape"""
    def rec(pre, ds):
        if not ds:
            return f(pre)
        d = ds[0]
        if type(d) is not SymInt and d <= UNROLL:
            xs = [rec(pre + (tm.num(k, "I"),), ds[1:]) for k in range(d)]
            return fold(op, xs)
        k = tm.fresh("r", "I")
        b = rec(pre + (k,), ds[1:])
        if op == "sum" and b.op == "num" and b.sort == "I":
            return tm.mul(b, dimT(d))        # sizes are never negative
        return tm.close_binder(op, k, I0, dimT(d), b)
    return rec((), list(shape))


def fold(op, xs):
    if op == "sum":
        return tm.add(*xs) if xs else tm.ZERO
    if op == "prod":
        return tm.mul(*xs) if xs else tm.ONE
    if op == "ball":
        return tm.and_(*xs)
    r = xs[0]
    for x in xs[1:]:
        r = tm.ite(tm.lt(r, x), x, r) if op == "bmax" else tm.ite(tm.lt(x, r), x, r)
    return r


def reduce_t(x, op, dim, keepdim, pre=None, dt=None):
    if dim is None:
        ds = list(range(x.ndim))
    elif isinstance(dim, (tuple, list)):
        ds = sorted({x._d(d) for d in dim})
        if not ds:
            ds = list(range(x.ndim))
    else:
        ds = [x._d(dim)] if x.ndim else []
    rest = [d for d in range(x.ndim) if d not in ds]
    f = x.reader()
    rs = [x.shape[d] for d in ds]

    def fn(i):
        if keepdim:
            i = tuple(i[d] for d in rest)

        def body(k):
            full = [None] * x.ndim
            for d, y in zip(rest, i):
                full[d] = y
            for d, y in zip(ds, k):
                full[d] = y
            t = f(tuple(full))
            return pre(t) if pre else t
        return reduce_all(rs, body, op)
    sh = [1 if d in ds else x.shape[d] for d in range(x.ndim)] if keepdim else [x.shape[d] for d in rest]
    return SymTensor(sh, fn, dt or x.dtype)


def argreduce(x, dim, keepdim, mx):
    d = x._d(dim) if x.ndim else 0
    f = x.reader()
    n = x.shape[d] if x.ndim else 1
    if x.ndim == 0:
        return SymTensor((), lambda i: I0, torch.int64)

    def fn(i):
        pre = i[:d]
        post = i[d + 1:] if keepdim else i[d:]
        if type(n) is not SymInt and n <= UNROLL:
            v = f(pre + (I0,) + post)
            j = I0
            for k in range(1, n):
                y = f(pre + (tm.num(k, "I"),) + post)
                c = tm.lt(v, y) if mx else tm.lt(y, v)
                v, j = tm.ite(c, y, v), tm.ite(c, tm.num(k, "I"), j)
            return j
        k = tm.fresh("r", "I")
        return tm.close_binder("bargmax" if mx else "bargmin", k, I0, dimT(n), tm.to_real(f(pre + (k,) + post)))
    sh = list(x.shape)
    if keepdim:
        sh[d] = 1
    else:
        del sh[d]
    return SymTensor(sh, fn, torch.int64)


# ------------------------------------------------------------ lifting
def lift(x):
    if type(x) is SymTensor:
        return x
    if isinstance(x, torch.Tensor):
        return from_real(x)
    t = scalar_term(x)
    c = scalar_cat(x)
    return SymTensor((), lambda i: t, {0: torch.bool, 1: torch.int64, 2: torch.get_default_dtype()}[c])


def from_real(x):
    x = x.detach()
    if x.dtype.is_complex:
        raise Unsupported("complex constant")
    if x.numel() > 4096:
        raise Unsupported("large constant tensor")
    arr = x.cpu().numpy() if x.dtype is not torch.bfloat16 else x.float().numpy()
    arr = arr.copy()
    dt = x.dtype
    f32 = dt in (torch.float32, torch.float16)

    def val(v):
        if dt is torch.bool:
            return TRUE if v else FALSE
        if dt.is_floating_point:
            if f32:
                v = np.float32(v)
                w = float(str(v)) if np.isfinite(v) else float(v)
                for c in (math.pi, math.pi / 2, 180 / math.pi, math.pi / 180, 1 / 3, 2 * math.pi):
                    if np.float32(c) == v:
                        w = c
                return tm.to_real(tm.const(w))
            return tm.to_real(tm.const(float(v)))
        return tm.num(int(v), "I")
    flat = {}

    def get(ix):
        r = flat.get(ix)
        if r is None:
            r = val(arr[ix])
            flat[ix] = r
        return r

    def fn(idx):
        if all(i.op == "num" for i in idx):
            return get(tuple(int(i.args[0]) for i in idx))
        k = next(j for j, i in enumerate(idx) if i.op != "num")
        n = arr.shape[k]
        vals = [fn(idx[:k] + (tm.num(j, "I"),) + idx[k + 1:]) for j in range(n)]
        if not vals:
            raise Unsupported("element of an empty constant")
        # arange-like constants stay linear
        if len(vals) > 2 and all(v.op == "num" for v in vals):
            st = vals[1].args[0] - vals[0].args[0]
            if all(vals[j].args[0] == vals[0].args[0] + j * st for j in range(n)):
                srt = vals[0].sort
                ix = tm.to_real(idx[k]) if srt == "R" else idx[k]
                return tm.add(vals[0], tm.mul(tm.num(st, srt), ix))
        r = vals[-1]
        for j in range(n - 2, -1, -1):
            r = tm.ite(tm.eq(idx[k], tm.num(j, "I")), vals[j], r)
        return r
    return SymTensor(tuple(x.shape), fn, dt)


# ------------------------------------------------------------ elementwise
def ew(f, *xs, dt=None, conv=True):
    """elementwise op with broadcasting and promotion"""
    ts = [x if isinstance(x, SymTensor) else (lift(x) if isinstance(x, torch.Tensor) else x) for x in xs]
    rd = result_dtype(*ts)
    shapes = [t.shape for t in ts if isinstance(t, SymTensor)]
    sh = bshape(*shapes)
    rs = []
    for t in ts:
        if isinstance(t, SymTensor):
            m = bmap(t.shape, sh)
            r = t.reader()
            rs.append(r if m is None else (lambda r, m: lambda i: r(m(i)))(r, m))
        else:
            c = scalar_term(t)
            rs.append((lambda c: lambda i: c)(c))
    out = dt or rd
    if conv is True:
        cv = rd
    elif conv is None:
        cv = None
    else:
        cv = conv
    if cv is None:
        fn = lambda i: cast(f(*[r(i) for r in rs]), out)
    else:
        fn = lambda i: cast(f(*[cast(r(i), cv) for r in rs]), out)
    return SymTensor(sh, fn, out)


def fl(x):
    """float dtype of an op that always returns floats"""
    x = lift(x)
    return x.dtype if x.dtype.is_floating_point else torch.get_default_dtype()


def un(f):
    def op(x, *a, out=None, **k):
        x = lift(x)
        d = fl(x)
        r = x.reader()
        return SymTensor(x.shape, lambda i: f(tm.to_real(r(i))), d)
    return op


def inplace(name):
    def op(self, *a, **k):
        r = getattr(SymTensor, name)(self, *a, **k)
        if tuple(map(id, r.shape)) != tuple(map(id, self.shape)):
            r = r.expand(*self.shape)
        f = r.reader()
        dt = self.dtype
        self._write(lambda i: cast(f(i), dt))
        return self
    return op


def div_(a, b, *, rounding_mode=None, out=None):
    if rounding_mode is None:
        rd = result_dtype(*[lift(x) if isinstance(x, torch.Tensor) else x for x in (a, b)])
        if not rd.is_floating_point:
            rd = torch.get_default_dtype()
        return ew(tm.div, a, b, dt=rd, conv=rd)
    if rounding_mode == "floor":
        return ew(t_floordiv, a, b)
    if rounding_mode == "trunc":
        def tr(x, y):
            if x.sort == "R":
                return tm.to_real(tm.to_int(tm.div(x, y)))
            if y.op == "num" and y.args[0] > 0:
                return tm.ite(tm.le(I0, x), smart_idiv(x, y), tm.neg(smart_idiv(tm.neg(x), y)))
            if ent(tm.and_(tm.le(I0, x), tm.lt(I0, y))):
                return smart_idiv(x, y)
            raise Unsupported("trunc division")
        return ew(tr, a, b)
    raise Unsupported("div rounding mode")


def add_f(a, b, *, alpha=1, out=None):
    if alpha != 1:
        b = mul_f(b, alpha)
    return ew(lambda x, y: tm.or_(x, y) if x.sort == "B" else tm.add(x, y), a, b)


def sub_f(a, b, *, alpha=1, out=None):
    if alpha != 1:
        b = mul_f(b, alpha)
    return ew(tm.sub, a, b)


def mul_f(a, b, out=None):
    return ew(lambda x, y: tm.and_(x, y) if x.sort == "B" else tm.mul(x, y), a, b)


def pow_f(a, n, out=None):
    if isinstance(n, torch.Tensor):
        n = lift(n)
        if n.ndim == 0 and n.elem(()).op == "num":
            q = n.elem(()).args[0]
            n = q if n.dtype.is_floating_point and q.denominator != 1 else int(q) if q.denominator == 1 else q
        else:
            return ew(lambda x, y: rpow(x, y), a, n)
    if not isinstance(a, torch.Tensor):
        # scalar ** tensor
        return ew(lambda x, y: rpow(x, y), a, n)
    a = lift(a)
    if type(n) in (SymInt, SymReal):
        return ew(lambda x, y: rpow(x, y), a, n)
    dt = a.dtype
    if isinstance(n, float) and not dt.is_floating_point:
        dt = torch.get_default_dtype()
    r = a.reader()
    if dt.is_floating_point:
        return SymTensor(a.shape, lambda i: tm.power(tm.to_real(r(i)), n), dt)
    return SymTensor(a.shape, lambda i: tm.power(r(i), n), dt)


def rpow(x, y):
    if y.op == "num" and (y.args[0].denominator <= 2) and abs(y.args[0]) <= 12:
        return tm.power(tm.to_real(x), y.args[0])
    if x.op == "num" and x.args[0] == 2 and y.sort == "I":
        return tm.mk("rpow", (tm.to_real(x), tm.to_real(y)), "R")
    return tm.mk("rpow", (tm.to_real(x), tm.to_real(y)), "R")


def cmp(f):
    def op(a, b, out=None):
        ts = [lift(x) if isinstance(x, torch.Tensor) else x for x in (a, b)]
        rd = result_dtype(*ts)
        return ew(lambda x, y: f(x, y), *ts, dt=torch.bool, conv=rd if cat(rd) else (None if f in (tm.eq, tm.ne) else torch.int64))
    return op


def logic(f):
    def op(a, b, out=None):
        ts = [lift(x) if isinstance(x, torch.Tensor) else x for x in (a, b)]
        if cat(result_dtype(*ts)) != 0:
            raise Unsupported("bitwise op on integers")
        return ew(f, *ts)
    return op


def lognot(a, out=None):
    a = lift(a)
    if a.dtype is not torch.bool:
        raise Unsupported("bitwise not of integers")
    r = a.reader()
    return SymTensor(a.shape, lambda i: tm.not_(r(i)), torch.bool)


def where_(c, a=None, b=None, out=None):
    c = lift(c)
    if a is None:
        nz = nonzero_(c)
        return tuple(nz[:, k] for k in range(c.ndim))
    a = lift(a) if isinstance(a, torch.Tensor) else a
    b = lift(b) if isinstance(b, torch.Tensor) else b
    rd = result_dtype(a, b)
    if not isinstance(a, SymTensor) and isinstance(b, SymTensor):
        pass
    sh = bshape(c.shape, *[t.shape for t in (a, b) if isinstance(t, SymTensor)])

    def rdr(t):
        if isinstance(t, SymTensor):
            m = bmap(t.shape, sh)
            r = t.reader()
            return r if m is None else (lambda i: r(m(i)))
        k = scalar_term(t)
        return lambda i: k
    rc, ra, rb = rdr(c), rdr(a), rdr(b)

    def fn(i):
        k = cast(rc(i), torch.bool)
        if k is TRUE:
            return cast(ra(i), rd)
        if k is FALSE:
            return cast(rb(i), rd)
        return tm.ite(k, cast(ra(i), rd), cast(rb(i), rd))
    return SymTensor(sh, fn, rd)


def clamp_(x, min=None, max=None, out=None):
    x = lift(x)
    r = x
    if min is not None:
        r = ew(lambda a, b: tm.ite(tm.lt(a, b), b, a), r, min)
    if max is not None:
        r = ew(lambda a, b: tm.ite(tm.lt(b, a), b, a), r, max)
    return r


def max_f(x, *a, dim=None, keepdim=False, out=None, mx=True):
    x = lift(x)
    if a and isinstance(a[0], torch.Tensor):
        return maximum(x, a[0]) if mx else minimum(x, a[0])
    if "other" in ():
        pass
    if a:
        dim = a[0]
        if len(a) > 1:
            keepdim = a[1]
    if dim is None:
        r = reduce_t(x, "bmax" if mx else "bmin", None, False)
        return r
    _nonempty(x, dim)
    v = reduce_t(x, "bmax" if mx else "bmin", dim, keepdim)
    j = argreduce(x, dim, keepdim, mx)
    return (torch.return_types.max if mx else torch.return_types.min)._fake(v, j) if False else VI(v, j)


def _nonempty(x, dim):
    d = x.shape[x._d(dim)]
    if type(d) is not SymInt and d == 0:
        raise IndexError("max(): Expected reduction dim to have non-zero size")


class VI(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


def min_f(x, *a, **k):
    return max_f(x, *a, mx=False, **k)


def maximum(a, b, out=None):
    return ew(lambda x, y: tm.ite(tm.lt(x, y), y, x), a, b)


def minimum(a, b, out=None):
    return ew(lambda x, y: tm.ite(tm.lt(y, x), y, x), a, b)


def sum_f(x, dim=None, keepdim=False, *, dtype=None, axis=None, out=None):
    x = lift(x)
    dim = axis if dim is None and axis is not None else dim
    if isinstance(dim, torch.dtype):
        dim, dtype = None, dim
    dt = dtype or (x.dtype if cat(x.dtype) == 2 else torch.int64)
    return reduce_t(x, "sum", dim, keepdim, lambda t: cast(t, dt), dt)


def count(x, dim):
    if dim is None:
        return x.shape.numel()
    ds = dim if isinstance(dim, (tuple, list)) else [dim]
    r = 1
    for d in ds:
        r = r * x.shape[x._d(d)]
    return r


def mean_f(x, dim=None, keepdim=False, *, dtype=None, out=None):
    x = lift(x)
    return div_(sum_f(x, dim, keepdim, dtype=dtype), count(x, dim))


def prod_f(x, dim=None, keepdim=False, *, dtype=None, out=None):
    x = lift(x)
    dt = dtype or (x.dtype if cat(x.dtype) == 2 else torch.int64)
    return reduce_t(x, "prod", dim, keepdim, lambda t: cast(t, dt), dt)


def all_f(x, dim=None, keepdim=False, out=None):
    x = lift(x)
    return reduce_t(x, "ball", dim, keepdim, lambda t: cast(t, torch.bool), torch.bool)


def any_f(x, dim=None, keepdim=False, out=None):
    x = lift(x)
    r = reduce_t(x, "ball", dim, keepdim, lambda t: tm.not_(cast(t, torch.bool)), torch.bool)
    return lognot(r)


def var_f(x, dim=None, unbiased=True, keepdim=False, correction=None):
    x = lift(x)
    m = mean_f(x, dim, True) if dim is not None else mean_f(x)
    n = count(x, dim)
    c = correction if correction is not None else (1 if unbiased else 0)
    return div_(sum_f(mul_f(sub_f(x, m), sub_f(x, m)), dim, keepdim), n - c)


def norm_f(x, p=2, dim=None, keepdim=False, ord=None, out=None, dtype=None):
    x = lift(x)
    if ord is not None:
        p = ord
    if p in (None, 2, 2.0, "fro"):
        return un(tm.sqrt)(reduce_t(x, "sum", dim, keepdim, lambda t: tm.mul(t, t)))
    if p in (1, 1.0):
        return reduce_t(x, "sum", dim, keepdim, lambda t: tm.absv(t))
    if p == math.inf:
        return reduce_t(x, "bmax", dim, keepdim, lambda t: tm.absv(t))
    raise Unsupported("norm p")


def linalg_norm(x, ord=None, dim=None, keepdim=False, **k):
    return norm_f(x, 2 if ord is None else ord, dim, keepdim)


def cumsum_f(x, dim, dtype=None, out=None, op="sum"):
    x = lift(x)
    d = x._d(dim)
    dt = dtype or (x.dtype if cat(x.dtype) == 2 else torch.int64)
    f = x.reader()
    n = x.shape[d]

    def fn(i):
        if i[d].op == "num" and i[d].args[0] < UNROLL:
            xs = [cast(f(i[:d] + (tm.num(k, "I"),) + i[d + 1:]), dt) for k in range(int(i[d].args[0]) + 1)]
            return fold(op, xs)
        if type(n) is not SymInt and n <= 8:
            # prefix sums of a few entries, chosen by position
            xs = [cast(f(i[:d] + (tm.num(k, "I"),) + i[d + 1:]), dt) for k in range(int(n))]
            r = fold(op, xs)
            for k in reversed(range(int(n) - 1)):
                r = tm.ite(tm.eq(i[d], tm.num(k, "I")), fold(op, xs[:k + 1]), r)
            return r
        k = tm.fresh("r", "I")
        body = cast(f(i[:d] + (k,) + i[d + 1:]), dt)
        return tm.close_binder(op, k, I0, tm.add(i[d], tm.num(1, "I")), body)
    return SymTensor(x.shape, fn, dt)


def cumprod_f(x, dim, dtype=None, out=None):
    return cumsum_f(x, dim, dtype, op="prod")


def diff_f(x, n=1, dim=-1, prepend=None, append=None):
    x = lift(x)
    if prepend is not None or append is not None:
        x = cat_([y for y in (prepend, x, append) if y is not None], dim)
    d = x._d(dim)
    m = x.shape[d]
    return sub_f(x.narrow(d, 1, m - 1), x.narrow(d, 0, m - 1))


# ------------------------------------------------------------ linear algebra
def _contract(n, f):
    if type(n) is not SymInt and n <= UNROLL:
        return fold("sum", [f(tm.num(k, "I")) for k in range(n)])
    k = tm.fresh("r", "I")
    t = f(k)
    N = dimT(n)
    if N.op == "mul" and N.args[0].op == "num" and 2 <= N.args[0].args[0] <= 4:
        # rows of length m: split by the position in the row when the body asks for it
        m = int(N.args[0].args[0])
        mT = tm.num(m, "I")
        if any(x.op in ("idiv", "imod") and x.args[1] is mT for x in _subterms(t)):
            G = tm.mul(*N.args[1:]) if len(N.args) > 2 else N.args[1]
            out = []
            for q in range(m):
                r = tm.fresh("r", "I")
                b = f(tm.add(tm.mul(mT, r), tm.num(q, "I")))
                out.append(tm.close_binder("sum", r, I0, G, b))
            return tm.add(*out)
        # concatenations of m equal parts
        G = tm.mul(*N.args[1:]) if len(N.args) > 2 else N.args[1]
        lits = {tm.lt(k, tm.mul(tm.num(j, "I"), G) if j > 1 else G): j for j in range(1, m)}
        if any(x in lits for x in _subterms(t)):
            out = []
            for q in range(m):
                r = tm.fresh("r", "I")
                b = tm.subst(t, {l: (tm.TRUE if q < j else tm.FALSE) for l, j in lits.items()})
                b = tm.subst(b, {k: tm.add(r, tm.mul(tm.num(q, "I"), G))})
                out.append(tm.close_binder("sum", r, I0, G, b))
            return tm.add(*out)
    return tm.close_binder("sum", k, I0, N, t)


def _subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, tm.T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st += x.args


def _need_same(a, b, what):
    r = same_dim(a, b)
    if r is None:
        r = bool(mkbool(tm.eq(dimT(a), dimT(b))))
    if not r:
        raise RuntimeError(f"{what}: size mismatch {a} vs {b}")


def matmul_f(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.dtype != b.dtype:
        raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {a.dtype} != {b.dtype}")
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a.unsqueeze(0)
    if vb:
        b = b.unsqueeze(-1)
    _need_same(a.shape[-1], b.shape[-2], "matmul")
    bs = bshape(a.shape[:-2], b.shape[:-2])
    ma, mb = bmap(a.shape[:-2], bs), bmap(b.shape[:-2], bs)
    fa, fb = a.reader(), b.reader()
    n = a.shape[-1] if type(a.shape[-1]) is not SymInt else b.shape[-2]
    nb = len(bs)
    dt = a.dtype

    def fn(i):
        ba = ma(i[:nb]) if ma else i[:nb]
        bb = mb(i[:nb]) if mb else i[:nb]
        return _contract(n, lambda k: tm.mul(fa(ba + (i[nb], k)), fb(bb + (k, i[nb + 1]))))
    r = SymTensor(tuple(bs) + (a.shape[-2], b.shape[-1]), fn, dt)
    if va:
        r = r._sq1(r.ndim - 2)
    if vb:
        r = r._sq1(r.ndim - 1)
    return r


def bmm_f(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.ndim != 3 or b.ndim != 3:
        raise RuntimeError("batch1 must be a 3D tensor")
    _need_same(a.shape[0], b.shape[0], "bmm")
    return matmul_f(a, b)


def mm_f(a, b, out=None):
    a, b = lift(a), lift(b)
    if a.ndim != 2 or b.ndim != 2:
        raise RuntimeError("mat must be 2D")
    return matmul_f(a, b)


def baddbmm_f(c, a, b, *, beta=1, alpha=1, out=None):
    return add_f(mul_f(c, beta), mul_f(bmm_f(a, b), alpha))


def addmm_f(c, a, b, *, beta=1, alpha=1, out=None):
    return add_f(mul_f(c, beta), mul_f(mm_f(a, b), alpha))


def einsum_f(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    ops = [lift(o) for o in ops]
    eq = eq.replace(" ", "")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if any("." in s for s in ins):
        # ellipsis: give letters to the broadcast dims
        letters = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in eq]
        mxl = builtins.max(o.ndim - (len(s) - 3) for s, o in zip(ins, ops) if "..." in s)
        ell = letters[:mxl]
        ins = [s.replace("...", "".join(ell[mxl - (o.ndim - (len(s) - 3)):])) if "..." in s else s for s, o in zip(ins, ops)]
        if "->" not in eq:
            raise Unsupported("einsum implicit output with ellipsis")
        rhs = rhs.replace("...", "".join(ell))
    if "->" not in eq:
        al = "".join(ins)
        rhs = "".join(sorted(c for c in set(al) if al.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise RuntimeError("einsum: wrong number of subscripts")
        for c, d in zip(s, o.shape):
            dims[c] = bdim(dims[c], d) if c in dims else d
    summed = [c for c in dims if c not in rhs]
    fs = [o.reader() for o in ops]
    one = [[is_one(d) and not is_one(dims[c]) for c, d in zip(s, o.shape)] for s, o in zip(ins, ops)]
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = torch.promote_types(dt, o.dtype)

    def fn(i):
        env = dict(zip(rhs, i))

        def body(k):
            env.update(zip(summed, k))
            return tm.mul(*[f(tuple(I0 if on else env[c] for c, on in zip(s, oo))) for f, s, oo in zip(fs, ins, one)],
                          tm.num(1, SORT[cat(dt)]))
        return reduce_all([dims[c] for c in summed], body, "sum")
    return SymTensor([dims[c] for c in rhs], fn, dt)


def cross_f(a, b, dim=None, out=None):
    a, b = lift(a), lift(b)
    sh = bshape(a.shape, b.shape)
    a, b = a.expand(*sh), b.expand(*sh)
    if dim is None:
        dim = next(k for k, d in enumerate(sh) if type(d) is not SymInt and d == 3)
    d = a._d(dim)
    if type(sh[d]) is SymInt or sh[d] != 3:
        raise RuntimeError("cross: dimension must have size 3")
    fa, fb = a.reader(), b.reader()

    def fn(i):
        def at(f, k):
            return f(i[:d] + (tm.num(k, "I"),) + i[d + 1:])

        def c(k):
            x, y = (k + 1) % 3, (k + 2) % 3
            return tm.sub(tm.mul(at(fa, x), at(fb, y)), tm.mul(at(fa, y), at(fb, x)))
        if i[d].op == "num":
            return c(int(i[d].args[0]))
        return tm.ite(tm.eq(i[d], I0), c(0), tm.ite(tm.eq(i[d], tm.num(1, "I")), c(1), c(2)))
    return SymTensor(sh, fn, result_dtype(a, b))


def cross_linalg(a, b, dim=-1, **k):
    return cross_f(a, b, dim)


def dot_f(a, b, out=None):
    return sum_f(mul_f(a, b))


def _minor(M, rows, cols):
    if len(rows) == 0:
        return tm.ONE
    if len(rows) == 1:
        return M[rows[0]][cols[0]]
    r = []
    for j, c in enumerate(cols):
        m = M[rows[0]][c]
        if m.op == "num" and m.args[0] == 0:
            continue
        s = _minor(M, rows[1:], cols[:j] + cols[j + 1:])
        r.append(tm.mul(tm.num(-1 if j % 2 else 1), m, s))
    return tm.add(*r) if r else tm.ZERO


def _matrix(f, pre, n):
    return [[tm.to_real(f(pre + (tm.num(i, "I"), tm.num(j, "I")))) for j in range(n)] for i in range(n)]


def _square(x):
    n = x.shape[-1]
    if type(n) is SymInt or n > 4 or x.shape[-2] != n:
        raise Unsupported("matrix size in det/inverse")
    return n


def det_f(x, **k):
    x = lift(x)
    n = _square(x)
    f = x.reader()
    return SymTensor(x.shape[:-2], lambda i: _minor(_matrix(f, i, n), tuple(range(n)), tuple(range(n))), x.dtype)


def inverse_f(x, **k):
    x = lift(x)
    n = _square(x)
    f = x.reader()
    cache = {}

    def inv(pre):
        if pre not in cache:
            M = _matrix(f, pre, n)
            # split off trailing/leading affine structure: last row or column 0..0 1
            full = tuple(range(n))
            det = _minor(M, full, full)
            cache[pre] = (M, det)
        return cache[pre]

    def fn(i):
        M, det = inv(i[:-2])
        if i[-1].op != "num" or i[-2].op != "num":
            raise Unsupported("inverse at a symbolic matrix index")
        r, c = int(i[-2].args[0]), int(i[-1].args[0])
        full = tuple(range(n))
        m = _minor(M, tuple(k for k in full if k != c), tuple(k for k in full if k != r))
        return tm.div(tm.mul(tm.num(-1 if (r + c) % 2 else 1), m), det)
    return SymTensor(x.shape, fn, x.dtype)


def solve_f(A, B, **k):
    A, B = lift(A), lift(B)
    if B.ndim == A.ndim - 1:
        return matmul_f(inverse_f(A), B.unsqueeze(-1)).squeeze(-1)
    return matmul_f(inverse_f(A), B)


def trace_f(x):
    return sum_f(x.diagonal())


# ------------------------------------------------------------ joining
def cat_(xs, dim=0, out=None, axis=None):
    if axis is not None:
        dim = axis
    xs = [lift(x) for x in xs]
    xs2 = [x for x in xs if not (x.ndim == 1 and type(x.shape[0]) is not SymInt and x.shape[0] == 0)]
    if not xs2:
        return xs[0]
    if xs2[0].ndim > 1 or len(xs2) == len(xs):
        pass
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = torch.promote_types(dt, x.dtype)
    xs = xs2
    d = xs[0]._d(dim)
    base = xs[0].shape
    for x in xs[1:]:
        if x.ndim != len(base):
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(len(base)):
            if k != d:
                _need_same(base[k], x.shape[k], "cat")
    offs = [0]
    for x in xs:
        offs.append(offs[-1] + x.shape[d])
    fs = [x.reader() for x in xs]
    ots = [dimT(o) for o in offs]
    sh = list(base)
    sh[d] = offs[-1]

    def fn(i):
        p = i[d]
        r = None
        for k in range(len(xs) - 1, -1, -1):
            if k == len(xs) - 1:
                # last block
                c = tm.le(ots[k], p)
            c_lo = tm.le(ots[k], p)
            c_hi = tm.lt(p, ots[k + 1])
            if c_lo is FALSE or c_hi is FALSE:
                continue
            v = lambda: cast(fs[k](i[:d] + (tm.sub(p, ots[k]),) + i[d + 1:]), dt)
            if c_lo is TRUE and c_hi is TRUE:
                return v()
            if r is None:
                r = v()
            else:
                r = tm.ite(c_hi, v(), r)
        if r is None:
            raise Unsupported("cat index outside")
        return r
    return SymTensor(sh, fn, dt)


def stack_(xs, dim=0, out=None):
    xs = [lift(x) for x in xs]
    if not xs:
        raise RuntimeError("stack expects a non-empty TensorList")
    d = xs[0]._d(dim, 1)
    for x in xs[1:]:
        if x.ndim != xs[0].ndim:
            raise RuntimeError("stack expects each tensor to be equal size")
        for a, b in zip(x.shape, xs[0].shape):
            _need_same(a, b, "stack")
    dt = xs[0].dtype
    for x in xs[1:]:
        dt = torch.promote_types(dt, x.dtype)
    fs = [x.reader() for x in xs]
    n = len(xs)

    def fn(i):
        p = i[d]
        o = i[:d] + i[d + 1:]
        if p.op == "num":
            return cast(fs[min(max(int(p.args[0]), 0), n - 1)](o), dt)   # out of range: unreachable
        r = cast(fs[-1](o), dt)
        for k in range(n - 2, -1, -1):
            r = tm.ite(tm.eq(p, tm.num(k, "I")), cast(fs[k](o), dt), r)
        return r
    sh = xs[0].shape
    return SymTensor(tuple(sh[:d]) + (n,) + tuple(sh[d:]), fn, dt)


# ------------------------------------------------------------ gather/scatter
def gather_f(x, dim, index, sparse_grad=False, out=None):
    x, index = lift(x), lift(index)
    d = x._d(dim)
    if index.ndim != x.ndim:
        raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    for k in range(x.ndim):
        if k != d:
            a, b = index.shape[k], x.shape[k]
            if same_dim(a, b) is not True and not ent(tm.le(dimT(a), dimT(b))):
                if not bool(mkbool(tm.le(dimT(a), dimT(b)))):
                    raise RuntimeError("Size does not match at dimension in gather")
    f, g = x.reader(), index.reader()
    return SymTensor(index.shape, lambda i: f(i[:d] + (g(i),) + i[d + 1:]), x.dtype)


def index_select_f(x, dim, index, out=None):
    x, index = lift(x), lift(index)
    d = x._d(dim)
    if index.ndim == 0:
        index = index.unsqueeze(0)
    f, g = x.reader(), index.reader()
    sh = list(x.shape)
    sh[d] = index.shape[0]
    return SymTensor(sh, lambda i: f(i[:d] + (g((i[d],)),) + i[d + 1:]), x.dtype)


def scatter_add_f(x, dim, index, src, **k):
    x, index, src = lift(x), lift(index), lift(src)
    d = x._d(dim)
    f, g, s = x.reader(), index.reader(), src.reader()
    n = index.shape[d]
    dt = x.dtype

    def fn(i):
        lim = []
        for k in range(x.ndim):
            if k != d and same_dim(index.shape[k], x.shape[k]) is not True:
                lim.append(tm.lt(i[k], dimT(index.shape[k])))

        def body(j):
            ix = i[:d] + (j,) + i[d + 1:]
            v = cast(s(ix), dt)
            return tm.ite(tm.and_(tm.eq(g(ix), i[d]), *lim), v, tm.num(0, v.sort))
        return tm.add(f(i), _contract(n, body))
    return SymTensor(x.shape, fn, dt)


def scatter_f(x, dim, index, src=None, value=None, **k):
    x, index = lift(x), lift(index)
    d = x._d(dim)
    f, g = x.reader(), index.reader()
    if src is None:
        src = value
    if k.get("reduce"):
        raise Unsupported("scatter reduce")
    n = index.shape[d]
    dt = x.dtype
    if isinstance(src, torch.Tensor):
        sr = lift(src).reader()
    else:
        t = scalar_term(src)
        sr = lambda i: t
    if type(n) is SymInt:
        if isinstance(src, torch.Tensor):
            raise Unsupported("scatter along a symbolic dimension")

        def fn(i):
            ex = tm.not_(forall([n], lambda j: tm.ne(g(i[:d] + (j[0],) + i[d + 1:]), i[d])))
            return tm.ite(ex, cast(sr(i), dt), f(i))
        return SymTensor(x.shape, fn, dt)

    def fn(i):
        r = f(i)
        for k in range(n):
            ix = i[:d] + (tm.num(k, "I"),) + i[d + 1:]
            r = tm.ite(tm.eq(g(ix), i[d]), cast(sr(ix), dt), r)
        return r
    return SymTensor(x.shape, fn, dt)


def index_add_f(x, dim, index, source, *, alpha=1, out=None):
    x, index, source = lift(x), lift(index), lift(source)
    d = x._d(dim)
    f, g, s = x.reader(), index.reader(), source.reader()
    n = index.shape[0]
    dt = x.dtype
    al = scalar_term(alpha)

    def fn(i):
        def body(j):
            v = tm.mul(cast(al, dt), cast(s(i[:d] + (j,) + i[d + 1:]), dt))
            return tm.ite(tm.eq(g((j,)), i[d]), v, tm.num(0, v.sort))
        return tm.add(f(i), _contract(n, body))
    return SymTensor(x.shape, fn, dt)


def index_copy_f(x, dim, index, source):
    x = lift(x).clone()
    d = x._d(dim)
    x[(slice(None),) * d + (index,)] = source
    return x


def index_put_f(x, idx, val, accumulate=False):
    v, adv = x._basic(tuple(idx))
    if adv:
        adv_set(v, adv, lift(val) if isinstance(val, torch.Tensor) else val, accumulate)
    else:
        x[tuple(idx)] = val
    return x


def masked_fill_f(x, mask, value):
    return where_(mask, lift(value)._cast(lift(x).dtype) if isinstance(value, torch.Tensor) else value, lift(x))._cast(lift(x).dtype)


def masked_select_f(x, mask):
    x, mask = lift(x), lift(mask)
    sh = bshape(x.shape, mask.shape)
    return x.expand(*sh)[mask.expand(*sh)]


def masked_scatter_f(x, mask, src):
    x, mask, src = lift(x), lift(mask), lift(src)
    f = x.reader()
    if len(x.shape) > 1 and is_one(mask.shape[-1]) and len(mask.shape) == len(x.shape) and len(src.shape) == 2 and same_dim(src.shape[-1], x.shape[-1]):
        # whole rows: consumed in order
        rows = mask[..., 0].expand(*x.shape[:-1])
        cnt, nz, rank = mask_info(rows)
        if not ent(tm.le(cnt, dimT(src.shape[0]))) and not bool(mkbool(tm.le(cnt, dimT(src.shape[0])))):
            raise RuntimeError("masked_scatter_: expected self and source to have enough elements")
        s, m = src.reader(), rows.reader()
        return SymTensor(x.shape, lambda i: tm.ite(m(i[:-1]), cast(s((rank(i[:-1]), i[-1])), x.dtype), f(i)), x.dtype)
    mask = mask.expand(*x.shape)
    cnt, nz, rank = mask_info(mask)
    s = src.flatten().reader()
    m = mask.reader()
    return SymTensor(x.shape, lambda i: tm.ite(m(i), cast(s((rank(i),)), x.dtype), f(i)), x.dtype)


def nonzero_(x, as_tuple=False, out=None):
    x = lift(x)
    if as_tuple:
        return where_(x._cast(torch.bool))
    m = x._cast(torch.bool)
    if all(type(d) is not SymInt for d in m.shape) and m.numel() <= UNROLL:
        vals = [(ix, m.elem(ix)) for ix in all_idx(m.shape)]
        if all(v in (TRUE, FALSE) for _, v in vals):
            sel = [[int(t.args[0]) for t in ix] for ix, v in vals if v is TRUE]
            return from_real(torch.tensor(sel, dtype=torch.int64).reshape(len(sel), m.ndim))
    cnt, nz, _ = mask_info(m)

    def fn(i):
        p = nz(i[0])
        if i[1].op == "num":
            return p[int(i[1].args[0])]
        if len(p) == 1:
            return p[0]
        raise Unsupported("nonzero symbolic column")
    return SymTensor((mkint(cnt), m.ndim), fn, torch.int64)


def unique_(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    """few entries only: their order is decided by case distinction"""
    x = lift(x)
    if return_inverse or return_counts or dim is not None or any(type(d) is SymInt for d in x.shape) or x.numel() > 4:
        raise Unsupported("unique")
    out = []
    for ix in all_idx(x.shape):
        v = x.elem(ix)
        for k, w in enumerate(out):
            if bool(mkbool(tm.eq(v, w))):
                break
            if bool(mkbool(tm.lt(v, w))):
                out.insert(k, v)
                break
        else:
            out.append(v)

    def fn(i):
        if i[0].op == "num":
            return out[int(i[0].args[0])]
        r = out[-1]
        for k in range(len(out) - 2, -1, -1):
            r = tm.ite(tm.eq(i[0], tm.num(k, "I")), out[k], r)
        return r
    return SymTensor((len(out),), fn, x.dtype)


def bincount_f(x, weights=None, minlength=0):
    x = lift(x)
    f = x.reader()
    n = x.shape[0]
    w = lift(weights).reader() if weights is not None else None
    if type(minlength) is not SymInt and minlength == 0:
        raise Unsupported("bincount without minlength")
    # result length is max(minlength, max(x)+1); contract: values < minlength
    s = S()
    okc = forall([n], lambda j: tm.lt(f(j), dimT(minlength)))
    if not ent(okc) and not bool(mkbool(okc)):
        raise Unsupported("bincount beyond minlength")

    def fn(i):
        def body(j):
            v = w((j,)) if w else tm.num(1, "I")
            return tm.ite(tm.eq(f((j,)), i[0]), v, tm.num(0, v.sort))
        return _contract(n, body)
    return SymTensor((minlength,), fn, torch.int64 if w is None else torch.float64)


def one_hot_f(x, num_classes=-1):
    x = lift(x)
    if type(num_classes) is not SymInt and num_classes == -1:
        raise Unsupported("one_hot without num_classes")
    f = x.reader()
    return SymTensor(tuple(x.shape) + (num_classes,), lambda i: tm.ite(tm.eq(f(i[:-1]), i[-1]), tm.num(1, "I"), I0), torch.int64)


# ------------------------------------------------------------ creation
def full_(size, v, dtype=None, **k):
    size = SymSize(_dimv(s) for s in (size if isinstance(size, (tuple, list)) else (size,)))
    if isinstance(v, torch.Tensor):
        v = lift(v).item()
    if dtype is None:
        dtype = {0: torch.bool, 1: torch.int64, 2: torch.get_default_dtype()}[scalar_cat(v)]
    t = cast(scalar_term(v), dtype)
    return SymTensor(size, lambda i: t, dtype)


_cnt = [0]


def empty_(size, dtype=None):
    """uninitialised memory: an arbitrary function"""
    dtype = dtype or torch.get_default_dtype()
    return fresh_tensor("uninit", size, dtype)


def fresh_tensor(prefix, size, dtype):
    s = S()
    n = getattr(s, "nfresh", 0)
    s.nfresh = n + 1
    name = f"{prefix}%{n}"
    sort = SORT[cat(dtype)]
    return SymTensor(size, lambda i: tm.app(name, i, sort), dtype)


def arange_(*a, dtype=None, **k):
    if "start" in k or "end" in k:
        a = (k.get("start", 0), k["end"]) + ((k["step"],) if "step" in k else ())
    elif "step" in k:
        a = a + (k["step"],)
    start, end, step = 0, None, 1
    if len(a) == 1:
        end = a[0]
    elif len(a) == 2:
        start, end = a
    else:
        start, end, step = a
    st, en, sp = scalar_term(start), scalar_term(end), scalar_term(step)
    isint = all(x.sort == "I" for x in (st, en, sp))
    dt = dtype or (torch.int64 if isint else torch.get_default_dtype())
    if isint and sp.op == "num":
        ln = tm.sub(en, st)
        q = int(sp.args[0])
        if q != 1:
            ln = smart_idiv(tm.add(ln, tm.num(q - 1, "I")), sp) if q > 0 else smart_idiv(tm.sub(st, tm.add(en, tm.num(q + 1, "I"))), tm.num(-q, "I"))
        if ln.op == "num" and ln.args[0] < 0:
            raise RuntimeError("upper bound and larger bound inconsistent with step sign")
        return SymTensor((mkint(ln),), lambda i: cast(tm.add(st, tm.mul(sp, i[0])), dt), dt)
    if all(x.op == "num" for x in (st, en, sp)):
        n = math.ceil((en.args[0] - st.args[0]) / sp.args[0])
        return SymTensor((n,), lambda i: cast(tm.add(tm.to_real(st), tm.mul(tm.to_real(sp), tm.to_real(i[0]))), dt), dt)
    if isint is False and en.op in ("i2r",) and st.op == "num":
        pass
    raise Unsupported("arange with symbolic real bounds")


def linspace_(start, end, steps=100, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    a, b = tm.to_real(scalar_term(start)), tm.to_real(scalar_term(end))
    n = _dimv(steps)
    one = tm.num(1, "I")

    def fn(i):
        if type(n) is not SymInt and n == 1:
            return a
        return tm.add(a, tm.div(tm.mul(tm.to_real(i[0]), tm.sub(b, a)), tm.to_real(tm.sub(dimT(n), one))))
    if type(n) is SymInt and bool(n == 1):
        return SymTensor((n,), lambda i: a, dt)
    return SymTensor((n,), fn, dt)


def eye_(n, m=None, dtype=None, **k):
    dt = dtype or torch.get_default_dtype()
    m = n if m is None else m
    s = SORT[cat(dt)]
    return SymTensor((_dimv(n), _dimv(m)), lambda i: tm.ite(tm.eq(i[0], i[1]), tm.num(1, s), tm.num(0, s)), dt)


def tensor_(data, dtype=None, **k):
    if isinstance(data, torch.Tensor):
        r = lift(data).clone()
        return r._cast(dtype) if dtype else r

    def rec(d):
        if isinstance(d, (list, tuple)) and not isinstance(d, torch.Tensor):
            return stack_([rec(x) for x in d]) if len(d) else from_real(torch.tensor(d))
        if isinstance(d, torch.Tensor):
            return lift(d)
        return lift(d)
    # fix dtype first
    leaves = []

    def walk(d):
        if isinstance(d, (list, tuple)) and not isinstance(d, torch.Tensor):
            for x in d:
                walk(x)
        elif isinstance(d, torch.Tensor):
            leaves.append(cat(d.dtype))
        else:
            leaves.append(scalar_cat(d))
    walk(data)
    c = builtins.max(leaves, default=2)
    dt = dtype or {0: torch.bool, 1: torch.int64, 2: torch.get_default_dtype()}[c]

    def rec2(d):
        if isinstance(d, (list, tuple)) and not isinstance(d, torch.Tensor):
            if not len(d):
                return from_real(torch.tensor(d, dtype=dt))
            return stack_([rec2(x) for x in d])
        return lift(d)._cast(dt)
    return rec2(data)


def rand_like(kind):
    def f(*size, dtype=None, generator=None, **k):
        sh = _sz(size, k)
        return rnd(kind, sh, dtype or torch.get_default_dtype())
    return f


def rnd(kind, sh, dt):
    r = fresh_tensor(kind, sh, dt)
    if kind == "rand":
        f = r.reader()
        c = forall(r.shape, lambda i: tm.and_(tm.le(tm.ZERO, f(i)), tm.lt(f(i), tm.ONE)))
        S().assume(c)
    return r


def randint_(*a, dtype=None, generator=None, **k):
    if len(a) == 2:
        low, high, size = 0, a[0], a[1]
    else:
        low, high, size = a
    r = fresh_tensor("randint", SymSize(_dimv(s) for s in size), dtype or torch.int64)
    f = r.reader()
    lo, hi = scalar_term(low), scalar_term(high)
    S().assume(forall(r.shape, lambda i: tm.and_(tm.le(lo, f(i)), tm.lt(f(i), hi))))
    return r


def meshgrid_(*ts, indexing=None):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [lift(t) for t in ts]
    ts = [t if t.ndim else t.unsqueeze(0) for t in ts]
    order = list(range(len(ts)))
    if indexing == "xy" and len(ts) >= 2:
        order[0], order[1] = 1, 0
    sh = [ts[k].shape[0] for k in order]
    out = []
    for k, t in enumerate(ts):
        f = t.reader()
        p = order.index(k)
        out.append(SymTensor(sh, (lambda f, p: lambda i: f((i[p],)))(f, p), t.dtype))
    return tuple(out)


def broadcast_tensors_(*ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [lift(t) for t in ts]
    sh = bshape(*[t.shape for t in ts])
    return tuple(t.expand(*sh) for t in ts)


# ------------------------------------------------------------ functional
def pad_f(x, pad, mode="constant", value=None):
    x = lift(x)
    if mode != "constant":
        raise Unsupported("pad mode")
    v = cast(scalar_term(value if value is not None else 0), x.dtype)
    pads = {}
    for k in range(len(pad) // 2):
        pads[x.ndim - 1 - k] = (scalar_term(pad[2 * k]), scalar_term(pad[2 * k + 1]))
    sh = [mkint(tm.add(dimT(d), *pads[k])) if k in pads else d for k, d in enumerate(x.shape)]
    f = x.reader()

    def fn(i):
        c = []
        j = []
        for k, y in enumerate(i):
            if k in pads:
                y = tm.sub(y, pads[k][0])
                if not (pads[k][0] is I0):
                    c.append(tm.le(I0, y))
                if not (pads[k][1] is I0):
                    c.append(tm.lt(y, dimT(x.shape[k])))
            j.append(y)
        c = tm.and_(*c)
        if c is TRUE:
            return f(tuple(j))
        if c is FALSE:
            return v
        return tm.ite(c, f(tuple(j)), v)
    return SymTensor(sh, fn, x.dtype)


def normalize_f(x, p=2.0, dim=1, eps=1e-12, out=None):
    x = lift(x)
    n = norm_f(x, p, dim, True)
    return div_(x, clamp_(n, min=eps))


def softmax_f(x, dim=None, dtype=None, **k):
    x = lift(x)
    e = un(tm.exp)(x)
    return div_(e, sum_f(e, dim, True))


def cosine_similarity_f(a, b, dim=1, eps=1e-8):
    a, b = lift(a), lift(b)
    w = sum_f(mul_f(a, b), dim)
    na = un(tm.sqrt)(sum_f(mul_f(a, a), dim))
    nb = un(tm.sqrt)(sum_f(mul_f(b, b), dim))
    return div_(w, mul_f(clamp_(na, min=eps), clamp_(nb, min=eps)))


def sinc_f(x, out=None):
    def g(t):
        y = tm.mul(tm.PI, t)
        return tm.ite(tm.eq(t, tm.ZERO), tm.ONE, tm.div(tm.sin(y), y))
    return un(g)(x)


def lerp_f(a, b, w, out=None):
    return add_f(a, mul_f(w, sub_f(b, a)))


def isclose_f(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r, t = tm.to_real(tm.const(rtol)), tm.to_real(tm.const(atol))
    return ew(lambda x, y: tm.le(tm.absv(tm.sub(tm.to_real(x), tm.to_real(y))), tm.add(t, tm.mul(r, tm.absv(tm.to_real(y))))),
              a, b, dt=torch.bool)


def allclose_f(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_f(isclose_f(a, b, rtol, atol)).item()


def equal_f(a, b):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not bool(mkbool(tm.eq(dimT(x), dimT(y)))):
            return False
    return all_f(cmp(tm.eq)(a, b)).item()


def sign_f(x, out=None):
    x = lift(x)
    r = x.reader()

    def g(i):
        t = r(i)
        z = tm.num(0, t.sort)
        return tm.ite(tm.lt(z, t), tm.num(1, t.sort), tm.ite(tm.lt(t, z), tm.num(-1, t.sort), z))
    return SymTensor(x.shape, g, x.dtype)


def abs_f(x, out=None):
    x = lift(x)
    r = x.reader()
    return SymTensor(x.shape, lambda i: tm.absv(r(i)), x.dtype)


def floor_f(x, out=None):
    x = lift(x)
    r = x.reader()
    return SymTensor(x.shape, lambda i: cast(tm.floor(r(i)), x.dtype), x.dtype)


def ceil_f(x, out=None):
    x = lift(x)
    r = x.reader()
    return SymTensor(x.shape, lambda i: cast(tm.neg(tm.floor(tm.neg(r(i)))), x.dtype), x.dtype)


def round_f(x, *, decimals=0, out=None):
    x = lift(x)
    r = x.reader()
    if not x.dtype.is_floating_point:
        return x

    def g(i):
        t = r(i)
        h = tm.num(Fraction(1, 2))
        fl_ = tm.floor(t)
        d = tm.sub(t, tm.to_real(fl_))
        up = tm.or_(tm.lt(h, d), tm.and_(tm.eq(d, h), tm.eq(tm.imod(fl_, tm.num(2, "I")), tm.num(1, "I"))))
        return tm.to_real(tm.add(fl_, tm.ite(up, tm.num(1, "I"), I0)))
    return SymTensor(x.shape, g, x.dtype)


def trunc_f(x, out=None):
    x = lift(x)
    r = x.reader()
    return SymTensor(x.shape, lambda i: cast(tm.to_int(r(i)), x.dtype), x.dtype)


def sigmoid_t(t):
    return tm.div(tm.ONE, tm.add(tm.ONE, tm.exp(tm.neg(t))))


def sort_f(x, dim=-1, descending=False, stable=False, out=None):
    x = lift(x)
    d = x._d(dim)
    n = x.shape[d]
    if type(n) is SymInt or n > 6:
        raise Unsupported("sort of a symbolic dimension")
    f = x.reader()
    cache = {}

    def srt(rest):
        if rest not in cache:
            xs = [(f(rest[:d] + (tm.num(k, "I"),) + rest[d:]), tm.num(k, "I")) for k in range(n)]
            # stable insertion network
            for a in range(1, n):
                for b in range(a, 0, -1):
                    (u, iu), (v, iv) = xs[b - 1], xs[b]
                    c = tm.lt(v, u) if not descending else tm.lt(u, v)
                    xs[b - 1] = (tm.ite(c, v, u), tm.ite(c, iv, iu))
                    xs[b] = (tm.ite(c, u, v), tm.ite(c, iu, iv))
            cache[rest] = xs
        return cache[rest]

    def mk(which):
        def fn(i):
            xs = srt(i[:d] + i[d + 1:])
            if i[d].op != "num":
                raise Unsupported("sorted symbolic position")
            return xs[int(i[d].args[0])][which]
        return fn
    return VI(SymTensor(x.shape, mk(0), x.dtype), SymTensor(x.shape, mk(1), torch.int64))


def argsort_f(x, dim=-1, descending=False, stable=False):
    return sort_f(x, dim, descending)[1]


def grid_sample_f(inp, grid, mode="bilinear", padding_mode="zeros", align_corners=None):
    inp, grid = lift(inp), lift(grid)
    align = bool(align_corners)
    nd = inp.ndim - 2
    if mode not in ("bilinear", "nearest"):
        raise Unsupported("grid_sample mode")
    f, g = inp.reader(), grid.reader()
    sizes = [inp.shape[2 + k] for k in range(nd)]   # D,H,W
    half = tm.num(Fraction(1, 2))

    def fn(i):
        b, c, pos = i[0], i[1], i[2:]
        cs = []
        for k in range(nd):
            # grid last dim is x (last spatial dim) first
            gx = tm.to_real(g((b,) + tuple(pos) + (tm.num(nd - 1 - k, "I"),)))
            n = tm.to_real(dimT(sizes[k]))
            if align:
                u = tm.mul(half, tm.add(gx, tm.ONE), tm.sub(n, tm.ONE))
            else:
                u = tm.mul(half, tm.sub(tm.mul(tm.add(gx, tm.ONE), n), tm.ONE))
            if padding_mode == "border":
                hi = tm.sub(n, tm.ONE)
                u = tm.ite(tm.lt(u, tm.ZERO), tm.ZERO, tm.ite(tm.lt(hi, u), hi, u))
            elif padding_mode != "zeros":
                raise Unsupported("padding mode")
            cs.append(u)

        def at(ix):
            inb = tm.and_(*[tm.and_(tm.le(I0, x), tm.lt(x, dimT(sizes[k]))) for k, x in enumerate(ix)])
            v = f((b, c) + tuple(ix))
            return v if inb is TRUE else tm.ite(inb, v, tm.ZERO)
        if mode == "nearest":
            ix = []
            for u in cs:
                fl_ = tm.floor(u)
                d = tm.sub(u, tm.to_real(fl_))
                up = tm.or_(tm.lt(half, d), tm.and_(tm.eq(d, half), tm.eq(tm.imod(fl_, tm.num(2, "I")), tm.num(1, "I"))))
                ix.append(tm.add(fl_, tm.ite(up, tm.num(1, "I"), I0)))
            return at(ix)
        out = []
        fl_ = [tm.floor(u) for u in cs]
        fr = [tm.sub(u, tm.to_real(x)) for u, x in zip(cs, fl_)]
        for m in range(2 ** nd):
            w = tm.ONE
            ix = []
            for k in range(nd):
                bit = (m >> k) & 1
                w = tm.mul(w, fr[k] if bit else tm.sub(tm.ONE, fr[k]))
                ix.append(tm.add(fl_[k], tm.num(bit, "I")))
            out.append(tm.mul(w, at(ix)))
        return tm.add(*out)
    return SymTensor((inp.shape[0], inp.shape[1]) + tuple(grid.shape[1:-1]), fn, inp.dtype)


def searchsorted_f(seq, vals, *, right=False, side=None, out_int32=False, **k):
    seq, vals = lift(seq), lift(vals)
    if side is not None:
        right = side == "right"
    f, g = seq.reader(), vals.reader()
    n = seq.shape[-1]

    def fn(i):
        v = g(i)

        def body(j):
            s = f(i[:-1] + (j,)) if seq.ndim > 1 else f((j,))
            c = tm.le(s, v) if right else tm.lt(s, v)
            return tm.ite(c, tm.num(1, "I"), I0)
        return _contract(n, body)        # count of elements before the position (seq sorted)
    return SymTensor(vals.shape, fn, torch.int64)


def mse_loss_f(a, b, reduction="mean", **k):
    d = sub_f(a, b)
    d = mul_f(d, d)
    return d if reduction == "none" else (mean_f(d) if reduction == "mean" else sum_f(d))


def l1_loss_f(a, b, reduction="mean", **k):
    d = abs_f(sub_f(a, b))
    return d if reduction == "none" else (mean_f(d) if reduction == "mean" else sum_f(d))


def linear_f(x, w, b=None):
    r = matmul_f(x, lift(w).transpose(0, 1))
    return r if b is None else add_f(r, b)


def combinations_f(x, r=2, with_replacement=False):
    import itertools
    x = lift(x)
    n = x.shape[0]
    if type(n) is SymInt:
        raise Unsupported("combinations of a symbolic dimension")
    it = itertools.combinations_with_replacement if with_replacement else itertools.combinations
    return stack_([stack_([x[j] for j in c]) for c in it(range(n), r)])


def outer_f(a, b):
    return mul_f(lift(a).unsqueeze(-1), lift(b).unsqueeze(0))


def addcmul_f(x, a, b, *, value=1):
    return add_f(x, mul_f(value, mul_f(a, b)))


def hypot_f(a, b):
    return un(tm.sqrt)(add_f(mul_f(a, a), mul_f(b, b)))


NS = dict(
    add=add_f, sub=sub_f, subtract=sub_f, mul=mul_f, multiply=mul_f, div=div_, divide=div_, true_divide=div_,
    floor_divide=lambda a, b: div_(a, b, rounding_mode="floor"),
    remainder=lambda a, b, out=None: ew(t_mod, a, b), pow=pow_f, rsub=lambda a, b, alpha=1: sub_f(b, a),
    neg=lambda a, out=None: mul_f(a, -1), negative=lambda a, out=None: mul_f(a, -1),
    lt=cmp(tm.lt), le=cmp(tm.le), gt=cmp(tm.gt), ge=cmp(tm.ge), eq=cmp(tm.eq), ne=cmp(tm.ne),
    less=cmp(tm.lt), greater=cmp(tm.gt), less_equal=cmp(tm.le), greater_equal=cmp(tm.ge), not_equal=cmp(tm.ne),
    logical_and=lambda a, b: logic(tm.and_)(lift(a)._cast(torch.bool), lift(b)._cast(torch.bool)),
    logical_or=lambda a, b: logic(tm.or_)(lift(a)._cast(torch.bool), lift(b)._cast(torch.bool)),
    logical_xor=lambda a, b: logic(tm.ne)(lift(a)._cast(torch.bool), lift(b)._cast(torch.bool)),
    logical_not=lambda a: lognot(lift(a)._cast(torch.bool)),
    bitwise_and=logic(tm.and_), bitwise_or=logic(tm.or_), bitwise_xor=logic(tm.ne), bitwise_not=lognot,
    where=where_, clamp=clamp_, clip=clamp_, clamp_min=lambda x, m: clamp_(x, min=m), clamp_max=lambda x, m: clamp_(x, max=m),
    max=max_f, min=min_f, maximum=maximum, minimum=minimum, amax=lambda x, dim=(), keepdim=False: reduce_t(lift(x), "bmax", dim, keepdim),
    amin=lambda x, dim=(), keepdim=False: reduce_t(lift(x), "bmin", dim, keepdim),
    argmax=lambda x, dim=None, keepdim=False: argreduce(lift(x) if dim is not None else lift(x).flatten(), dim if dim is not None else 0, keepdim, True),
    argmin=lambda x, dim=None, keepdim=False: argreduce(lift(x) if dim is not None else lift(x).flatten(), dim if dim is not None else 0, keepdim, False),
    sum=sum_f, mean=mean_f, prod=prod_f, all=all_f, any=any_f, norm=norm_f, cumsum=cumsum_f, cumprod=cumprod_f, diff=diff_f,
    var=var_f, std=lambda *a, **k: un(tm.sqrt)(var_f(*a, **k)),
    matmul=matmul_f, bmm=bmm_f, mm=mm_f, mv=matmul_f, dot=dot_f, inner=dot_f, baddbmm=baddbmm_f, addmm=addmm_f, einsum=einsum_f,
    cross=cross_f, det=det_f, inverse=inverse_f, trace=trace_f, outer=outer_f, ger=outer_f, vdot=dot_f,
    cat=cat_, concat=cat_, concatenate=cat_, stack=stack_, hstack=lambda xs: cat_(xs, 0 if lift(xs[0]).ndim == 1 else 1),
    vstack=lambda xs: cat_([x if lift(x).ndim > 1 else lift(x).unsqueeze(0) for x in xs], 0),
    gather=gather_f, index_select=index_select_f, scatter_add=scatter_add_f, scatter=scatter_f, index_add=index_add_f,
    index_copy=index_copy_f, index_put=lambda x, i, v, accumulate=False: index_put_f(lift(x).clone(), i, v, accumulate),
    take_along_dim=lambda x, i, dim: gather_f(x, dim, i),
    masked_fill=masked_fill_f, masked_select=masked_select_f, masked_scatter=masked_scatter_f, nonzero=nonzero_,
    argwhere=nonzero_, unique=unique_, bincount=bincount_f, one_hot=one_hot_f,
    sqrt=un(tm.sqrt), rsqrt=un(lambda t: tm.div(tm.ONE, tm.sqrt(t))), exp=un(tm.exp), log=un(tm.log), sin=un(tm.sin), cos=un(tm.cos),
    tan=un(tm.tan), acos=un(tm.acos), asin=un(tm.asin), arccos=un(tm.acos), arcsin=un(tm.asin),
    atan=un(lambda t: tm.atan2(t, tm.ONE)), arctan=un(lambda t: tm.atan2(t, tm.ONE)),
    atan2=lambda a, b, out=None: ew(tm.atan2, a, b), arctan2=lambda a, b: ew(tm.atan2, a, b),
    reciprocal=un(lambda t: tm.div(tm.ONE, t)), square=lambda x, out=None: mul_f(x, x), sigmoid=un(sigmoid_t),
    expm1=un(lambda t: tm.sub(tm.exp(t), tm.ONE)), log1p=un(lambda t: tm.log(tm.add(tm.ONE, t))),
    deg2rad=un(lambda t: tm.mul(t, tm.div(tm.PI, tm.num(180)))), rad2deg=un(lambda t: tm.mul(t, tm.div(tm.num(180), tm.PI))),
    relu=lambda x, inplace=False: ew(lambda a, b: tm.ite(tm.lt(b, a), a, b), x, 0),
    softplus=lambda x, beta=1, threshold=20: un(lambda t: tm.div(tm.log(tm.add(tm.ONE, tm.exp(tm.mul(tm.const(beta), t)))), tm.to_real(tm.const(beta))))(x),
    softmax=softmax_f, abs=abs_f, absolute=abs_f, sign=sign_f, floor=floor_f, ceil=ceil_f, round=round_f, trunc=trunc_f, fix=trunc_f,
    frac=lambda x: sub_f(x, trunc_f(x)), sinc=sinc_f, lerp=lerp_f, isclose=isclose_f, allclose=allclose_f, equal=equal_f,
    isfinite=lambda x: full_(lift(x).shape, True, torch.bool), isnan=lambda x: full_(lift(x).shape, False, torch.bool),
    isinf=lambda x: full_(lift(x).shape, False, torch.bool),
    nan_to_num=lambda x, nan=0.0, posinf=None, neginf=None: lift(x),
    zeros_like=lambda x, dtype=None, **k: full_(lift(x).shape, 0, dtype or lift(x).dtype),
    ones_like=lambda x, dtype=None, **k: full_(lift(x).shape, 1, dtype or lift(x).dtype),
    full_like=lambda x, fill_value, dtype=None, **k: full_(lift(x).shape, fill_value, dtype or lift(x).dtype),
    empty_like=lambda x, dtype=None, **k: empty_(lift(x).shape, dtype or lift(x).dtype),
    rand_like=lambda x, dtype=None, **k: rnd("rand", lift(x).shape, dtype or lift(x).dtype),
    randn_like=lambda x, dtype=None, **k: rnd("randn", lift(x).shape, dtype or lift(x).dtype),
    pad=pad_f, normalize=normalize_f, cosine_similarity=cosine_similarity_f, sort=sort_f, argsort=argsort_f,
    grid_sample=grid_sample_f, searchsorted=searchsorted_f,
    bucketize=lambda v, b, right=False, out_int32=False: searchsorted_f(b, v, right=right),
    mse_loss=mse_loss_f, l1_loss=l1_loss_f, linear=linear_f, meshgrid=meshgrid_, broadcast_tensors=broadcast_tensors_,
    combinations=combinations_f, addcmul=addcmul_f, hypot=hypot_f, count_nonzero=lambda x, dim=None: sum_f(lift(x)._cast(torch.bool), dim),
    numel=lambda x: x.numel(), is_floating_point=lambda x: x.dtype.is_floating_point, is_complex=lambda x: False,
    is_tensor=lambda x: isinstance(x, torch.Tensor), clone=lambda x, **k: lift(x).clone(), is_nonzero=lambda x: bool(x),
    result_type=lambda a, b: result_dtype(a, b), detach=lambda x: lift(x).detach(),
    atleast_1d=lambda x: lift(x) if lift(x).ndim else lift(x).unsqueeze(0),
    vander=None, trapz=None,
)
NS = {k: v for k, v in NS.items() if v is not None}
METHODS = [n for n in NS if not hasattr(SymTensor, n) and n not in ("linear", "pad", "normalize", "meshgrid", "broadcast_tensors",
           "combinations", "cat", "stack", "concat", "hstack", "vstack", "einsum", "one_hot", "grid_sample", "mse_loss", "l1_loss", "is_tensor")]


def _where_m(self, cond, other):
    return where_(cond, self, other)


for n in METHODS:
    setattr(SymTensor, n, NS[n])
SymTensor.where = _where_m
for n in ("add", "sub", "mul", "div", "pow", "clamp", "clamp_min", "clamp_max", "sqrt", "exp", "abs", "neg", "relu", "sigmoid", "floor", "ceil",
          "round", "square", "reciprocal", "scatter_add", "scatter", "index_add", "masked_fill", "masked_scatter", "lerp", "cumsum", "cumprod",
          "logical_and", "logical_or", "bitwise_and", "bitwise_or", "logical_not", "cos", "sin", "trunc", "remainder", "addcmul", "rsqrt"):
    setattr(SymTensor, n + "_", inplace(n))


def _fill_(self, v):
    t = cast(scalar_term(v), self.dtype)
    return self._write(lambda i: t)


def _copy_(self, o, non_blocking=False):
    f = lift(o).expand(*self.shape).reader()
    dt = self.dtype
    return self._write(lambda i: cast(f(i), dt))


SymTensor.fill_ = _fill_
SymTensor.zero_ = lambda self: _fill_(self, 0)
SymTensor.copy_ = _copy_
SymTensor.index_put_ = index_put_f
SymTensor.squeeze_ = lambda self, *a: (_ for _ in ()).throw(Unsupported("squeeze_"))


def _normal_(self, *a, **k):
    f = rnd("randn", self.shape, self.dtype).reader()
    return self._write(f)


def _uniform_(self, a=0.0, b=1.0, **k):
    r = rnd("rand", self.shape, self.dtype)
    f = add_f(mul_f(r, b - a), a).reader()
    return self._write(f)


SymTensor.normal_ = _normal_
SymTensor.uniform_ = _uniform_


def _sw(f):
    return lambda a, b: f(b, a)


OPS = dict(__add__=add_f, __radd__=_sw(add_f), __sub__=sub_f, __rsub__=_sw(sub_f), __mul__=mul_f, __rmul__=_sw(mul_f),
           __truediv__=div_, __rtruediv__=_sw(div_), __floordiv__=NS["floor_divide"], __rfloordiv__=_sw(NS["floor_divide"]),
           __mod__=NS["remainder"], __rmod__=_sw(NS["remainder"]), __pow__=pow_f, __rpow__=_sw(pow_f), __matmul__=matmul_f,
           __rmatmul__=_sw(matmul_f), __neg__=NS["neg"], __abs__=abs_f, __lt__=cmp(tm.lt), __le__=cmp(tm.le),
           __gt__=cmp(tm.gt), __ge__=cmp(tm.ge), __eq__=cmp(tm.eq), __ne__=cmp(tm.ne), __and__=logic(tm.and_), __rand__=logic(tm.and_),
           __or__=logic(tm.or_), __ror__=logic(tm.or_), __xor__=logic(tm.ne), __invert__=lognot, __pos__=lambda a: a)


def _guard(f):
    def op(a, *b):
        for x in b:
            if x is None or isinstance(x, str):
                return NotImplemented
        return f(a, *b)
    return op


for n, f in OPS.items():
    setattr(SymTensor, n, _guard(f))
for n, m in (("__iadd__", "add_"), ("__isub__", "sub_"), ("__imul__", "mul_"), ("__itruediv__", "div_"), ("__iand__", "logical_and_"), ("__ior__", "logical_or_")):
    setattr(SymTensor, n, (lambda m: lambda self, o: getattr(self, m)(o))(m))

LINALG = {"norm": linalg_norm, "inv": inverse_f, "det": det_f, "solve": solve_f, "cross": cross_linalg, "vector_norm": linalg_norm,
          "matmul": matmul_f}


def dispatch(func, args, kwargs):
    name = getattr(func, "__name__", "")
    qual = getattr(func, "__module__", "") or ""
    if name in ("__get__",):
        nm = func.__self__.__name__ if hasattr(func, "__self__") else ""
        return getattr(args[0], nm)
    if name.startswith("linalg_"):
        f = LINALG.get(name[7:])
        if f:
            return f(*args, **kwargs)
    if name in OPS:
        a = [lift(x) if type(x) is torch.Tensor else x for x in args]
        return OPS[name](*a)
    if name == "where" and args and isinstance(args[0], torch.Tensor) and "self" not in kwargs:
        if len(args) == 3 and getattr(func, "__objclass__", None) is not None and "Tensor" in str(func):
            return where_(args[1], args[0], args[2])
        return where_(*args, **kwargs)
    for a in ("input", "self"):
        if a in kwargs and not args:
            args = (kwargs.pop(a),)
    if name in ("cross",) and "linalg" in str(func):
        return cross_linalg(*args, **kwargs)
    if name in NS:
        if name in ("max", "min") and "other" in kwargs:
            return (maximum if name == "max" else minimum)(args[0], kwargs["other"])
        if "axis" in kwargs and name not in ("sum", "cat"):
            kwargs["dim"] = kwargs.pop("axis")
        return NS[name](*args, **kwargs)
    if args and isinstance(args[0], torch.Tensor):
        m = SymTensor.__dict__.get(name)
        if m is not None:
            return m(lift(args[0]), *args[1:], **kwargs)
    for hook in EXTRA:
        r = hook(func, name, args, kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"torch function {name}")


EXTRA = []
