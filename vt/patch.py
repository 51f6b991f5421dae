"""While active, torch creation functions, Python builtins used by the library
and autograd.Function.apply understand symbolic tensors.  The library source is
executed unmodified; only these entry points are redirected."""
import builtins
import contextlib
import math
import sys
import types
import torch
from . import term as tm
from . import symt
from .sess import (S, SymInt, SymReal, SymBool, Unsupported, mkint, mkreal, mkbool, scalar_term)

SYM = (SymInt, SymReal, SymBool)


def _hassym(xs):
    return any(type(x) in SYM or type(x) is symt.SymTensor for x in xs)


# ------------------------------------------------------------ builtin shims
def sh_len(x):
    if type(x) is symt.SymTensor:
        if x.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return x.shape[0]
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        return m(x)
    return builtins.len(x)


class SymRange:
    pass


def sh_range(*a):
    b = []
    for x in a:
        if type(x) is symt.SymTensor:
            x = x.item()
        if type(x) is SymInt:
            raise Unsupported("loop over a symbolic range")
        b.append(x)
    return builtins.range(*b)


def _mm(op, mx):
    def f(*a, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not _hassym(xs) or "key" in k:
            return op(xs, **k) if len(a) == 1 else op(*xs, **k)
        if not xs:
            return k["default"]
        r = xs[0]
        for x in xs[1:]:
            if type(r) is symt.SymTensor or type(x) is symt.SymTensor:
                c = (x > r) if mx else (x < r)
                r = x if bool(c) else r
                continue
            ta, tb = scalar_term(r), scalar_term(x)
            # decided or kept as a term
            c = tm.lt(ta, tb) if mx else tm.lt(tb, ta)
            d = S().decide(c)
            if d is not None:
                r = x if d else r
            else:
                r = x if bool(mkbool(c)) else r
        return r
    return f


def sh_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sh_all(xs):
    if type(xs) is symt.SymTensor:
        return bool(xs.all())
    for x in xs:
        if not x:
            return False
    return True


def sh_any(xs):
    if type(xs) is symt.SymTensor:
        return bool(xs.any())
    for x in xs:
        if x:
            return True
    return False


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._b)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._b)

    def __call__(cls, *a, **k):
        return cls._c(*a, **k)

    def __eq__(cls, o):
        return o is cls._b or o is type.__getattribute__(cls, "_self")

    def __hash__(cls):
        return hash(cls._b)

    def __getattr__(cls, n):
        return getattr(cls._b, n)


def _cfloat(x=0.0):
    if type(x) is symt.SymTensor:
        x = x.item()
    if type(x) in SYM:
        return mkreal(tm.to_real(x.t))
    return builtins.float(x)


def _cint(x=0, *a):
    if type(x) is symt.SymTensor:
        x = x.item()
    if type(x) in SYM:
        return mkint(tm.to_int(x.t))
    return builtins.int(x, *a)


def _cbool(x=False):
    return builtins.bool(x)


def sh_abs(x):
    return builtins.abs(x)


def sh_round(x, *a):
    if type(x) in SYM:
        raise Unsupported("round")
    return builtins.round(x, *a)


class _MathShim(types.ModuleType):
    """`math` on symbolic scalars"""

    def __getattr__(self, n):
        f = getattr(math, n)
        sym = {"sqrt": tm.sqrt, "sin": tm.sin, "cos": tm.cos, "tan": tm.tan, "exp": tm.exp, "log": tm.log,
               "acos": tm.acos, "asin": tm.asin, "atan": lambda t: tm.atan2(t, tm.ONE), "fabs": tm.absv,
               "radians": lambda t: tm.mul(tm.to_real(t), tm.div(tm.PI, tm.num(180))),
               "degrees": lambda t: tm.div(tm.mul(tm.num(180), tm.to_real(t)), tm.PI)}.get(n)
        if n in ("floor", "ceil"):
            def g(x):
                if type(x) in SYM:
                    t = tm.to_real(x.t)
                    return mkint(tm.floor(t) if n == "floor" else tm.neg(tm.floor(tm.neg(t))))
                return f(x)
            return g
        if n == "prod":
            def g(xs, start=1):
                for x in xs:
                    start = start * x
                return start
            return g
        if sym is None:
            return f

        def g(*a):
            if len(a) == 1 and (type(a[0]) in SYM or type(a[0]) is symt.SymTensor):
                return mkreal(sym(scalar_term(a[0])))
            if _hassym(a):
                raise Unsupported("math." + n)
            return f(*a)
        return g


def sh_np_prod(*a, **k):
    raise Unsupported("np.prod")


_FShim = _FM("float", (), {"_b": float, "_c": staticmethod(_cfloat)})
_IShim = _FM("int", (), {"_b": int, "_c": staticmethod(_cint)})

SHIMS = dict(len=sh_len, range=sh_range, max=_mm(builtins.max, True), min=_mm(builtins.min, False), sum=sh_sum,
             all=sh_all, any=sh_any)
# `float`/`int` are also used as types in annotations and isinstance; the shim
# classes answer isinstance like the builtin and convert symbolic scalars.


def _creation():
    s = symt
    d = dict(
        zeros=lambda *a, dtype=None, **k: s.full_(s._sz(a, k), 0, dtype or torch.get_default_dtype()),
        ones=lambda *a, dtype=None, **k: s.full_(s._sz(a, k), 1, dtype or torch.get_default_dtype()),
        full=lambda size, fill_value, dtype=None, **k: s.full_(size, fill_value, dtype),
        empty=lambda *a, dtype=None, **k: s.empty_(s._sz(a, k), dtype or torch.get_default_dtype()),
        eye=lambda n, m=None, dtype=None, **k: s.eye_(n, m, dtype),
        tensor=lambda data, dtype=None, **k: s.tensor_(data, dtype),
        as_tensor=lambda data, dtype=None, **k: data if type(data) is s.SymTensor and (dtype is None or dtype is data.dtype)
        else s.tensor_(data, dtype),
        arange=s.arange_, linspace=s.linspace_,
        rand=s.rand_like("rand"), randn=s.rand_like("randn"), randint=s.randint_,
        zeros_like=s.NS["zeros_like"], ones_like=s.NS["ones_like"], full_like=s.NS["full_like"],
        meshgrid=s.meshgrid_, cat=s.cat_, stack=s.stack_, where=s.where_,
        diag=lambda x, **k: s.lift(x).diag(),
        broadcast_shapes=lambda *sh: s.bshape(*sh),
        from_numpy=lambda a: s.from_real(_real_from_numpy(a)),
        sparse_coo_tensor=sparse_coo,
    )
    return d


def sparse_coo(indices, values, size, dtype=None, **k):
    """contract of torch.sparse_coo_tensor: duplicate coordinates add up (kept as the dense tensor it denotes)"""
    s = symt
    ix, v = s.lift(indices), s.lift(values)
    if len(size) != 2:
        raise Unsupported("sparse tensor that is not a matrix")
    z = s.full_(tuple(size), 0, dtype or v.dtype)
    f, g, zf = ix.reader(), v.reader(), z.reader()
    n = ix.shape[1]
    dt = z.dtype

    def fn(i):
        def body(e):
            t = s.cast(g((e,)), dt)
            return tm.ite(tm.and_(tm.eq(f((tm.num(0, "I"), e)), i[0]), tm.eq(f((tm.num(1, "I"), e)), i[1])), t, tm.num(0, t.sort))
        return s._contract(n, body)
    out = s.SymTensor(z.shape, fn, dt)
    out._coo = (out._s.fn, ix, v, n, dt)
    return out


class _SparseNS:
    """torch.sparse over matrices kept dense"""

    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        return getattr(self._r, n)

    def sum(self, x, dim=None, dtype=None):
        coo = getattr(x, "_coo", None)
        if coo and coo[0] is x._s.fn and dim in (0, 1, -1, -2):
            # every coordinate lies inside the matrix (sparse_coo_tensor rejects others), so the sum along one
            # dimension adds each value at its other coordinate
            _, ix, v, n, dt = coo
            d = dim % 2
            f, g = ix.reader(), v.reader()

            def fn(i):
                def body(e):
                    t = symt.cast(g((e,)), dt)
                    return tm.ite(tm.eq(f((tm.num(1 - d, "I"), e)), i[0]), t, tm.num(0, t.sort))
                return symt._contract(n, body)
            return symt.SymTensor((x.shape[1 - d],), fn, dt)
        return x.sum() if dim is None else x.sum(dim=dim)

    def mm(self, a, b):
        return symt.NS["mm"](a, b)


_real_from_numpy = torch.from_numpy


class FakeCtx:
    needs_input_grad = (True,) * 32

    def save_for_backward(self, *a):
        self.saved_tensors = a

    def mark_non_differentiable(self, *a):
        pass

    def mark_dirty(self, *a):
        pass

    def set_materialize_grads(self, v):
        pass


def _fn_subclasses():
    out = []
    st = list(torch.autograd.Function.__subclasses__())
    while st:
        c = st.pop()
        st += c.__subclasses__()
        if c.__module__.startswith("pytorch3d"):
            out.append(c)
    return out


C_STUBS = {}
MODULE_STUBS = {}      # dotted name -> replacement (contracts assumed on dependencies)


def _mods():
    return [m for n, m in list(sys.modules.items()) if n.startswith("pytorch3d") and isinstance(m, types.ModuleType)
            and not n.endswith("_C")]


def _deepsym(xs):
    for x in xs:
        if type(x) in SYM or type(x) is symt.SymTensor:
            return True
        if isinstance(x, (list, tuple)) and _deepsym(x):
            return True
    return False


def _wrap(o):
    def f(*a, **k):
        if _deepsym(a) or _deepsym(k.values()):
            return symt.dispatch(o, a, k)
        return o(*a, **k)
    f.__name__ = getattr(o, "__name__", "?")
    f.__wrapped__ = o
    return f


TMETHODS = ("expand", "view", "reshape", "repeat", "expand_as", "view_as", "new_zeros", "new_ones", "new_full", "new_empty", "new_tensor",
            "__getitem__", "index_select", "gather", "unsqueeze", "narrow", "clamp", "matmul", "bmm", "masked_fill", "split",
            "__add__", "__mul__", "__sub__", "__truediv__", "__radd__", "__rmul__", "__rsub__", "__rtruediv__", "repeat_interleave")


def _wrap_method(n, o):
    def f(self, *a, **k):
        if _deepsym(a) or (k and _deepsym(k.values())):
            return getattr(symt.lift(self), n)(*a, **k)
        return o(self, *a, **k)
    return f


class _SizeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _SIZE)


_SIZE = torch.Size


class _Size(metaclass=_SizeMeta):
    """torch.Size that accepts symbolic lengths (as a plain tuple)"""

    def __new__(cls, xs=()):
        xs = tuple(xs)
        return xs if _hassym(xs) else _SIZE(xs)


def _kernel(n):
    def f(*a, **k):
        from . import cpp
        if k:
            raise Unsupported(f"keyword arguments of _C.{n}")
        return cpp.c_call(n)(*a)
    f.__name__ = n
    return f


@contextlib.contextmanager
def active():
    saved = []
    missing = object()

    def put(obj, name, val):
        old = obj.__dict__.get(name, missing) if isinstance(obj, (types.ModuleType, type)) else getattr(obj, name, missing)
        saved.append((obj, name, old))
        setattr(obj, name, val)
    try:
        put(torch, "Size", _Size)
        cr = _creation()
        for n, f in cr.items():
            put(torch, n, f)
        for n in symt.NS:
            o = torch.__dict__.get(n)
            if o is not None and callable(o) and n not in cr:
                put(torch, n, _wrap(o))
        for n in TMETHODS:
            if hasattr(symt.SymTensor, n):
                put(torch.Tensor, n, _wrap_method(n, getattr(torch.Tensor, n)))
        put(torch, "sparse", _SparseNS(torch.sparse))
        ms = _MathShim("math")
        for m in _mods():
            for n, f in SHIMS.items():
                if n not in m.__dict__:
                    put(m, n, f)
            if m.__dict__.get("math") is math:
                put(m, "math", ms)
            for n, v in list(m.__dict__.items()):
                if v is float or v is int:
                    continue
                fc = getattr(v, "__self__", None)
                if isinstance(fc, type) and issubclass(fc, torch.autograd.Function) and getattr(v, "__name__", "") == "apply":
                    put(m, n, (lambda c: lambda *a: c.forward(FakeCtx(), *a))(fc))
            if "float" not in m.__dict__:
                put(m, "float", _FShim)
            if "int" not in m.__dict__:
                put(m, "int", _IShim)
        for c in _fn_subclasses():
            put(c, "apply", staticmethod((lambda c: lambda *a: c.forward(FakeCtx(), *a))(c)))
        cm = sys.modules.get("pytorch3d._C")
        if cm is not None:
            for n in dir(cm):
                if n.startswith("_"):
                    continue
                if n in C_STUBS:
                    put(cm, n, C_STUBS[n])
                elif isinstance(getattr(cm, n), types.BuiltinFunctionType):
                    put(cm, n, _kernel(n))
        for dn, f in MODULE_STUBS.items():
            mod, name = dn.rsplit(".", 1)
            m = sys.modules.get(mod)
            if m is not None:
                put(m, name, f)
        yield
    finally:
        for obj, name, old in reversed(saved):
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
