"""Contract runner.

A contract is one Python function  body(c)  written against the interface of
`Ctx`.  The same text is used
  * symbolically: inputs are arbitrary (symbolic dims, symbolic entries), the
    unmodified library code runs on them, every `c.check` becomes proof
    obligations (one per explored path), each discharged by vt.prove;
  * concretely: inputs are drawn at random (or from a verifier model) and every
    `c.check` is evaluated on the real code with real torch tensors - used to
    show the contract is not vacuous, to cross-check the verifier's torch
    contracts, and to find / replay a failing input when a proof fails.
"""
import os
import contextlib
import itertools
import math
import random
import sys
import time
import traceback
import warnings
import torch
from . import term as tm
from . import sess, symt, patch, smt
from .prove import prove, satisfiable, TR
from .sess import Session, Unsupported, PathAbort, SymInt, SymReal, SymBool, scalar_term, mkint, mkreal, mkbool, mknum

REG = []


class Contract:
    def __init__(self, prop, name, body, fns, cases, tol, trials, seconds, bounded, conc_only, paths, quick):
        self.prop, self.name, self.body, self.fns = prop, name, body, fns
        self.cases, self.tol, self.trials, self.seconds = cases, tol, trials, seconds
        self.bounded, self.conc_only, self.paths, self.quick = bounded, conc_only, paths, quick


def contract(prop, name, fns=(), cases=None, tol=1e-6, trials=12, seconds=60, bounded=None, conc_only=False, paths=80,
             quick=True):
    def deco(f):
        for k, cs in enumerate(cases or [{}]):
            nm = name + ("[" + ",".join(f"{a}={b}" for a, b in cs.items()) + "]" if cs else "")
            REG.append(Contract(prop, nm, f, list(fns), cs, tol, trials, seconds, bounded, conc_only, paths, quick))
        return f
    return deco


class Skip(Exception):
    """a random input did not meet the precondition"""


class Ctx:
    sym = False

    # --- helpers shared by both modes
    def vec(self, x, *idx, n=3):
        return [self.g(x, *idx, k) for k in range(n)]

    def mat(self, x, *idx, n=3, m=None):
        return [[self.g(x, *idx, i, j) for j in range(m or n)] for i in range(n)]

    def close(self, label, shape, got, want):
        """got, want: functions of the index"""
        self.check(label, shape, lambda *i: self.eq(got(*i), want(*i)))

    def same(self, label, x, y, dtype=True):
        """two tensors agree (shape and values)"""
        self.fact(label + ":ndim", x.ndim == y.ndim)
        if x.ndim == y.ndim:
            self.shape(label + ":shape", x, tuple(y.shape))
            self.check(label, tuple(y.shape), lambda *i: self.eq(self.g(x, *i), self.g(y, *i)))
        if dtype:
            self.fact(label + ":dtype", x.dtype == y.dtype)

    def shape(self, label, x, sh):
        self.fact(label + ":rank", x.ndim == len(sh))
        if x.ndim == len(sh):
            for k, d in enumerate(sh):
                self.fact(f"{label}:dim{k}", self.ieq(x.shape[k], d))

    def abs(self, a):
        return self.ite(self.lt0(a), -a, a)

    def dot(self, a, b):
        r = 0
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def mm(self, A, B):
        return [[self.dot(A[i], [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]

    def tr(self, A):
        return [list(r) for r in zip(*A)]

    def det3(self, A):
        return self.dot(A[0], self.cross(A[1], A[2]))

    def norm(self, a):
        return self.sqrt(self.dot(a, a))

    def mateq(self, A, B):
        return self.and_(*[self.eq(x, y) for r, s in zip(A, B) for x, y in zip(r, s)])

    def eye(self, n):
        return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


# =================================================================== concrete
class Fail(Exception):
    def __init__(self, label, idx, info=""):
        super().__init__(f"{label} at {idx}: {info}")
        self.label, self.idx, self.info = label, idx, info


def _num(v):
    return v.item() if isinstance(v, torch.Tensor) else v


class Conc(Ctx):
    def __init__(self, con, seed, given=None, small=False, style=0):
        self.con = con
        self.rng = random.Random(seed)
        self.given = given or {}
        self.inputs = {}
        self.labels = set()
        self.tol = con.tol
        self.style = style
        self.evals = 0
        self.snap = []
        self.small = small

    # --- inputs
    def case(self):
        return self.con.cases

    def dim(self, name, lo=1, hi=None):
        if name in self.given:
            v = max(lo, min(int(self.given[name]), hi or 100000))
        else:
            top = lo + (2 if self.small else self.rng.choice([0, 1, 2, 3, 4]))
            v = min(top, hi) if hi else top
        self.inputs[name] = v
        return v

    integer_dims = True

    def integer(self, name, lo, hi):
        """integer scalar in [lo, hi)"""
        if name in self.given:
            v = max(lo, min(int(self.given[name]), hi - 1))
        else:
            v = self.rng.randrange(lo, hi)
        self.inputs[name] = v
        return v

    def scalar(self, name, lo=-2.0, hi=2.0):
        v = float(self.given[name]) if name in self.given else self._draw(lo, hi)
        self.inputs[name] = v
        return v

    def boolean(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < 0.5
        self.inputs[name] = v
        return v

    def _draw(self, lo, hi):
        r = self.rng.random()
        st = self.style % 4
        if st == 1 and r < 0.35:
            c = [v for v in (0.0, 1.0, -1.0, 0.5, -0.5, 2.0) if lo <= v <= hi]
            if c:
                return self.rng.choice(c)
        if st == 2 and r < 0.5:
            return lo + (hi - lo) * self.rng.choice([0.1, 0.25, 0.5, 0.75, 0.9]) 
        if st == 3 and r < 0.3:
            v = self.rng.uniform(-1e-3, 1e-3)
            if lo <= v <= hi:
                return v
        return self.rng.uniform(lo, hi)

    def _fill(self, name, shape, gen):
        shape = tuple(int(s) for s in shape)
        giv = self.given.get(name, {})
        if isinstance(giv, (list, float, int)) and not isinstance(giv, dict):
            return _nest(giv, shape)

        def rec(pre, sh):
            if not sh:
                if pre in giv:
                    return giv[pre]
                return gen()
            return [rec(pre + (k,), sh[1:]) for k in range(sh[0])]
        return rec((), shape)

    def real(self, name, shape, dtype=torch.float64, lo=-2.0, hi=2.0, fix=None):
        data = self._fill(name, shape, lambda: self._draw(lo, hi))
        self.inputs[name] = data
        t = torch.tensor(data, dtype=dtype).reshape(tuple(int(s) for s in shape))
        return fix(t) if fix else t

    def default(self, dtype):
        """default floating point type of the real runs"""
        torch.set_default_dtype(dtype)

    def ints(self, name, shape, lo, hi, dtype=torch.int64, fix=None):
        """entries in [lo, hi); `fix` (real runs only) repairs drawn values so that a later requirement holds"""
        data = self._fill(name, shape, lambda: self.rng.randrange(int(lo), max(int(hi), int(lo) + 1)))
        self.inputs[name] = data
        t = torch.tensor(data, dtype=dtype).reshape(tuple(int(s) for s in shape))
        t = t.clamp(int(lo), max(int(hi) - 1, int(lo))) if t.numel() else t
        return fix(t) if fix else t

    def bools(self, name, shape):
        data = self._fill(name, shape, lambda: self.rng.random() < 0.5)
        self.inputs[name] = data
        return torch.tensor(data, dtype=torch.bool).reshape(tuple(int(s) for s in shape))

    def rotation(self, name, shape=(), dtype=torch.float64):
        q = self.real(name, tuple(shape) + (4,), torch.float64)
        n2 = (q * q).sum(-1)
        if bool((n2 < 1e-2).any()):
            raise Skip()
        return _quat(q, torch.stack).to(dtype)

    def tensor(self, shape, fn, dtype=torch.float64):
        """a tensor built from a function of the index"""
        shape = tuple(int(s) for s in shape)
        t = torch.zeros(shape, dtype=dtype)
        for i in itertools.product(*[range(s) for s in shape]):
            t[i] = _num(fn(*i))
        return t

    def require(self, b):
        if not bool(b):
            raise Skip()

    def require_all(self, shape, f):
        for i in itertools.product(*[range(int(s)) for s in shape]):
            if not bool(f(*i)):
                raise Skip()

    # --- reading
    def g(self, x, *idx):
        v = x[tuple(int(_num(i)) for i in idx)] if idx else x
        return v.item()

    # --- logic
    def eq(self, a, b):
        a, b = _num(a), _num(b)
        if a != a or b != b:
            self.info = f"{a} vs {b}"
            return False
        if a == b:
            return True
        r = abs(a - b) <= self.tol * (1 + max(abs(a), abs(b)))
        if not r:
            self.info = f"{a!r} vs {b!r}"
        return r

    def ieq(self, a, b):
        return a == b

    def le(self, a, b):
        a, b = _num(a), _num(b)
        r = a <= b + self.tol * (1 + max(abs(a), abs(b)))
        if not r:
            self.info = f"{a!r} > {b!r}"
        return r

    def lt(self, a, b):
        return self.le(a, b)

    def lt0(self, a):
        return a < 0

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        """b may be a thunk"""
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        r = a if bool(c) else b
        return r() if callable(r) else r

    def forall(self, n, f, lo=0):
        return all(bool(f(k)) for k in range(int(lo), int(n)))

    def exists(self, n, f, lo=0):
        return any(bool(f(k)) for k in range(int(lo), int(n)))

    def sum(self, n, f, lo=0):
        r = 0
        for k in range(int(lo), int(n)):
            r = r + f(k)
        return r

    def prod(self, n, f, lo=0):
        r = 1
        for k in range(int(lo), int(n)):
            r = r * f(k)
        return r

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def minover(self, n, f, lo=0):
        return min(f(k) for k in range(int(lo), int(n)))

    def maxover(self, n, f, lo=0):
        return max(f(k) for k in range(int(lo), int(n)))

    def idiv(self, a, b):
        return a // b

    def imod(self, a, b):
        return a % b

    def toreal(self, a):
        return float(a)

    def floor(self, a):
        return math.floor(a)

    pi = math.pi
    sqrt = staticmethod(lambda a: math.sqrt(a) if a >= 0 else (0.0 if a > -1e-12 else math.nan))
    sin, cos, tan = math.sin, math.cos, math.tan
    atan2 = math.atan2
    acos = staticmethod(lambda a: math.acos(max(-1.0, min(1.0, a))))
    asin = staticmethod(lambda a: math.asin(max(-1.0, min(1.0, a))))

    @staticmethod
    def exp(a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf

    log = staticmethod(lambda a: math.log(a) if a > 0 else -math.inf)
    pow = staticmethod(lambda a, b: math.pow(a, b) if a > 0 or b > 0 else (1.0 if b == 0 else math.nan))

    # --- obligations
    def check(self, label, shape, f):
        self.labels.add(label)
        for i in itertools.product(*[range(int(s)) for s in shape]):
            self.evals += 1
            self.info = ""
            if not bool(f(*i)):
                raise Fail(label, i, self.info)

    def fact(self, label, b):
        self.labels.add(label)
        self.evals += 1
        self.info = ""
        if callable(b):
            b = b()
        if not bool(b):
            raise Fail(label, (), self.info)

    def raises(self, label, exc, f):
        self.labels.add(label)
        self.evals += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Fail(label, (), f"raised {type(e).__name__}: {e}")
        raise Fail(label, (), "did not raise")

    def unchanged(self, label, x):
        """call before the operation; returns a thunk to call after it"""
        c = x.clone()

        def after():
            self.same(label, x, c)
        return after

    def lemma(self, label, f, *dims):
        pass

    def apply(self, *a):
        pass

    def hint(self, *a):
        pass

    @contextlib.contextmanager
    def stub(self, name, f, both=False):
        """real runs execute the real callee unless the contract is about the caller alone (both)"""
        if not both:
            yield
            return
        mod, nm = name.rsplit(".", 1)
        m = sys.modules[mod]
        old = m.__dict__[nm]
        setattr(m, nm, f)
        try:
            yield
        finally:
            setattr(m, nm, old)


def _nest(v, shape):
    return v


def _quat(q, stack, s=None):
    r, i, j, k = q[..., 0], q[..., 1], q[..., 2], q[..., 3]
    if s is None:
        s = 2 / (r * r + i * i + j * j + k * k)
    o = stack([1 - s * (j * j + k * k), s * (i * j - k * r), s * (i * k + j * r),
               s * (i * j + k * r), 1 - s * (i * i + k * k), s * (j * k - i * r),
               s * (i * k - j * r), s * (j * k + i * r), 1 - s * (i * i + j * j)], -1)
    return o.reshape(tuple(q.shape[:-1]) + (3, 3))


# =================================================================== symbolic
class Ob:
    __slots__ = ("label", "hyps", "goal", "kind")

    def __init__(self, label, hyps, goal, kind="goal"):
        self.label, self.hyps, self.goal, self.kind = label, hyps, goal, kind


class Sym(Ctx):
    sym = True
    pi = SymReal(tm.PI)

    def __init__(self, con, session, small=None):
        self.con = con
        self.s = session
        self.obs = []
        self.n = 0
        self.small = small

    def case(self):
        return self.con.cases

    # --- inputs
    def dim(self, name, lo=1, hi=None):
        if self.small is not None:
            return max(lo, min(self.small.get(name, 2), hi or 99))
        v = tm.var(name, "I")
        self.s.assume(tm.le(tm.num(lo, "I"), v))
        if hi is not None:
            self.s.assume(tm.le(v, tm.num(hi, "I")))
        return SymInt(v)

    def integer(self, name, lo, hi):
        v = tm.var(name, "I")
        self.s.assume(tm.and_(tm.le(scalar_term(lo), v), tm.lt(v, scalar_term(hi))))
        return SymInt(v)

    def scalar(self, name, lo=None, hi=None):
        return SymReal(tm.var(name, "R"))

    def boolean(self, name):
        return SymBool(tm.var(name, "B"))

    def default(self, dtype):
        pass

    def real(self, name, shape, dtype=torch.float64, lo=None, hi=None, fix=None):
        return symt.SymTensor(shape, lambda i: tm.app(name, i, "R") if i else tm.var(name, "R"), dtype)

    def ints(self, name, shape, lo, hi, dtype=torch.int64, fix=None):
        t = symt.SymTensor(shape, lambda i: tm.app(name, i, "I") if i else tm.var(name, "I"), dtype)
        l, h = scalar_term(lo), scalar_term(hi)
        f = t.reader()
        lv = tm.lt(l, h)
        if name not in tm.RANGE and (lv is tm.TRUE or lv is not tm.FALSE and self.s.decide(lv)):
            self.s.assume(symt.forall(t.shape, lambda i: tm.and_(tm.le(l, f(i)), tm.lt(f(i), h))))
            tm.RANGE[name] = (l, h)
            return t
        self.s.assume(symt.forall(t.shape, lambda i: tm.and_(tm.le(l, f(i)), tm.lt(f(i), h))))
        return t

    def bools(self, name, shape):
        return symt.SymTensor(shape, lambda i: tm.app(name, i, "B") if i else tm.var(name, "B"), torch.bool)

    def rotation(self, name, shape=(), dtype=torch.float64):
        q = self.real(name, tuple(shape) + (4,), dtype)
        f = q.reader()

        def pos(i):
            cs = [f(i + (tm.num(k, "I"),)) for k in range(4)]
            return tm.lt(tm.ZERO, tm.add(*[tm.mul(x, x) for x in cs]))
        self.s.assume(symt.forall(symt.SymSize(shape), pos))
        return _quat(q, symt.stack_)

    def tensor(self, shape, fn, dtype=torch.float64):
        sh = symt.SymSize(shape)
        srt = symt.SORT[symt.cat(dtype)]

        def f(i):
            r = scalar_term(fn(*[mkint(x) for x in i]))
            return symt.cast(r, dtype)
        return symt.SymTensor(sh, f, dtype)

    def require(self, b):
        self.s.assume(_b(b))

    def require_all(self, shape, f):
        self.s.assume(symt.forall(symt.SymSize(shape), lambda i: _b(f(*[mkint(x) for x in i]))))

    # --- reading
    def g(self, x, *idx):
        t = x.elem(tuple(scalar_term(i) for i in idx))
        return mknum2(t)

    # --- logic
    def eq(self, a, b):
        return _B(tm.eq(_t(a), _t(b)))

    ieq = eq

    def le(self, a, b):
        return _B(tm.le(_t(a), _t(b)))

    def lt(self, a, b):
        return _B(tm.lt(_t(a), _t(b)))

    def lt0(self, a):
        t = _t(a)
        return _B(tm.lt(t, tm.num(0, t.sort)))

    def and_(self, *xs):
        return _B(tm.and_(*[_b(x) for x in xs]))

    def or_(self, *xs):
        return _B(tm.or_(*[_b(x) for x in xs]))

    def not_(self, x):
        return _B(tm.not_(_b(x)))

    def implies(self, a, b):
        if callable(b):
            b = b()
        return _B(tm.implies(_b(a), _b(b)))

    def iff(self, a, b):
        return _B(tm.iff(_b(a), _b(b)))

    def ite(self, c, a, b):
        c = _b(c)
        th = lambda x, h: self._under(h, x) if callable(x) else x
        if c is tm.TRUE:
            return th(a, c)
        if c is tm.FALSE:
            return th(b, tm.TRUE)
        return mknum2(tm.ite(c, *tm.unify(_t(th(a, c)), _t(th(b, tm.not_(c))))))

    def _under(self, h, f):
        self._push([h])
        try:
            return f()
        finally:
            self._pop([h])

    def _bind(self, op, n, f, lo, conv):
        nt, lt = _t(n), _t(lo)
        if nt.op == "num" and lt.op == "num" and nt.args[0] - lt.args[0] <= symt.UNROLL:
            xs = [conv(f(k)) for k in range(int(lt.args[0]), int(nt.args[0]))]
            return symt.fold(op, xs)
        k = tm.fresh("k", "I")
        m = len(self.s.hyps)
        rng = [tm.le(lt, k), tm.lt(k, nt)]
        self._push(rng)
        try:
            body = conv(f(SymInt(k)))
        finally:
            self._pop(rng)
        return tm.close_binder(op, k, lt, nt, body)

    def _push(self, hs):
        for h in hs:
            if h is not tm.TRUE:
                self.s.hyps.append(h)
        self.s._orc = None

    def _pop(self, hs):
        for h in hs:
            if h is not tm.TRUE:
                # remove the last occurrence
                for k in range(len(self.s.hyps) - 1, -1, -1):
                    if self.s.hyps[k] is h:
                        del self.s.hyps[k]
                        break
        self.s._orc = None

    def forall(self, n, f, lo=0):
        return _B(self._bind("ball", n, f, lo, _b))

    def exists(self, n, f, lo=0):
        return _B(tm.not_(self._bind("ball", n, lambda k: tm.not_(_b(f(k))), lo, _b)))

    def sum(self, n, f, lo=0):
        return mknum2(self._bind("sum", n, f, lo, _t))

    def prod(self, n, f, lo=0):
        return mknum2(self._bind("prod", n, f, lo, _t))

    def minover(self, n, f, lo=0):
        return mknum2(self._bind("bmin", n, f, lo, _t))

    def maxover(self, n, f, lo=0):
        return mknum2(self._bind("bmax", n, f, lo, _t))

    def min(self, a, b):
        return mknum2(tm.tmin(*tm.unify(_t(a), _t(b))))

    def max(self, a, b):
        return mknum2(tm.tmax(*tm.unify(_t(a), _t(b))))

    def idiv(self, a, b):
        return mknum2(sess.smart_idiv(_t(a), _t(b)))

    def imod(self, a, b):
        return mknum2(sess.smart_imod(_t(a), _t(b)))

    def toreal(self, a):
        return mknum2(tm.to_real(_t(a)))

    def floor(self, a):
        return mknum2(tm.floor(tm.to_real(_t(a))))

    def sqrt(self, a):
        return mknum2(tm.sqrt(tm.to_real(_t(a))))

    def sin(self, a):
        return mknum2(tm.sin(tm.to_real(_t(a))))

    def cos(self, a):
        return mknum2(tm.cos(tm.to_real(_t(a))))

    def tan(self, a):
        return mknum2(tm.tan(tm.to_real(_t(a))))

    def acos(self, a):
        return mknum2(tm.acos(tm.to_real(_t(a))))

    def asin(self, a):
        return mknum2(tm.asin(tm.to_real(_t(a))))

    def atan2(self, a, b):
        return mknum2(tm.atan2(tm.to_real(_t(a)), tm.to_real(_t(b))))

    def exp(self, a):
        return mknum2(tm.exp(tm.to_real(_t(a))))

    def pow(self, a, b):
        return symt.mkreal(symt.rpow(_t(a), _t(b)))

    def log(self, a):
        return mknum2(tm.log(tm.to_real(_t(a))))

    # --- obligations
    def check(self, label, shape, f):
        small, idx, rng = 1, [], []
        for k, d in enumerate(shape):
            if type(d) is SymInt and self.s.decide(tm.eq(_t(d), tm.num(1, "I"))):
                d = 1
            if type(d) is not SymInt and d * small <= 48:
                idx.append(range(int(d)))
                small *= max(d, 1)
            else:
                self.n += 1
                v = tm.var(f"i!{label}!{self.n}", "I")
                rng += [tm.le(tm.num(0, "I"), v), tm.lt(v, _t(d))]
                idx.append([SymInt(v)])
        for i in itertools.product(*idx):
            self._push(rng)
            try:
                if rng and self.s.oracle().entails(tm.FALSE):
                    continue
                g = _b(f(*i))
                h = list(self.s.hyps)
            finally:
                self._pop(rng)
            tag = ",".join(str(k) for k in i if type(k) is int)
            self.obs.append(Ob(label + (f"[{tag}]" if tag else ""), h, g))

    def fact(self, label, b):
        if callable(b):
            b = b()
        self.obs.append(Ob(label, list(self.s.hyps), _b(b)))

    def raises(self, label, exc, f):
        try:
            f()
        except exc as e:
            if isinstance(e, Unsupported):
                raise
            self.obs.append(Ob(label, list(self.s.hyps), tm.TRUE))
            return
        self.obs.append(Ob(label, list(self.s.hyps), tm.FALSE))

    def unchanged(self, label, x):
        c = x.clone()
        fn = x._s.fn
        # freeze the contents
        c = symt.SymTensor(x.shape, (lambda f, to: (lambda i: f(i if to is None else to(i))))(fn, x._to), x.dtype)

        def after():
            if x._s.fn is fn:
                self.obs.append(Ob(label, list(self.s.hyps), tm.TRUE))
            else:
                self.same(label, x, c)
        return after

    def lemma(self, label, f):
        """an intermediate fact: proved, then available to later obligations"""
        g = _b(f() if callable(f) else f)
        self.obs.append(Ob("lemma:" + label, list(self.s.hyps), g))
        self.s.assume(g)

    def apply(self, label, shape, premise, concl, args):
        """use a lemma about arbitrary reals: premise(v) ==> concl(v) is proved for all v,
        premise(args(i)) for every index i, and concl(args(i)) is then available"""
        k = len(args(*[0] * len(shape)))
        self.n += 1
        v = [SymReal(tm.var(f"v!{label}!{self.n}!{j}", "R")) for j in range(k)]
        self.obs.append(Ob("lemma:" + label, [], tm.implies(_b(premise(*v)), _b(concl(*v)))))
        self.check("instance:" + label, shape, lambda *i: premise(*args(*i)))
        self.s.assume(symt.forall(symt.SymSize(shape), lambda i: _b(concl(*args(*[mkint(x) for x in i])))))

    def hint(self, f):
        pass

    @contextlib.contextmanager
    def stub(self, name, f, both=False):
        """inside: the function bound to the dotted module-level name is used through
        its contract f (established by its own contract elsewhere)"""
        mod, nm = name.rsplit(".", 1)
        m = sys.modules[mod]
        if nm not in m.__dict__:
            raise Unsupported(f"{name} is not there any more")
        old = m.__dict__[nm]
        hit = []

        def g(*a, **k):
            hit.append(1)
            return f(*a, **k)
        setattr(m, nm, g)
        try:
            yield
        finally:
            setattr(m, nm, old)
        if not hit:
            raise Unsupported(f"{name} is not called through its module name any more")


def _t(x):
    return scalar_term(x)


def _b(x):
    if x is True or x is False:
        return tm.TRUE if x else tm.FALSE
    t = scalar_term(x)
    if t.sort != "B":
        t = tm.ne(t, tm.num(0, t.sort))
    return t


def _B(t):
    return mkbool(t)


def mknum2(t):
    if t.sort == "I":
        return mkint(t)
    if t.sort == "B":
        return mkbool(t)
    return SymReal(t)


# =================================================================== running
def run_symbolic(con, small=None, budget=None, log=None, trace=False, probe=None):
    """-> dict(obligations, discharged, failed=[...], unsupported=None|str, paths, ...)"""
    t0 = time.time()
    res = dict(obligations=0, discharged=0, failed=[], unsupported=None, paths=0, used={}, labels=set(), raised=[],
               sat=0, infeasible=0)
    work = [[]]
    deadline = t0 + (budget or con.seconds * 4)
    while work:
        dec = work.pop()
        if res["paths"] >= con.paths:
            res["unsupported"] = f"more than {con.paths} paths"
            break
        if time.time() > deadline:
            res["unsupported"] = "time budget for the contract exhausted"
            break
        s = Session(dec)
        tm.RANGE.clear()
        old = Session.cur
        Session.cur = s
        c = Sym(con, s, small)
        err = None
        try:
            with patch.active(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                con.body(c, **con.cases)
        except PathAbort:
            err = "abort"
        except Skip:
            err = "abort"
        except Unsupported as e:
            res["unsupported"] = f"{e} ({_where(e)})"
            if trace:
                traceback.print_exc()
            err = "unsupported"
        except RecursionError as e:
            res["unsupported"] = f"recursion: {e}"
            err = "unsupported"
        except Exception as e:
            err = e
            if trace:
                traceback.print_exc()
        finally:
            work += s.pending
            if err == "unsupported":
                work = []
        if err == "unsupported":
            Session.cur = old
            break
        res["paths"] += 1
        sat = satisfiable(s.hyps)
        if sat == "unsat" or err == "abort":
            res["infeasible"] += 1
            Session.cur = old
            continue
        if sat == "sat":
            res["sat"] += 1
        if err is not None:
            # an exception on a feasible path
            w = _where(err)
            res["obligations"] += 1
            if prove(s.hyps, tm.FALSE, 20)[0]:
                res["discharged"] += 1
                res["infeasible"] += 1
                Session.cur = old
                continue
            res["failed"].append(dict(label="defined", path=len(dec), why=f"raises {type(err).__name__}: {str(err)[:200]} at {w}",
                                      explicit=_explicit(err), goal="no exception", hyps=[tm.show(h)[:200] for h in s.hyps][:20],
                                      seeds=model_seed(s.hyps, tm.FALSE)))
            Session.cur = old
            continue
        for o in c.obs:
            res["labels"].add(o.label.split("[")[0])
            res["obligations"] += 1
            if time.time() > deadline:
                res["failed"].append(dict(label=o.label, path=len(dec), why="time budget exhausted", goal=tm.show(o.goal)[:400],
                                          hyps=[], seeds=[], explicit=True, timeout=True))
                continue
            t1 = time.time()
            ok, p = prove(o.hyps, o.goal, min(con.seconds, max(5, deadline - time.time())), trace=False)
            if log:
                log(f"    {con.name} {o.label} {'ok' if ok else 'FAIL'} {time.time()-t1:.2f}s {sorted(p.used)}")
            if ok:
                res["discharged"] += 1
                for u in p.used or {"simplifier"}:
                    res["used"][u] = res["used"].get(u, 0) + 1
            else:
                f = p.fail or (o.hyps, o.goal, "?")
                res["failed"].append(dict(label=o.label, path=len(dec), why=str(f[2])[:300], goal=tm.show(o.goal)[:1500],
                                          residual=tm.show(f[1])[:int(os.environ.get("VT_SHOW", "1500"))], explicit=True,
                                          hyps=[tm.show(h)[:200] for h in f[0]][:30],
                                          seeds=model_seed(list(f[0]), f[1]) + model_seed(o.hyps, o.goal)))
                if probe and len(res["failed"]) in (1, 4) and probe(res["failed"][-1]["seeds"]):
                    res["stopped"] = True
                if len(res["failed"]) > 6 or res.get("stopped"):
                    break
        Session.cur = old
        if len(res["failed"]) > 6 or res.get("stopped"):
            break
    res["s"] = time.time() - t0
    return res


def _where(e):
    tb = e.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code
        last = f"{f.co_filename}:{tb.tb_lineno} {f.co_name}"
        tb = tb.tb_next
    return last


def _explicit(e):
    """raised by a `raise`/`assert` statement of the library (and not, say, by an
    argument parser that does not know symbolic scalars)"""
    import linecache
    tb, fr = e.__traceback__, None
    while tb is not None:
        fr = (tb.tb_frame.f_code.co_filename, tb.tb_lineno)
        tb = tb.tb_next
    if fr is None or "pytorch3d" not in fr[0]:
        return False
    l = linecache.getline(*fr).strip()
    if l.startswith(("raise", "assert")):
        return True
    for k in range(1, 6):   # multi-line raise
        l = linecache.getline(fr[0], fr[1] - k).strip()
        if l.startswith("raise") and not l.endswith(")"):
            return True
    return False


def model_seed(hyps, goal, ms=3000):
    """concrete input fragments from a verifier model of hyps /\\ not goal"""
    import z3
    out = []
    try:
        neg = [tm.not_(goal)] if goal is not tm.FALSE else []
        ts = list(hyps) + neg
        dims = [v for t in ts for v in tm.free_vars(t) if v.op == "var" and v.sort == "I"]
        dims = list(dict.fromkeys(dims))
        for cap in (4, 12, 200):
            lim = [tm.le(d, tm.num(cap, "I")) for d in dims]
            r, m = smt.check(TR, ts, lim, ms=ms, want_model=True)
            if r == "sat" and m is not None:
                g = {}
                for t in ts:
                    for x in tm.subterms(t):
                        if x.op == "var":
                            v = _mv(m, x)
                            if v is not None:
                                g[x.args[0]] = v
                        elif x.op == "app" and not tm.levels(x):
                            ix = [_mv(m, a) for a in x.args[1:]]
                            v = _mv(m, x)
                            if v is not None and all(k is not None for k in ix):
                                e = g.setdefault(x.args[0], {})
                                if isinstance(e, dict):
                                    e[tuple(int(k) for k in ix)] = v
                out.append(g)
                break
    except Exception:
        pass
    return out


def _mv(m, x):
    import z3
    try:
        v = m.eval(TR(x), model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = float(v.as_fraction())
            return f if abs(f) < 1e6 else None
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except Exception:
        pass
    return None


def run_concrete(con, seed, n, given=None, seconds=None, small=False):
    """-> dict(ran, skipped, evals, labels, failure=None|dict)"""
    res = dict(ran=0, skipped=0, evals=0, labels=set(), failure=None, samples=[], distinct=0)
    t0, seen = time.time(), set()
    k = 0
    old = torch.get_default_dtype()
    while k < n and (seconds is None or time.time() - t0 < seconds):
        g = None
        if given is not None:
            g = given[k % len(given)] if isinstance(given, list) else given
        c = Conc(con, f"{seed}/{con.name}/{k}", g, small, style=k)
        torch.manual_seed(hash((seed, k)) & 0xffff if isinstance(seed, int) else k)
        torch.set_default_dtype(torch.float64)
        k += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                con.body(c, **con.cases)
            res["ran"] += 1
        except Skip:
            res["skipped"] += 1
            if res["skipped"] > 20 * n:
                break
            continue
        except Fail as e:
            res["failure"] = dict(label=e.label, index=[str(x) for x in e.idx], info=e.info, inputs=c.inputs, exc=None)
        except Unsupported:
            raise
        except Exception as e:
            w = _where(e)
            res["failure"] = dict(label="defined", index=[], info=f"{type(e).__name__}: {str(e)[:300]} at {w}", inputs=c.inputs,
                                  exc=traceback.format_exc()[-1500:])
        finally:
            torch.set_default_dtype(old)
        if c.evals and c.inputs:
            seen.add(hash(repr(c.inputs)))
            res["distinct"] = len(seen)
        res["evals"] += c.evals
        res["labels"] |= {l.split("[")[0] for l in c.labels}
        if len(res["samples"]) < 2:
            res["samples"].append(repr(c.inputs)[:300])
        if res["failure"]:
            break
    return res
