"""Symbolic session: path conditions, branching by re-execution, dimensions."""
from . import term as tm
from .term import T
from . import smt
from .prove import TR, Oracle


class Unsupported(Exception):
    pass


class PathAbort(BaseException):
    """the current path is infeasible"""


class Session:
    cur = None

    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.pending = []          # alternative decision prefixes found
        self.hyps = []             # assumptions and path conditions
        self._orc = None
        self.branches = 0
        self.maxbranch = 400

    def assume(self, c):
        if c is tm.FALSE:
            raise PathAbort()
        if c is not tm.TRUE:
            self.hyps.append(c)
            self._orc = None

    def oracle(self):
        if self._orc is None:
            self._orc = Oracle(self.hyps, ms=600)
        return self._orc

    def entails(self, c):
        return self.oracle().entails(c)

    def decide(self, c):
        """True / False / None without forking"""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(tm.not_(c)):
            return False
        return None

    def branch(self, c):
        r = self.decide(c)
        if r is not None:
            return r
        self.branches += 1
        if self.branches > self.maxbranch:
            raise Unsupported("too many symbolic branches on one path")
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            v = True
            self.pending.append(self.decisions[:self.pos] + [False])
            self.decisions.append(True)
        self.pos += 1
        self.assume(c if v else tm.not_(c))
        return v


def S():
    s = Session.cur
    if s is None:
        raise RuntimeError("no symbolic session")
    return s


# ------------------------------------------------------------------ scalars
def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool)) or type(x).__name__ == "SymTensor"


def scalar_term(x):
    """python/symbolic scalar -> term"""
    if isinstance(x, T):
        return x
    if type(x) in (SymInt, SymReal, SymBool):
        return x.t
    if isinstance(x, (bool, int, float)):
        return tm.const(x)
    if type(x).__name__ == "SymTensor":
        if x.ndim == 0:
            return x.elem(())
        if all(d == 1 for d in x.shape):
            return x.elem(tuple(tm.num(0, "I") for _ in x.shape))
        raise Unsupported("tensor used as scalar")
    import numpy as np
    import torch
    if isinstance(x, (np.integer,)):
        return tm.const(int(x))
    if isinstance(x, (np.floating,)):
        return tm.const(float(x))
    if isinstance(x, torch.Tensor) and x.numel() == 1:
        return tm.const(x.item())
    raise Unsupported(f"scalar of type {type(x)}")


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return S().branch(self.t)

    def __and__(self, o):
        return mkbool(tm.and_(self.t, scalar_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(tm.or_(self.t, scalar_term(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(tm.not_(self.t))

    def __eq__(self, o):
        return mkbool(tm.eq(self.t, scalar_term(o)))

    def __ne__(self, o):
        return mkbool(tm.ne(self.t, scalar_term(o)))

    def __xor__(self, o):
        return mkbool(tm.ne(self.t, scalar_term(o)))

    def item(self):
        return self

    def __hash__(self):
        return hash(self.t)


def mkbool(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SymBool(t)


def mkint(t):
    t = tm.to_int(t) if t.sort != "I" else t
    if t.op == "num":
        return int(t.args[0])
    return SymInt(t)


def mkreal(t):
    if t.op == "num" and t.sort == "R":
        f = t.args[0]
        if f.denominator == 1 and abs(f) < 2**53:
            return float(f)
    return SymReal(tm.to_real(t))


def _bin(f, mk):
    def op(self, o):
        if type(o).__name__ == "SymTensor" or _is_tensor(o):
            return NotImplemented
        try:
            return mk(f(self.t, scalar_term(o)))
        except Unsupported:
            return NotImplemented
    return op


def _rbin(f, mk):
    def op(self, o):
        if type(o).__name__ == "SymTensor" or _is_tensor(o):
            return NotImplemented
        try:
            return mk(f(scalar_term(o), self.t))
        except Unsupported:
            return NotImplemented
    return op


def _is_tensor(o):
    import torch
    return type(o) is torch.Tensor


def mknum(t):
    return mkint(t) if t.sort != "R" else mkreal(t)


def t_mod(a, b):
    if a.sort == "R" or b.sort == "R":
        a, b = tm.to_real(a), tm.to_real(b)
        return tm.sub(a, tm.mul(b, tm.to_real(tm.floor(tm.div(a, b)))))
    return smart_imod(a, b)


def t_floordiv(a, b):
    if a.sort == "R" or b.sort == "R":
        return tm.to_real(tm.floor(tm.div(a, b)))
    return smart_idiv(a, b)


# decompositions n*P+p with 0<=p<P known by construction
FLAT = {}


def lin(n, p, P):
    """n*P + p for an in-range p"""
    if P.op == "num" and P.args[0] == 1:
        return n
    if n.op == "num" and n.args[0] == 0:
        r = p
    else:
        r = tm.add(tm.mul(n, P), p)
    if not (r.op == "num"):
        FLAT[(r.id, P.id)] = (n, p)
    return r


def smart_idiv(a, b):
    k = FLAT.get((a.id, b.id))
    if k:
        return k[0]
    if a is b:
        return tm.num(1, "I")
    m = _exact_idiv(a, b)
    if m is not None:
        return m
    if b.op == "num" and a.op == "add":
        # split off multiples of b
        q = int(b.args[0])
        if q > 0:
            mult, rest = [], []
            for x in a.args:
                c = x.args[0].args[0] if x.op == "mul" and x.args[0].op == "num" else (
                    x.args[0] if x.op == "num" else 1)
                if x.op != "num" and c % q == 0:
                    mult.append(tm.mk_ac("mul", [tm.num(c // q, "I")] + list(x.args[1:]), "I"))
                else:
                    rest.append(x)
            if mult:
                r = tm.add(*rest) if rest else tm.num(0, "I")
                return tm.add(*mult, smart_idiv(r, b))
    sp = _split_multiples(a, b)
    if sp:
        return tm.add(sp[0], smart_idiv(sp[1], b))
    if _range_below(a, b):
        return tm.num(0, "I")
    return tm.idiv(a, b)


def _split_multiples(a, b):
    """(q, r) with a = q*b + r, q from the addends that are syntactic multiples of a positive symbolic b"""
    if b.op == "num" or a.op != "add":
        return None
    q, r = [], []
    for x in a.args:
        m = _exact_idiv(x, b) if x.op != "num" else None
        if m is None:
            r.append(x)
        else:
            q.append(m)
    s = Session.cur
    if not q or not r or s is None or not s.entails(tm.le(tm.num(1, "I"), b)):
        return None
    return tm.add(*q), tm.add(*r)


def _exact_idiv(a, b):
    """a / b when a is syntactically a multiple of b"""
    fb = list(b.args) if b.op == "mul" else [b]
    out = []
    for x in (a.args if a.op == "add" else (a,)):
        fx = list(x.args) if x.op == "mul" else [x]
        c = 1
        for f in fb:
            if f.op == "num":
                hit = None
                for y in fx:
                    if y.op == "num" and y.args[0] % f.args[0] == 0:
                        hit = y
                if hit is None:
                    return None
                fx.remove(hit)
                c = c * (hit.args[0] // f.args[0])
            else:
                if f not in fx:
                    return None
                fx.remove(f)
        out.append(tm.mul(tm.num(c, "I"), *fx) if fx else tm.num(c, "I"))
    return tm.add(*out)


def _range_below(a, b):
    s = Session.cur
    if s is None:
        return False
    return s.entails(tm.and_(tm.le(tm.num(0, "I"), a), tm.lt(a, b)))


def smart_imod(a, b):
    k = FLAT.get((a.id, b.id))
    if k:
        return k[1]
    if _exact_idiv(a, b) is not None:
        return tm.num(0, "I")
    if b.op == "num" and a.op == "add":
        q = int(b.args[0])
        if q > 0:
            rest = []
            for x in a.args:
                c = x.args[0].args[0] if x.op == "mul" and x.args[0].op == "num" else (
                    x.args[0] if x.op == "num" else 1)
                if x.op == "num":
                    rest.append(tm.num(c % q, "I"))
                elif c % q:
                    rest.append(x)
            r = tm.add(*rest) if rest else tm.num(0, "I")
            if r is not a:
                return smart_imod(r, b)
    sp = _split_multiples(a, b)
    if sp:
        return smart_imod(sp[1], b)
    if _range_below(a, b):
        return a
    return tm.imod(a, b)


class _Num:
    def __hash__(self):
        return hash(self.t)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if type(o).__name__ == "SymTensor" or _is_tensor(o):
            return NotImplemented
        try:
            return mkbool(tm.eq(self.t, scalar_term(o)))
        except Unsupported:
            return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) and type(r) is bool else mkbool(tm.not_(r.t))

    __lt__ = _bin(tm.lt, mkbool)
    __le__ = _bin(tm.le, mkbool)
    __gt__ = _bin(tm.gt, mkbool)
    __ge__ = _bin(tm.ge, mkbool)
    __add__ = _bin(tm.add, mknum)
    __radd__ = _rbin(tm.add, mknum)
    __sub__ = _bin(tm.sub, mknum)
    __rsub__ = _rbin(tm.sub, mknum)
    __mul__ = _bin(tm.mul, mknum)
    __rmul__ = _rbin(tm.mul, mknum)
    __truediv__ = _bin(tm.div, mkreal)
    __rtruediv__ = _rbin(tm.div, mkreal)
    __floordiv__ = _bin(t_floordiv, mknum)
    __rfloordiv__ = _rbin(t_floordiv, mknum)
    __mod__ = _bin(t_mod, mknum)
    __rmod__ = _rbin(t_mod, mknum)

    def __pow__(self, n):
        return mknum(tm.power(self.t, n))

    def __rpow__(self, n):
        raise Unsupported("number ** symbolic")

    def __neg__(self):
        return mknum(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(tm.absv(self.t))

    def __bool__(self):
        return bool(mkbool(tm.ne(self.t, tm.num(0, self.t.sort))))

    def __format__(self, s):
        return f"<{tm.show(self.t)[:40]}>"

    def __repr__(self):
        return f"<{tm.show(self.t)[:60]}>"

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self


class SymInt(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __index__(self):
        raise Unsupported("symbolic integer where a concrete one is needed")

    def __int__(self):
        raise Unsupported("int() of a symbolic integer")

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")


class SymReal(_Num):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")


def dimT(d):
    return d.t if type(d) is SymInt else tm.num(int(d), "I")


def dim_of(t):
    return mkint(t)
