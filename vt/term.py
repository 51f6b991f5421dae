"""Hash-consed term language shared by both front ends (Python/torch and C++).

Sorts: 'R' (mathematical real), 'I' (mathematical integer), 'B' (boolean).
Machine floats are treated as reals (recorded as an assumption in every
evidence file).  Bound variables of 'sum'/'prod' binders are ordinary 'var'
terms with reserved names.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def mk(op, args, sort):
    key = (op, args, sort)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._h = t.id * 2654435761 & 0x7FFFFFFF
        _TABLE[key] = t
    return t


def reset_table():
    _TABLE.clear()
    _AC.clear()
    for k in list(globals()):
        pass


# ----------------------------------------------------------------- constants
def num(q, sort="R"):
    return mk("num", (Fraction(q),), sort)


def _pi_ratio(f):
    r = f / math.pi
    if r == 0:
        return None
    fr = Fraction(r).limit_denominator(1440)
    if fr != 0 and abs(fr.numerator) <= 1440 and abs(float(fr) * math.pi - f) <= 2e-16 * abs(f):
        return fr
    # 180/pi style
    return None


def _inv_pi_ratio(f):
    r = f * math.pi
    fr = Fraction(r).limit_denominator(64)
    if fr != 0 and abs(fr.numerator) <= 1440 and abs(float(fr) / math.pi - f) <= 2e-16 * abs(f):
        return fr
    return None


_FC = {}


def const(v):
    """Python scalar -> term.  Floats are read as the decimal that prints them
    (so 1e-4 is 1/10000); floats within one ulp of a small rational multiple of
    pi (or 1/pi) are read as that multiple."""
    if isinstance(v, T):
        return v
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return num(v, "I")
    if isinstance(v, Fraction):
        return num(v, "R")
    v = float(v)
    t = _FC.get(v)
    if t is not None:
        return t
    if v != v or v in (math.inf, -math.inf):
        if v != v:
            t = mk("var", ("nan",), "R")
        else:
            t = mk("inf", (1 if v > 0 else -1,), "R")
        _FC[v] = t
        return t
    t = None
    if v != int(v) or abs(v) > 2**53:
        fr = _pi_ratio(v)
        if fr is not None and fr.denominator not in (0,):
            # avoid misreading plain decimals: require non-terminating value
            if len(repr(abs(v)).replace(".", "").strip("0")) >= 12:
                t = mul(num(fr), PI)
        if t is None:
            fr = _inv_pi_ratio(v)
            if fr is not None and len(repr(abs(v)).replace(".", "").strip("0")) >= 12:
                t = div(num(fr), PI)
    if t is None:
        q = Fraction(repr(v))
        if len(repr(abs(v)).replace(".", "").lstrip("0")) >= 14:
            q2 = Fraction(v).limit_denominator(1000)
            if abs(float(q2) - v) <= 1.2e-16 * abs(v):
                q = q2  # e.g. 1/3 computed in floating point
        t = num(q)
    _FC[v] = t
    return t


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
PI = mk("pi", (), "R")
ZERO = num(0)
ONE = num(1)


def var(name, sort="R"):
    return mk("var", (name,), sort)


def app(name, idx, sort="R"):
    idx = tuple(num(i, "I") if isinstance(i, int) else i for i in idx)
    return mk("app", (name,) + idx, sort)


_fresh = [0]


def fresh(prefix, sort="R"):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def is_num(t):
    return t.op == "num"


def to_real(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    if t.op == "num":
        return num(t.args[0])
    if t.op in ("add", "mul"):
        return mk_ac(t.op, [to_real(a) for a in t.args], "R")
    if t.op == "ite":
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    return mk("i2r", (t,), "R")


def unify(a, b):
    if a.sort == b.sort:
        if a.sort == "B":
            return to_int(a), to_int(b)
        return a, b
    if a.sort == "B":
        a = to_int(a)
    if b.sort == "B":
        b = to_int(b)
    if a.sort != b.sort:
        return to_real(a), to_real(b)
    return a, b


def to_int(t):
    """integer view of a bool/int; truncation of a real."""
    if t.sort == "I":
        return t
    if t.sort == "B":
        return ite(t, num(1, "I"), num(0, "I"))
    if t.op == "i2r":
        return t.args[0]
    if t.op == "num":
        return num(int(t.args[0]), "I")
    if t.op in ("add", "mul") and all(_int_valued(a) for a in t.args):
        return mk_ac(t.op, [to_int(a) for a in t.args], "I")
    if t.op == "ite":
        return ite(t.args[0], to_int(t.args[1]), to_int(t.args[2]))
    return ite(le(ZERO, t), floor(t), neg(floor(neg(t))))


def _int_valued(t):
    return (t.op == "i2r" or (t.op == "num" and t.args[0].denominator == 1)
            or (t.op in ("add", "mul") and all(_int_valued(a) for a in t.args)))


def floor(t):
    if t.sort == "I":
        return t
    if t.op == "i2r":
        return t.args[0]
    if t.op == "num":
        return num(math.floor(t.args[0]), "I")
    if _int_valued(t):
        return to_int(t)
    return mk("floor", (t,), "I")


# ---------------------------------------------------------------- arithmetic
def mk_ac(op, args, sort):
    unit = 0 if op == "add" else 1
    c = Fraction(unit)
    rest = []
    for a in args:
        if a.op == "num":
            if op == "add":
                c += a.args[0]
            else:
                c *= a.args[0]
        elif a.op == op:
            for b in a.args:
                if b.op == "num":
                    if op == "add":
                        c += b.args[0]
                    else:
                        c *= b.args[0]
                else:
                    rest.append(b)
        else:
            rest.append(a)
    if op == "mul" and c == 0:
        return num(0, sort)
    if op == "add" and len(rest) >= 2:
        # cheap cancellation: t + (-1)*t
        cnt = {}
        for r in rest:
            if r.op == "mul" and r.args[0].op == "num":
                k = r.args[0].args[0]
                b = r.args[1:]
            else:
                k, b = Fraction(1), (r,)
            cnt[b] = cnt.get(b, 0) + k
        if len(cnt) < len(rest):
            rest = []
            for b, k in cnt.items():
                if k == 0:
                    continue
                base = b[0] if len(b) == 1 else mk("mul", b, sort)
                if k == 1:
                    rest.append(base)
                elif base.op == "mul":
                    rest.append(mk("mul", (num(k, sort),) + base.args, sort))
                else:
                    rest.append(mk("mul", (num(k, sort), base), sort))
    if not rest:
        return num(c, sort)
    if c != unit:
        if op == "mul" and len(rest) == 1 and rest[0].op == "add":
            return mk_ac("add", [mk_ac("mul", [num(c, sort), x], sort) for x in rest[0].args], sort)
        rest = [num(c, sort)] + rest
    if len(rest) == 1:
        return rest[0]
    if sort == "I":
        if op == "mul" and any(r.op == "add" for r in rest):
            # distribute integers fully: index arithmetic stays linear-normal
            acc = [()]
            for r in rest:
                alts = r.args if r.op == "add" else (r,)
                acc = [x + (y,) for x in acc for y in alts]
            return mk_ac("add", [mk_ac("mul", list(x), sort) for x in acc], sort)
        head = rest[:1] if rest[0].op == "num" else []
        tail = rest[len(head):]
        tail.sort(key=lambda t: t.id)
        rest = head + tail
    return mk(op, tuple(rest), sort)


_AC = {}


def ac(t):
    """the same term with the operands of sums and products in one order"""
    r = _AC.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        u = st[-1]
        if u in _AC:
            st.pop()
            continue
        kids = [x for x in u.args if isinstance(x, T)]
        todo = [x for x in kids if x not in _AC]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        if not kids:
            _AC[u] = u
            continue
        na = tuple(_AC[x] if isinstance(x, T) else x for x in u.args)
        if u.op in ("add", "mul"):
            na = tuple(sorted(na, key=lambda x: (x.op != "num", x.id)))
        elif u.op == "eq" and na[0].id > na[1].id:
            na = (na[1], na[0])
        _AC[u] = u if na == u.args else (ite(*na) if u.op == "ite" else mk(u.op, na, u.sort))
    return _AC[t]


def add(*xs):
    s = "I" if all(x.sort != "R" for x in xs) else "R"
    xs = [to_real(x) if s == "R" else to_int(x) for x in xs]
    return mk_ac("add", xs, s)


def mul(*xs):
    s = "I" if all(x.sort != "R" for x in xs) else "R"
    xs = [to_real(x) if s == "R" else to_int(x) for x in xs]
    if s == "R" and len(xs) > 1:
        # a factor that is zero in one case: ite(c, 0, y) * z = ite(c, 0, y * z)
        for k, x in enumerate(xs):
            if x.op == "ite" and any(a.op == "num" and a.args[0] == 0 for a in x.args[1:]):
                rest = xs[:k] + xs[k + 1:]
                if x.args[1].op == "num" and x.args[1].args[0] == 0:
                    return ite(x.args[0], x.args[1], mul(x.args[2], *rest))
                return ite(x.args[0], mul(x.args[1], *rest), x.args[2])
    return mk_ac("mul", xs, s)


def neg(a):
    return mul(num(-1, "I" if a.sort != "R" else "R"), a)


def sub(a, b):
    if a is b:
        return num(0, a.sort if a.sort != "B" else "I")
    return add(a, neg(b))


def div(a, b):
    a, b = to_real(a), to_real(b)
    if b.op == "num" and b.args[0] != 0:
        return mul(num(1 / b.args[0]), a)
    if a.op == "num" and a.args[0] == 0 and False:
        return ZERO
    return mk("div", (a, b), "R")


def power(a, n):
    """real power with python-number exponent"""
    if isinstance(n, T):
        if n.op == "num":
            n = n.args[0]
        else:
            return mk("rpow", (to_real(a), to_real(n)), "R")
    n = Fraction(n) if not isinstance(n, float) else Fraction(repr(n))
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return num(1, a.sort if a.sort != "B" else "I")
        if n > 0 and n <= 12:
            return mul(*([a] * n))
        if n < 0 and n >= -12:
            return div(ONE, mul(*([to_real(a)] * (-n))))
    if n == Fraction(1, 2):
        return sqrt(a)
    if n == Fraction(-1, 2):
        return div(ONE, sqrt(a))
    if n.denominator == 2:
        k = (n - Fraction(1, 2))
        return mul(power(a, k), sqrt(a))
    return mk("rpow", (to_real(a), num(n)), "R")


def _u(op):
    def f(a):
        a = to_real(a)
        if a.op == "ite" and False:
            return a
        return mk(op, (a,), "R")
    return f


def _isqrt_frac(q):
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Fraction(a, b)
    return None


def sqrt(a):
    a = to_real(a)
    if a.op == "num":
        r = _isqrt_frac(a.args[0])
        if r is not None:
            return num(r)
    if a.op == "mul" and len(a.args) == 2 and a.args[0] is a.args[1]:
        return absv(a.args[0])
    if a.op == "ite":
        return ite(a.args[0], sqrt(a.args[1]), sqrt(a.args[2]))
    return mk("sqrt", (a,), "R")


def exp(a):
    a = to_real(a)
    if a.op == "num" and a.args[0] == 0:
        return ONE
    return mk("exp", (a,), "R")


def log(a):
    a = to_real(a)
    if a.op == "num" and a.args[0] == 1:
        return ZERO
    if a.op == "exp":
        return a.args[0]
    return mk("log", (a,), "R")


def sin(a):
    a = to_real(a)
    if a.op == "num" and a.args[0] == 0:
        return ZERO
    return mk("sin", (a,), "R")


def cos(a):
    a = to_real(a)
    if a.op == "num" and a.args[0] == 0:
        return ONE
    return mk("cos", (a,), "R")


def tan(a):
    a = to_real(a)
    return div(sin(a), cos(a))


def acos(a):
    a = to_real(a)
    if a.op == "num":
        q = a.args[0]
        if q == 1:
            return ZERO
        if q == -1:
            return PI
        if q == 0:
            return mul(num(Fraction(1, 2)), PI)
    return mk("acos", (a,), "R")


def asin(a):
    a = to_real(a)
    if a.op == "num" and a.args[0] == 0:
        return ZERO
    return mk("asin", (a,), "R")


def atan2(y, x):
    return mk("atan2", (to_real(y), to_real(x)), "R")


def absv(a):
    if a.op == "num":
        return num(abs(a.args[0]), a.sort)
    if a.op in ("sqrt", "exp"):
        return a
    return ite(le(num(0, a.sort), a), a, neg(a))


def tmin(a, b):
    a, b = unify(a, b)
    if a is b:
        return a
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b = unify(a, b)
    if a is b:
        return a
    return ite(le(b, a), a, b)


def idiv(a, b):
    """floor division of integers"""
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0], "I")
    if b.op == "num" and b.args[0] == 1:
        return a
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0], "I")
    if b.op == "num" and b.args[0] == 1:
        return num(0, "I")
    return mk("imod", (a, b), "I")


# ------------------------------------------------------------------- boolean
# ranges lo <= v < hi of every element of an integer input array
RANGE = {}


def _rng(t):
    return RANGE.get(t.args[0]) if t.sort == "I" and t.op in ("app", "var") else None


def range_facts(ts):
    """the ranges of the input elements that occur in ts"""
    out = []
    if RANGE:
        seen = set()
        for t in ts:
            for x in subterms(t):
                if x.id not in seen and x.op in ("app", "var") and x.sort == "I" and x.args[0] in RANGE and not levels(x):
                    seen.add(x.id)
                    lo, hi = RANGE[x.args[0]]
                    out.append(mk("not", (mk("lt", (x, lo), "B"),), "B"))
                    out.append(mk("lt", (x, hi), "B"))
    return out


def lt(a, b):
    a, b = unify(a, b)
    if a is b:
        return FALSE
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] < b.args[0] else FALSE
    if RANGE:
        r = _rng(a)
        if r is not None:
            if b is r[1]:
                return TRUE
            if b.op == "num" and r[0].op == "num":
                if b.args[0] <= r[0].args[0]:
                    return FALSE
                if b.args[0] == r[0].args[0] + 1:
                    return eq(a, r[0])
            if b.op == "num" and r[1].op == "num" and r[1].args[0] <= b.args[0]:
                return TRUE
        r = _rng(b)
        if r is not None and a.op == "num" and r[0].op == "num":
            if a.args[0] < r[0].args[0]:
                return TRUE
            if a.args[0] == r[0].args[0]:
                return not_(eq(b, r[0]))
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return TRUE if a.args[0] < b.args[0] else FALSE
        if a.op == "inf":
            return TRUE if a.args[0] < 0 else FALSE
        return TRUE if b.args[0] > 0 else FALSE
    if a.op == "ite" and b.op == "num" and a.args[1].op == "num" and a.args[2].op == "num":
        return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if b.op == "ite" and a.op == "num" and b.args[1].op == "num" and b.args[2].op == "num":
        return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if a.sort == "I":
        d = sub(b, a)
        if d.op == "num":
            return TRUE if d.args[0] > 0 else FALSE
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = unify(a, b)
    if a is b:
        return TRUE
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return TRUE if a.args[0] <= b.args[0] else FALSE
        if a.op == "inf":
            return TRUE if a.args[0] < 0 else FALSE
        return TRUE if b.args[0] > 0 else FALSE
    return not_(lt(b, a))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    a, b = unify(a, b)
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op == "inf" or b.op == "inf":
        return TRUE if (a.op == b.op and a.args == b.args) else FALSE
    if a.op == "ite" and b.op == "num" and a.args[1].op == "num" and a.args[2].op == "num":
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and a.op == "num" and b.args[1].op == "num" and b.args[2].op == "num":
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.sort == "I":
        d = sub(a, b)
        if d.op == "num":
            return TRUE if d.args[0] == 0 else FALSE
        if RANGE:
            for x, y in ((a, b), (b, a)):
                r = _rng(x)
                if r is not None and y.op == "num" and ((r[0].op == "num" and y.args[0] < r[0].args[0]) or
                                                        (r[1].op == "num" and y.args[0] >= r[1].args[0])):
                    return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def ne(a, b):
    return not_(eq(a, b))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y.id in seen:
                continue
            seen.add(y.id)
            out.append(y)
    for y in out:
        if y.op == "not" and y.args[0].id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return ite(a, b, not_(b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return a
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(or_(not_(c), a), or_(c, b))
    a, b = unify(a, b)
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "lt" and a.sort != "B":
        # one form for min and max
        x, y = c.args
        if (a is x and b is y) or (a is y and b is x):
            if x.op == "num" or (y.op != "num" and y.id < x.id):
                return mk("ite", (mk("lt", (y, x), "B"), b, a), a.sort)
    return mk("ite", (c, a, b), a.sort)


# ------------------------------------------------------------------- binders
BINDERS = frozenset(("sum", "prod", "bmax", "bmin", "bargmax", "bargmin", "ball"))


def depth(t, memo=None):
    """max binder nesting inside t"""
    if memo is None:
        memo = _DEPTH
    d = memo.get(t.id)
    if d is None:
        d = 0
        for a in t.args:
            if isinstance(a, T):
                d = max(d, depth(a, memo))
        if t.op in BINDERS:
            d += 1
        memo[t.id] = d
    return d


_DEPTH = {}


_BD = {}


def levels(t):
    """names of binder-level variables occurring free in t"""
    r = _BD.get(t.id)
    if r is None:
        if t.op == "var":
            r = frozenset([t.args[0]]) if t.args[0].startswith("#") else frozenset()
        else:
            r = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    r |= levels(a)
            if t.op in BINDERS:
                r = (levels(t.args[3]) - {t.args[0].args[0]}) | levels(t.args[1]) | levels(t.args[2])
        _BD[t.id] = r
    return r


def has_level(t, k):
    return k.args[0] in levels(t)


def binder(op, lo, hi, f, sort=None):
    """sum/prod over lo <= k < hi of f(k); f is a python function of a T."""
    k = fresh("bv", "I")
    body = f(k)
    return close_binder(op, k, lo, hi, body)


def close_binder(op, k, lo, hi, body):
    if lo.op == "num" and hi.op == "num" and hi.args[0] - lo.args[0] <= 8:
        xs = [subst(body, {k: num(i, "I")}) for i in range(int(lo.args[0]), int(hi.args[0]))]
        if op in ("sum", "prod"):
            z = num(0 if op == "sum" else 1, body.sort)
            if not xs:
                return z
            return add(*xs) if op == "sum" else mul(*xs)
        if op == "ball":
            return and_(*xs) if xs else TRUE
        if xs:
            v, j = xs[0], num(lo.args[0], "I")
            for n, x in enumerate(xs[1:], int(lo.args[0]) + 1):
                c = lt(v, x) if op in ("bmax", "bargmax") else lt(x, v)
                v, j = ite(c, x, v), ite(c, num(n, "I"), j)
            return j if "arg" in op else v
    if op == "sum" and body.op == "num" and body.args[0] == 0:
        return body
    if op == "prod" and body.op == "num" and body.args[0] == 1:
        return body
    if op == "ball" and body in (TRUE, FALSE):
        return or_(le(hi, lo), body)
    if op in ("bmax", "bmin") and k.args[0] not in [v.args[0] for v in free_vars(body)]:
        return body
    d = depth(body)
    lv = levels(body)
    while f"#{d}" in lv:       # never capture an enclosing binder's variable
        d += 1
    b = var(f"#{d}", "I")
    if b is not k:
        body = subst(body, {k: b})
    return mk(op, (b, lo, hi, body), "I" if "arg" in op else body.sort)


def open_binder(t):
    """-> (fresh var, lo, hi, body)"""
    b, lo, hi, body = t.args
    k = fresh("bv", "I")
    return k, lo, hi, subst(body, {b: k})


REBUILD = {}


def rebuild(op, args, t):
    if op == "add":
        return mk_ac("add", list(args), t.sort)
    if op == "mul":
        return mk_ac("mul", list(args), t.sort)
    f = REBUILD.get(op)
    if f:
        return f(*args)
    if op in BINDERS:
        return mk(op, args, t.sort)
    return mk(op, args, t.sort)


REBUILD.update(dict(div=div, sqrt=sqrt, exp=exp, log=log, sin=sin, cos=cos, acos=acos,
                    asin=asin, atan2=atan2, lt=lt, eq=eq, ite=ite, idiv=idiv, imod=imod,
                    floor=floor, i2r=to_real))
REBUILD["not"] = not_
REBUILD["and"] = and_


def subst(t, m, memo=None):
    """capture is impossible: binder variables are level-named and only
    substituted through open_binder/close_binder."""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op in ("num", "var", "true", "false", "pi", "inf"):
        return t
    if t.op in BINDERS:
        b, lo, hi, body = t.args
        lo2, hi2 = subst(lo, m, memo), subst(hi, m, memo)
        if b in m:
            m2 = {k: v for k, v in m.items() if k is not b}
            body2 = subst(body, m2)
        else:
            # rename if a replacement mentions the level variable
            k = fresh("bv", "I")
            body2 = subst(subst(body, {b: k}), m)
            r = close_binder(t.op, k, lo2, hi2, body2)
            memo[t.id] = r
            return r
        k = fresh("bv", "I")
        r = close_binder(t.op, k, lo2, hi2, subst(body2, {b: k}))
        memo[t.id] = r
        return r
    new = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
    if new == t.args:
        r = t
    else:
        r = rebuild(t.op, new, t)
    memo[t.id] = r
    return r


def free_vars(t, memo=None):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "var":
            out.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return out


_CONT = {}


def contains(t, x):
    key = (t.id, x.id)
    r = _CONT.get(key)
    if r is None:
        if t is x:
            r = True
        else:
            r = any(contains(a, x) for a in t.args if isinstance(a, T))
        _CONT[key] = r
    return r


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


# -------------------------------------------------------------------- show
def show(t, d=0):
    if d > 25:
        return "…"
    s = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    o, a = t.op, t.args
    if o == "num":
        return str(a[0])
    if o == "var":
        return a[0]
    if o in ("true", "false", "pi"):
        return o
    if o == "inf":
        return "inf" if a[0] > 0 else "-inf"
    if o == "app":
        return f"{a[0]}[{','.join(s(x) for x in a[1:])}]"
    if o == "add":
        return "(" + " + ".join(s(x) for x in a) + ")"
    if o == "mul":
        return "(" + "*".join(s(x) for x in a) + ")"
    if o == "div":
        return f"({s(a[0])}/{s(a[1])})"
    if o == "lt":
        return f"({s(a[0])} < {s(a[1])})"
    if o == "eq":
        return f"({s(a[0])} = {s(a[1])})"
    if o == "not":
        return f"!{s(a[0])}"
    if o == "and":
        return "(" + " & ".join(s(x) for x in a) + ")"
    return f"{o}({', '.join(s(x) for x in a)})"


# ---------------------------------------------------------------- evaluation
class Undefined(Exception):
    pass


def evaluate(t, env, memo=None):
    """float evaluation; env: dict name->float/int/bool or callable(idx)->value"""
    if memo is None:
        memo = {}
    if t.id in memo:
        return memo[t.id]
    o, a = t.op, t.args
    ev = lambda x: evaluate(x, env, memo)
    if o == "num":
        r = int(a[0]) if t.sort == "I" else float(a[0])
    elif o == "var":
        r = env[a[0]]
    elif o == "pi":
        r = math.pi
    elif o == "inf":
        r = math.inf * a[0]
    elif o == "true":
        r = True
    elif o == "false":
        r = False
    elif o == "app":
        r = env[a[0]](*[int(ev(x)) for x in a[1:]])
    elif o == "add":
        r = sum(ev(x) for x in a)
    elif o == "mul":
        r = 1
        for x in a:
            r = r * ev(x)
    elif o == "div":
        d = ev(a[1])
        if d == 0:
            raise Undefined()
        r = ev(a[0]) / d
    elif o == "sqrt":
        v = ev(a[0])
        if v < 0:
            raise Undefined()
        r = math.sqrt(v)
    elif o == "exp":
        r = math.exp(min(ev(a[0]), 700))
    elif o == "log":
        v = ev(a[0])
        if v <= 0:
            raise Undefined()
        r = math.log(v)
    elif o == "sin":
        r = math.sin(ev(a[0]))
    elif o == "cos":
        r = math.cos(ev(a[0]))
    elif o == "acos":
        v = ev(a[0])
        if abs(v) > 1:
            if abs(v) < 1 + 1e-9:
                v = max(-1.0, min(1.0, v))
            else:
                raise Undefined()
        r = math.acos(v)
    elif o == "asin":
        v = ev(a[0])
        if abs(v) > 1:
            raise Undefined()
        r = math.asin(v)
    elif o == "atan2":
        r = math.atan2(ev(a[0]), ev(a[1]))
    elif o == "rpow":
        r = ev(a[0]) ** ev(a[1])
    elif o == "i2r":
        r = float(ev(a[0]))
    elif o == "floor":
        r = math.floor(ev(a[0]))
    elif o == "idiv":
        r = ev(a[0]) // ev(a[1])
    elif o == "imod":
        r = ev(a[0]) % ev(a[1])
    elif o == "lt":
        r = ev(a[0]) < ev(a[1])
    elif o == "eq":
        r = ev(a[0]) == ev(a[1])
    elif o == "not":
        r = not ev(a[0])
    elif o == "and":
        r = all(ev(x) for x in a)
    elif o == "ite":
        r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif o in BINDERS:
        b, lo, hi, body = a
        lo, hi = ev(lo), ev(hi)
        vs = [evaluate(subst(body, {b: num(k, "I")}), env, {}) for k in range(lo, hi)]
        if o == "sum":
            r = sum(vs)
        elif o == "prod":
            r = math.prod(vs)
        elif o == "ball":
            r = all(vs)
        elif not vs:
            raise Undefined()
        else:
            m = max(vs) if o in ("bmax", "bargmax") else min(vs)
            r = lo + vs.index(m) if "arg" in o else m
    else:
        raise NotImplementedError(o)
    memo[t.id] = r
    return r
