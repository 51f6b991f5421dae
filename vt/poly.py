"""Sparse multivariate polynomials / rational functions with exact rational
coefficients.  A polynomial is a dict {monomial: coefficient}; a monomial is a
tuple of (atom id, exponent) sorted by atom id."""
from fractions import Fraction
import math

MAXTERMS = 60000


class TooBig(Exception):
    pass


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def pconst(c):
    return {(): _n(c)} if c != 0 else {}


def patom(i, e=1):
    return {((i, e),): 1}


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _n(v)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: _n(c * k) for m, c in a.items()}


def psub(a, b):
    return padd(a, pscale(b, -1))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > MAXTERMS * 20:
        raise TooBig()
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def ppow(a, n):
    r = {(): 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def is_const(a):
    return not a or (len(a) == 1 and () in a)


def cval(a):
    return a.get((), 0)


def atoms(a):
    return {i for m in a for i, _ in m}


def lead(a):
    """leading monomial in lex order on (highest atom id)"""
    return max(a, key=_mkey)


def _mkey(m):
    # graded lex with a fixed (multiplicative) order
    return (sum(e for _, e in m), tuple(sorted(((i, e) for i, e in m), reverse=True)))


def primitive(a):
    """-> (content with sign, primitive poly with positive leading coefficient)"""
    if not a:
        return 0, a
    den = 1
    for c in a.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in a.values():
        g = math.gcd(g, int(c * den))
    k = Fraction(g, den)
    if a[lead(a)] < 0:
        k = -k
    return _n(k), pscale(a, 1 / Fraction(k))


def key(a):
    return tuple(sorted(a.items()))


def mono_content(a):
    """gcd monomial of all terms"""
    it = iter(a)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for i in list(d):
            e = min(d[i], md.get(i, 0))
            if e:
                d[i] = e
            else:
                del d[i]
        if not d:
            return ()
    return tuple(sorted(d.items()))


def mdiv(m, d):
    """m / d or None"""
    md = dict(m)
    for i, e in d:
        v = md.get(i, 0) - e
        if v < 0:
            return None
        if v:
            md[i] = v
        else:
            md.pop(i, None)
    return tuple(sorted(md.items()))


def pdiv_mono(a, d):
    if not d:
        return a
    return {mdiv(m, d): c for m, c in a.items()}


def exact_div(a, b, limit=4000):
    """a / b if exact else None (graded-lex multivariate division)"""
    if not b:
        return None
    if is_const(b):
        return pscale(a, 1 / Fraction(cval(b)))
    lb = lead(b)
    cb = b[lb]
    q = {}
    r = dict(a)
    steps = 0
    while r:
        lr = lead(r)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = Fraction(r[lr]) / cb
        q[m] = _n(q.get(m, 0) + c)
        for mb, c2 in b.items():
            mm = mmul(m, mb)
            v = r.get(mm, 0) - c * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = _n(v)
        steps += 1
        if steps > limit:
            return None
    return q


class Rat:
    """num / prod(den[k]^e);   den: dict key -> (poly, exp); polys primitive"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    @staticmethod
    def const(c):
        return Rat(pconst(c))

    def is_const(self):
        return not self.den and is_const(self.num)

    def denpoly(self):
        r = {(): 1}
        for p, e in self.den.values():
            r = pmul(r, ppow(p, e))
        return r


def rscale(a, k):
    if k == 0:
        return Rat({})
    return Rat(pscale(a.num, k), a.den)


def radd(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if not a.den and not b.den:
        return Rat(padd(a.num, b.num))
    den = dict(a.den)
    fa, fb = {(): 1}, {(): 1}
    for k, (p, e) in b.den.items():
        e0 = den.get(k, (p, 0))[1]
        if e > e0:
            fa = pmul(fa, ppow(p, e - e0))
            den[k] = (p, e)
    for k, (p, e) in a.den.items():
        e1 = b.den.get(k, (p, 0))[1]
        if e > e1:
            fb = pmul(fb, ppow(p, e - e1))
    n = padd(pmul(a.num, fa), pmul(b.num, fb))
    if not n:
        return Rat({})
    return Rat(n, den)


def rmul(a, b):
    if not a.num or not b.num:
        return Rat({})
    n = pmul(a.num, b.num)
    if not a.den and not b.den:
        return Rat(n)
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, den.get(k, (p, 0))[1] + e)
    return cancel(Rat(n, den))


def cancel(r):
    if not r.den:
        return r
    n = r.num
    den = {}
    for k, (p, e) in r.den.items():
        while e > 0:
            if len(p) == 1:
                # monomial factor (single atom)
                (m,) = p
                if all(mdiv(x, m) is not None for x in n):
                    n = pdiv_mono(n, m)
                    e -= 1
                    continue
                break
            if len(n) > 400 or len(p) > 60:
                break
            if len(n) < len(p) and False:
                break
            q = exact_div(n, p)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            den[k] = (p, e)
    return Rat(n, den)


def rinv(a):
    """1/a  (a != 0 assumed)"""
    n = a.denpoly()
    c, p = primitive(a.num)
    if c == 0:
        raise ZeroDivisionError
    den = {}
    mc = mono_content(p)
    if mc:
        p = pdiv_mono(p, mc)
        for i, e in mc:
            q = patom(i)
            den[key(q)] = (q, e)
    if not is_const(p):
        den[key(p)] = (p, 1)
    else:
        c = c * cval(p)
    return cancel(Rat(pscale(n, 1 / Fraction(c)), den))
