"""Rational-function normal forms of terms, modulo  sqrt(p)^2 = p,
sin^2+cos^2 = 1, addition formulas, exp(a+b)=exp(a)exp(b), linearity of sums,
idempotent indicators, and inverse-function identities."""
from fractions import Fraction
import math
from . import term as tm
from .term import T
from .poly import *
from . import poly as P


class NF:
    """oracle: object with entails(bool term)->bool (sound, incomplete)"""

    def __init__(self, oracle=None, roots=()):
        self.o = oracle
        self.memo = {}
        self.wants = []           # conditions worth splitting on
        self.units = {}           # angle monomial -> lcm of denominators
        self.red = {}             # atom id -> T  (linear substitutions from hyps)
        self.ids = {}             # id -> T
        self.sq = {}              # sqrt atom id -> radicand poly
        self.sinof = {}           # sin atom id -> cos atom id
        self.divs = []            # denominators met (for definedness)
        self.idem = set()
        if roots:
            self.prescan(roots)

    # ---------------------------------------------------------------- utils
    def ent(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        return self.o is not None and self.o.entails(c)

    def want(self, c):
        if c not in (tm.TRUE, tm.FALSE) and c not in self.wants and len(self.wants) < 8:
            self.wants.append(c)

    def atom(self, t):
        self.ids[t.id] = t
        r = self.red.get(t.id)
        if r is not None:
            return r
        return Rat(patom(t.id))

    def prescan(self, roots):
        seen = set()

        def rec(t):
            if t.id in seen:
                return
            seen.add(t.id)
            for a in t.args:
                if isinstance(a, T):
                    rec(a)
            if t.op in ("sin", "cos", "exp"):
                try:
                    r = self.nf(t.args[0])
                except (TooBig, ZeroDivisionError):
                    return
                if not r.den:
                    for m, c in r.num.items():
                        f = Fraction(c)
                        k = ("e" if t.op == "exp" else "t", m)
                        self.units[k] = self.units.get(k, 1) * f.denominator // math.gcd(
                            self.units.get(k, 1), f.denominator)
        # two passes: units found late change nested normal forms
        for r in roots:
            rec(r)
        u = dict(self.units)
        if any(v != 1 for v in u.values()):
            self.memo.clear()

    # ----------------------------------------------------- reduce relations
    def reduce(self, p):
        """apply s^2 -> radicand, sin^2 -> 1-cos^2, I^2 -> I to a polynomial"""
        if not any(e >= 2 and (i in self.sq or i in self.sinof or i in self.idem) for m in p for i, e in m):
            return p
        out = {}
        todo = [(m, c) for m, c in p.items()]
        n = 0
        while todo:
            m, c = todo.pop()
            n += 1
            if n > 400000:
                raise TooBig()
            hit = None
            for i, e in m:
                if e >= 2 and (i in self.sq or i in self.sinof or i in self.idem):
                    hit = (i, e)
                    break
            if hit is None:
                v = out.get(m, 0) + c
                if v == 0:
                    out.pop(m, None)
                else:
                    out[m] = P._n(v)
                continue
            i, e = hit
            if i in self.idem:
                rest = tuple((a, 1 if a == i else b) for a, b in m)
                todo.append((rest, c))
                continue
            rest = tuple((a, b) if a != i else (a, b - 2) for a, b in m)
            rest = tuple(x for x in rest if x[1] > 0)
            if i in self.sq:
                for m2, c2 in self.sq[i].items():
                    todo.append((mmul(rest, m2), c * c2))
            else:
                ci = self.sinof[i]
                todo.append((rest, c))
                todo.append((mmul(rest, ((ci, 2),)), -c))
        return out

    def rred(self, r):
        n = self.reduce(r.num)
        if n is r.num:
            return r
        return cancel(Rat(n, r.den))

    def mul(self, a, b):
        return self.rred(rmul(a, b))

    def inv(self, a):
        r = rinv(a)
        # rationalise sqrt denominators:  1/s = s/p
        if len(r.den) == 1 and r.num:
            pass
        for k, (p, e) in list(r.den.items()):
            if len(p) == 1:
                ((m, c),) = p.items()
                if len(m) == 1 and m[0][0] in self.sq:
                    i = m[0][0]
                    rad = self.sq[i]
                    den = dict(r.den)
                    del den[k]
                    base = Rat(r.num, den)
                    if e % 2:
                        base = Rat(pmul(base.num, patom(i)), base.den)
                        e += 1
                    ri = rinv(Rat(rad))
                    for _ in range(e // 2):
                        base = rmul(base, ri)
                    r = self.rred(base)
        return r

    def to_term(self, r):
        n = self.poly_term(r.num)
        if not r.den:
            return n
        ds = []
        for k in sorted(r.den):
            p, e = r.den[k]
            ds += [self.poly_term(p)] * e
        return tm.div(n, tm.mul(*ds) if len(ds) > 1 else ds[0])

    def poly_term(self, p):
        xs = []
        for m in sorted(p, key=P._mkey):
            fs = [tm.num(p[m])]
            for i, e in m:
                fs += [self.ids[i]] * e
            xs.append(tm.mk_ac("mul", fs, "R") if len(fs) > 1 else fs[0])
        if not xs:
            return tm.ZERO
        return tm.mk_ac("add", xs, "R") if len(xs) > 1 else xs[0]

    def canon(self, t):
        return self.to_term(self.nf(t))

    # --------------------------------------------------------------- nf
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._nf(t)
            self.memo[t.id] = r
        return r

    def _nf(self, t):
        o, a = t.op, t.args
        if o == "num":
            return Rat.const(a[0])
        if t.sort == "I":
            return self.int_nf(t)
        if o == "add":
            # balanced accumulation keeps the common denominators small
            r = Rat({})
            groups = {}
            for x in a:
                y = self.nf(x)
                k = tuple(sorted((kk, e) for kk, (p, e) in y.den.items()))
                if k in groups:
                    groups[k] = Rat(padd(groups[k].num, y.num), y.den)
                else:
                    groups[k] = y
            for y in groups.values():
                r = radd(r, y)
            return cancel(r) if len(groups) > 1 else r
        if o == "mul":
            r = None
            for x in a:
                y = self.nf(x)
                r = y if r is None else self.mul(r, y)
            return r
        if o == "div":
            d = self.nf(a[1])
            if not d.num:
                return self.atom(tm.mk("div", (self.canon(a[0]), tm.ZERO), "R"))
            if self.o is not None and not d.is_const():
                pass
            return self.mul(self.nf(a[0]), self.inv(d))
        if o == "i2r":
            return self.nf(a[0])
        if o == "sqrt":
            return self.sqrt_nf(self.nf(a[0]))
        if o in ("sin", "cos"):
            return self.trig_nf(o, self.nf(a[0]))
        if o == "exp":
            return self.exp_nf(self.nf(a[0]))
        if o == "log":
            r = self.nf(a[0])
            if r.is_const() and cval(r.num) == 1:
                return Rat({})
            return self.atom(tm.mk("log", (self.to_term(r),), "R"))
        if o in ("acos", "asin"):
            return self.ainv_nf(o, self.nf(a[0]))
        if o == "atan2":
            return self.atan2_nf(self.nf(a[0]), self.nf(a[1]))
        if o == "ite":
            return self.ite_nf(t)
        if o == "sum":
            return self.sum_nf(t)
        if o in ("prod", "bmax", "bmin"):
            return self.prod_nf(t)
        if o == "rpow":
            return self.atom(tm.mk("rpow", (self.canon(a[0]), self.canon(a[1])), "R"))
        if o == "app":
            return self.atom(self.canon_idx(t))
        return self.atom(t)

    def canon_idx(self, t):
        return t

    def int_nf(self, t):
        o, a = t.op, t.args
        if o == "add":
            r = Rat({})
            for x in a:
                r = radd(r, self.nf(x))
            return r
        if o == "mul":
            r = Rat.const(1)
            for x in a:
                r = self.mul(r, self.nf(x))
            return r
        if o == "ite":
            return self.ite_nf(t)
        if o == "sum":
            return self.sum_nf(t)
        return self.atom(t)

    def ite_nf(self, t):
        c, x, y = t.args
        if self.ent(c):
            return self.nf(x)
        if self.ent(tm.not_(c)):
            return self.nf(y)
        self.want(c)
        # opaque, but with normalised branches
        if t.sort == "I":
            return self.atom(t)
        rx, ry = self.nf(x), self.nf(y)
        d = radd(rx, rscale(ry, -1))
        if not self.rred(d).num:
            return rx
        return self.atom(tm.mk("ite", (c, self.to_term(rx), self.to_term(ry)), "R"))

    # -------------------------------------------------------------- sqrt
    def sign(self, t):
        """+1 if provably >=0, -1 if provably <=0, else None"""
        if t.op == "num":
            return 1 if t.args[0] >= 0 else -1
        if t.op in ("sqrt", "exp"):
            return 1
        if self.ent(tm.le(tm.ZERO, t)):
            return 1
        if self.ent(tm.le(t, tm.ZERO)):
            return -1
        return None

    def abs_rat(self, r, t=None):
        t = t if t is not None else self.to_term(r)
        s = self.sign(t)
        if s == 1:
            return r
        if s == -1:
            return rscale(r, -1)
        self.want(tm.le(tm.ZERO, t))
        return self.atom(tm.absv(t))

    def sqrt_nf(self, r):
        if not r.num:
            return Rat({})
        # sqrt(n/d) = sqrt(n*d)/|d|
        out = Rat.const(1)
        n = r.num
        for k in sorted(r.den):
            p, e = r.den[k]
            if e % 2:
                n = self.reduce(pmul(n, p))
                e += 1
            a = self.abs_rat(Rat(p))
            for _ in range(e // 2):
                out = self.mul(out, self.inv(a))
        c, p = primitive(n)
        if c < 0:
            c, p = -c, pscale(p, -1)
        c = Fraction(c)
        # content
        num, den = c.numerator, c.denominator
        q = num * den  # sqrt(c) = sqrt(num*den)/den
        sqf, rest = 1, q
        k = 2
        while k * k <= rest and k < 2000:
            while rest % (k * k) == 0:
                rest //= k * k
                sqf *= k
            k += 1
        out = rscale(out, Fraction(sqf, den))
        # monomial content
        mc = mono_content(p)
        inner = {(): 1}
        if mc:
            p = pdiv_mono(p, mc)
            for i, e in mc:
                if e >= 2:
                    a = self.abs_rat(self.atom(self.ids[i]), self.ids[i])
                    for _ in range(e // 2):
                        out = self.mul(out, a)
                if e % 2:
                    inner = pmul(inner, patom(i))
        # polynomial square-free split
        if not is_const(p):
            facs = self.sqf(p)
            rem = {(): 1}
            for f, e in facs:
                if e >= 2:
                    a = self.abs_rat(Rat(f))
                    for _ in range(e // 2):
                        out = self.mul(out, a)
                if e % 2:
                    rem = pmul(rem, f)
            p = rem
        else:
            rest = rest * cval(p)
            p = {(): 1}
        p = pmul(pscale(p, rest), inner)
        if is_const(p) and cval(p) == 1:
            return out
        # split into provably nonnegative odd factors so that products of roots agree
        parts = [p]
        if inner != {(): 1} and not is_const(inner):
            cand = []
            ok = True
            left = pscale(p, 1)
            for (m,) in [tuple(inner)]:
                for i, e in m:
                    if self.sign(self.ids[i]) == 1:
                        cand.append(patom(i))
                        left = pdiv_mono(left, ((i, 1),))
            parts = cand + ([left] if not (is_const(left) and cval(left) == 1) else [])
        for q in parts:
            if is_const(q):
                # constant radicand
                t = tm.mk("sqrt", (tm.num(cval(q)),), "R")
            else:
                t = tm.mk("sqrt", (self.poly_term(q),), "R")
            self.ids[t.id] = t
            if t.id not in self.sq:
                self.sq[t.id] = q
            out = self.mul(out, Rat(patom(t.id)))
        return out

    def sqf(self, p):
        """square-free factorisation via sympy (cached); returns [(poly, e)]
        with the product equal to p up to a positive square constant folded in"""
        k = key(p)
        r = _SQF.get(k)
        if r is not None:
            return r
        r = [(p, 1)]
        if len(p) <= 120 and all(len(m) for m in p if m) and max(sum(e for _, e in m) for m in p) >= 2:
            try:
                r = _sympy_factor(p)
            except Exception:
                r = [(p, 1)]
        _SQF[k] = r
        return r

    # -------------------------------------------------------------- trig
    def trig_nf(self, o, r):
        if not r.num:
            return Rat.const(0 if o == "sin" else 1)
        if r.den:
            # unit: whole thing, sign-normalised
            c, p = primitive(r.num)
            base = self.to_term(Rat(p, r.den))
            if Fraction(c).denominator == 1 and abs(c) <= 8:
                return self.multi(o, [(base, int(c))])
            base = self.to_term(Rat(pscale(p, abs(c)), r.den))
            return self.multi(o, [(base, 1 if c > 0 else -1)])
        parts = []
        phase = Fraction(0)
        pim = ((tm.PI.id, 1),)
        for m, c in sorted(r.num.items(), key=lambda x: P._mkey(x[0])):
            c = Fraction(c)
            if m == pim:
                # take out multiples of pi/2
                q = c * 2
                k = q.numerator // q.denominator if q.denominator != 1 else q.numerator
                phase += k
                c = c - Fraction(k, 2)
                if c == 0:
                    continue
                if c == Fraction(1, 4):
                    parts.append(("pi4", 1))
                    continue
                D = 1
                t = self.poly_term({m: c})
                parts.append((t, 1))
                continue
            D = self.units.get(("t", m), c.denominator)
            if D % c.denominator:
                D = c.denominator
            n = c * D
            if abs(n) > 12:
                t = self.poly_term({m: abs(c)})
                parts.append((t, 1 if c > 0 else -1))
            else:
                t = self.poly_term({m: Fraction(1, D)})
                parts.append((t, int(n)))
        k = int(phase) % 4
        # sin(x + k pi/2)
        s, c = self.sc(parts)
        seq = [(s, c), (c, rscale(s, -1)), (rscale(s, -1), rscale(c, -1)), (rscale(c, -1), s)]
        s2, c2 = seq[k]
        return s2 if o == "sin" else c2

    def multi(self, o, parts):
        s, c = self.sc(parts)
        return s if o == "sin" else c

    def sc(self, parts):
        S, C = Rat({}), Rat.const(1)
        for t, n in parts:
            if t == "pi4":
                h = self.nf(tm.mul(tm.num(Fraction(1, 2)), tm.sqrt(tm.num(2))))
                s, c = h, h
            else:
                s1, c1 = self.sincos_atom(t)
                s, c = Rat({}), Rat.const(1)
                for _ in range(abs(n)):
                    s, c = (radd(self.mul(s, c1), self.mul(c, s1)),
                            radd(self.mul(c, c1), rscale(self.mul(s, s1), -1)))
                if n < 0:
                    s = rscale(s, -1)
            S, C = (radd(self.mul(S, c), self.mul(C, s)),
                    radd(self.mul(C, c), rscale(self.mul(S, s), -1)))
        return S, C

    def sincos_atom(self, t):
        """sin, cos of a unit angle term"""
        neg = False
        one = tm.ONE
        if t.op == "acos":
            x = self.nf(t.args[0])
            self.defined_unit(t.args[0])
            s = self.sqrt_nf(radd(Rat.const(1), rscale(self.mul(x, x), -1)))
            return s, x
        if t.op == "asin":
            x = self.nf(t.args[0])
            c = self.sqrt_nf(radd(Rat.const(1), rscale(self.mul(x, x), -1)))
            return x, c
        if t.op == "atan2":
            y, x = self.nf(t.args[0]), self.nf(t.args[1])
            h2 = radd(self.mul(x, x), self.mul(y, y))
            h2 = self.rred(h2)
            ht = self.to_term(h2)
            if self.ent(tm.lt(tm.ZERO, ht)):
                h = self.inv(self.sqrt_nf(h2))
                return self.mul(y, h), self.mul(x, h)
            self.want(tm.eq(ht, tm.ZERO))
        if t.op == "mul" and len(t.args) == 2 and t.args[0].op == "num" and \
                t.args[0].args[0] == Fraction(1, 2) and t.args[1].op in ("acos", "atan2"):
            s1, c1 = self.sincos_atom(t.args[1])
            half = lambda r: rscale(r, Fraction(1, 2))
            c = self.sqrt_nf(half(radd(Rat.const(1), c1)))
            if t.args[1].op == "acos":
                s = self.sqrt_nf(half(radd(Rat.const(1), rscale(c1, -1))))
                return s, c
        s = tm.mk("sin", (t,), "R")
        c = tm.mk("cos", (t,), "R")
        self.ids[s.id] = s
        self.ids[c.id] = c
        rs, rc = self.atom(s), self.atom(c)
        if s.id not in self.red and c.id not in self.red:
            self.sinof[s.id] = c.id
        return rs, rc

    def defined_unit(self, x):
        pass

    def exp_nf(self, r):
        if not r.num:
            return Rat.const(1)
        if r.den:
            c, p = primitive(r.num)
            t = tm.mk("exp", (self.to_term(Rat(pscale(p, abs(c)), r.den)),), "R")
            a = self.atom(t)
            return a if c > 0 else self.inv(a)
        out = Rat.const(1)
        for m, c in r.num.items():
            c = Fraction(c)
            D = self.units.get(("e", m), c.denominator)
            if D % c.denominator:
                D = c.denominator
            n = c * D
            if m == ():
                t = tm.mk("exp", (tm.num(Fraction(1, D)),), "R")
            elif len(m) == 1 and m[0][1] == 1 and self.ids[m[0][0]].op == "log" and D == 1:
                t = self.ids[m[0][0]].args[0]
                a = self.nf(t)
                for _ in range(int(abs(n))):
                    out = self.mul(out, a if n > 0 else self.inv(a))
                continue
            else:
                t = tm.mk("exp", (self.poly_term({m: Fraction(1, D)}),), "R")
            if abs(n) > 40:
                t = tm.mk("exp", (self.poly_term({m: abs(c)}),), "R")
                n = 1 if c > 0 else -1
            a = self.atom(t)
            for _ in range(int(abs(n))):
                out = self.mul(out, a if n > 0 else self.inv(a))
        return out

    def ainv_nf(self, o, r):
        t = self.to_term(r)
        if r.is_const():
            return self.nf1(tm.acos(t) if o == "acos" else tm.asin(t))
        # acos(cos u) with 0<=u<=pi ; asin(sin u) with |u|<=pi/2
        if not r.den and len(r.num) == 1:
            ((m, c),) = r.num.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                x = self.ids[m[0][0]]
                if o == "acos" and x.op == "cos":
                    u = x.args[0]
                    if self.ent(tm.and_(tm.le(tm.ZERO, u), tm.le(u, tm.PI))):
                        ru = self.nf(u)
                        return ru if c == 1 else radd(self.atom(tm.PI), rscale(ru, -1))
                    if self.ent(tm.and_(tm.le(tm.neg(tm.PI), u), tm.le(u, tm.ZERO))):
                        ru = rscale(self.nf(u), -1)
                        return ru if c == 1 else radd(self.atom(tm.PI), rscale(ru, -1))
                if o == "asin" and x.op == "sin":
                    u = x.args[0]
                    h = tm.mul(tm.num(Fraction(1, 2)), tm.PI)
                    if self.ent(tm.and_(tm.le(tm.neg(h), u), tm.le(u, h))):
                        return rscale(self.nf(u), c)
        # odd symmetry
        if not r.den:
            c, p = primitive(r.num)
            if c < 0:
                t2 = tm.mk(o, (self.poly_term(pscale(r.num, -1)),), "R")
                if o == "asin":
                    return rscale(self.atom(t2), -1)
                return radd(self.atom(tm.PI), rscale(self.atom(t2), -1))
        return self.atom(tm.mk(o, (t,), "R"))

    def nf1(self, t):
        if t.op in ("acos", "asin", "atan2"):
            return self.atom(t)
        return self.nf(t)

    def atan2_nf(self, y, x):
        # positive common factor removal: divide by a common denominator
        ty, tx = self.to_term(y), self.to_term(x)
        if not y.num:
            if self.ent(tm.lt(tm.ZERO, tx)):
                return Rat({})
            if self.ent(tm.lt(tx, tm.ZERO)):
                return self.atom(tm.PI)
        return self.atom(tm.mk("atan2", (ty, tx), "R"))

    # -------------------------------------------------------------- sums
    def indicator(self, c):
        """Rat for the 0/1 value of a boolean term"""
        if c is tm.TRUE:
            return Rat.const(1)
        if c is tm.FALSE:
            return Rat({})
        if self.ent(c):
            return Rat.const(1)
        if self.ent(tm.not_(c)):
            return Rat({})
        if c.op == "not":
            return radd(Rat.const(1), rscale(self.indicator(c.args[0]), -1))
        if c.op == "and":
            r = Rat.const(1)
            for x in c.args:
                r = self.mul(r, self.indicator(x))
            return r
        if c.op == "ite":
            i = self.indicator(c.args[0])
            a = self.indicator(c.args[1])
            b = self.indicator(c.args[2])
            return radd(self.mul(i, a), self.mul(radd(Rat.const(1), rscale(i, -1)), b))
        if c.op in ("lt", "eq") and c.args[0].sort in ("I", "R"):
            isint = c.args[0].sort == "I"
            d = radd(self.nf(c.args[1]), rscale(self.nf(c.args[0]), -1))
            if not d.den:
                if not d.num:
                    return Rat.const(0 if c.op == "lt" else 1)
                nonc = {m: v for m, v in d.num.items() if m != ()}
                if not nonc:
                    v = cval(d.num)
                    return Rat.const(1 if (c.op == "lt" and v > 0) else 0)
                k, _ = primitive(nonc)
                flip = k < 0
                p = pscale(d.num, Fraction(1) / abs(Fraction(k))) if not isint else d.num
                if c.op == "eq":
                    if flip:
                        p = pscale(p, -1)
                    t = tm.mk("eq", (tm.ZERO, self.poly_term(p)), "B")
                    return self.itom(t)
                if isint:
                    # p > 0  <=> p >= 1
                    if flip:
                        q = padd(pscale(p, -1), pconst(1))
                        t = tm.mk("lt", (tm.ZERO, self.poly_term(q)), "B")
                        return radd(Rat.const(1), rscale(self.itom(t), -1))
                    t = tm.mk("lt", (tm.ZERO, self.poly_term(p)), "B")
                    return self.itom(t)
                t = tm.mk("lt", (tm.ZERO, self.poly_term(p)), "B")
                return self.itom(t)
            t = tm.mk(c.op, (self.canon(c.args[0]), self.canon(c.args[1])), "B")
            return self.itom(t)
        return self.itom(c)

    def itom(self, c):
        t = tm.mk("ite", (c, tm.ONE, tm.ZERO), "R")
        self.ids[t.id] = t
        self.idem.add(t.id)
        return Rat(patom(t.id))

    def expand_ites(self, t, k):
        """rewrite ites depending on k into indicator arithmetic"""
        memo = {}

        def rec(x):
            if x.id in memo:
                return memo[x.id]
            if x.sort == "B" or not tm.has_level(x, k) or x.op in ("num", "var"):
                r = x
            elif x.op == "ite":
                r = tm.mk("ind", (x.args[0], rec(x.args[1]), rec(x.args[2])), "R")
            elif x.op in ("add", "mul", "div", "i2r"):
                r = tm.rebuild(x.op, tuple(rec(y) for y in x.args), x)
            else:
                r = x
            memo[x.id] = r
            return r
        return rec(t)

    def body_nf(self, body, k):
        """nf of a sum body where ites over k become indicators"""
        memo = {}

        def rec(x):
            if x.id in memo:
                return memo[x.id]
            if x.op == "ite" and x.sort != "B" and tm.has_level(x, k):
                c = x.args[0]
                i = self.indicator(c)
                a, b = rec(x.args[1]), rec(x.args[2])
                r = radd(self.mul(i, a), self.mul(radd(Rat.const(1), rscale(i, -1)), b))
                r = self.rred(r)
            elif x.op == "add":
                r = Rat({})
                for y in x.args:
                    r = radd(r, rec(y))
                r = cancel(r)
            elif x.op == "mul":
                r = Rat.const(1)
                for y in x.args:
                    r = self.mul(r, rec(y))
            elif x.op == "i2r":
                r = rec(x.args[0])
            elif x.op == "div":
                d = rec(x.args[1])
                r = self.mul(rec(x.args[0]), self.inv(d)) if d.num else self.nf(x)
            else:
                r = self.nf(x)
            memo[x.id] = r
            return r
        return rec(body)

    def sum_nf(self, t):
        k, lo, hi, body = t.args        # k is a level variable
        r = self.body_nf(body, k)
        if not r.num:
            return Rat({})
        kd = {}
        out_den = {}
        for kk, (p, e) in r.den.items():
            if any(tm.has_level(self.ids[i], k) for i in atoms(p)):
                kd[kk] = (p, e)
            else:
                out_den[kk] = (p, e)
        out = Rat({})
        for m, c in r.num.items():
            cm, vm = [], []
            for i, e in m:
                (vm if tm.has_level(self.ids[i], k) else cm).append((i, e))
            out = radd(out, self.mul(Rat({tuple(cm): c}), self.sum_atom(t, k, lo, hi, tuple(vm), kd)))
        if out_den:
            out = self.mul(out, Rat({(): 1}, out_den))
        return out

    def sum_atom(self, t, k, lo, hi, vm, kd):
        if not vm and not kd:
            # constant body
            n = tm.sub(hi, lo)
            if self.ent(tm.le(tm.num(0, "I"), n)):
                return self.nf(n)
            n = tm.ite(tm.le(lo, hi), n, tm.num(0, "I"))
            return self.nf(n)
        # one-hot collapse: factor [0 = k - e] with unit coefficient
        for i, e in vm:
            a = self.ids[i]
            if a.op == "ite" and a.args[0].op == "eq" and i in self.idem:
                c = a.args[0]
                p = self.nf(tm.sub(c.args[1], c.args[0])).num
                km = ((k.id, 1),)
                if p.get(km) in (1, -1) and not any(tm.has_level(self.ids[j], k) for m2 in p for j, _ in m2 if m2 != km):
                    rest = {m2: v for m2, v in p.items() if m2 != km}
                    e_p = pscale(rest, -p[km])
                    et = self.int_term(e_p)
                    if et is None:
                        continue
                    vm2 = tuple(x for x in vm if x[0] != i)
                    bt = self.poly_term({vm2: 1})
                    if kd:
                        bt = self.to_term(Rat({vm2: 1}, kd))
                    val = tm.subst(bt, {k: et})
                    inr = tm.and_(tm.le(lo, et), tm.lt(et, hi))
                    return self.mul(self.indicator(inr), self.nf(val))
        body = self.to_term(Rat({vm: 1}, kd)) if kd else self.poly_term({vm: 1})
        return self.atom(tm.close_binder("sum", k, self.icanon(lo), self.icanon(hi), body))

    def icanon(self, t):
        return t

    def int_term(self, p):
        xs = []
        for m, c in p.items():
            fs = [tm.num(c, "I")]
            if Fraction(c).denominator != 1:
                return None
            for i, e in m:
                a = self.ids[i]
                if a.sort != "I":
                    return None
                fs += [a] * e
            xs.append(tm.mul(*fs) if len(fs) > 1 else fs[0])
        return tm.add(*xs) if xs else tm.num(0, "I")

    def prod_nf(self, t):
        k, lo, hi, body = t.args
        r = self.body_nf(body, k)
        return self.atom(tm.close_binder(t.op, k, lo, hi, self.to_term(r)))


_SQF = {}


def _sympy_factor(p):
    import sympy
    from sympy.polys.rings import ring
    from sympy.polys.domains import QQ
    ats = sorted(atoms(p))
    R, *gens = ring([f"x{i}" for i in ats], QQ)
    pos = {a: i for i, a in enumerate(ats)}
    d = {}
    for m, c in p.items():
        ex = [0] * len(ats)
        for i, e in m:
            ex[pos[i]] = e
        c = Fraction(c)
        d[tuple(ex)] = QQ(c.numerator, c.denominator)
    f = R.from_dict(d)
    c, facs = f.sqf_list()
    c = Fraction(int(c.numerator), int(c.denominator))
    out = []
    for g, e in facs:
        q = {}
        for ex, cc in g.to_dict().items():
            m = tuple((ats[i], x) for i, x in enumerate(ex) if x)
            q[m] = P._n(Fraction(int(cc.numerator), int(cc.denominator)))
        k, q = primitive(q)
        c *= Fraction(k) ** e
        out.append((q, e))
    if c != 1:
        # fold constant into an odd factor (or a new one)
        s = tm._isqrt_frac(abs(c)) if c > 0 else None
        out.append(({(): P._n(c)}, 1))
        # multiply constant factor with first odd one
        odd = [i for i, (q, e) in enumerate(out[:-1]) if e % 2]
        if odd:
            q, e = out[odd[0]]
            out[odd[0]] = (pscale(q, c), e) if e == 1 else (q, e)
            if e == 1:
                out.pop()
    return out
