"""Translation of terms to z3 (and to SMT-LIB for cvc5)."""
import sys, time, math
_p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _p not in sys.path:
    sys.path.append(_p)
import z3
from . import term as tm
from .term import T

z3.set_param("memory_max_size", 6000)


class Tr:
    def __init__(self):
        self.memo = {}
        self.ax = {}       # term id -> list of z3 axioms
        self.ufs = {}
        self.opaque = {}
        self.names = {}

    def uf(self, name, n, sort):
        k = (name, n, sort)
        if k not in self.ufs:
            rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
            self.ufs[k] = z3.Function(name, *([z3.IntSort()] * n), rs)
        return self.ufs[k]

    def const(self, t, tag):
        n = f"{tag}!{t.id}"
        return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](n)

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._tr(t)
            self.memo[t.id] = r
        return r

    def _tr(self, t):
        o, a = t.op, t.args
        if o == "num":
            q = a[0]
            if t.sort == "I":
                return z3.IntVal(int(q))
            return z3.RealVal(f"{q.numerator}/{q.denominator}")
        if o == "var":
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](a[0])
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "pi":
            p = z3.Real("pi!")
            self.ax[t.id] = [p > z3.RealVal("3141592653589/1000000000000"),
                             p < z3.RealVal("3141592653590/1000000000000")]
            return p
        if o == "app":
            return self.const(t, a[0])
        if o == "add":
            return z3.Sum([self(x) for x in a]) if len(a) > 2 else self(a[0]) + self(a[1])
        if o == "mul":
            r = self(a[0])
            for x in a[1:]:
                r = r * self(x)
            return r
        if o == "div":
            n, d = self(a[0]), self(a[1])
            q = self.const(t, "div")
            self.ax[t.id] = [z3.Implies(d != 0, q * d == n)]
            return q
        if o == "i2r":
            return z3.ToReal(self(a[0]))
        if o == "floor":
            return z3.ToInt(self(a[0]))
        if o == "idiv":
            x, y = self(a[0]), self(a[1])
            if a[1].op == "num" and a[1].args[0] > 0:
                return x / y
            q = self.const(t, "idiv")
            self.ax[t.id] = [z3.Implies(y > 0, z3.And(q * y <= x, x < q * y + y))]
            return q
        if o == "imod":
            x, y = self(a[0]), self(a[1])
            if a[1].op == "num" and a[1].args[0] > 0:
                return x % y
            q = self(tm.idiv(a[0], a[1]))
            r = self.const(t, "imod")
            self.ax[t.id] = [z3.Implies(y > 0, z3.And(r == x - q * y, r >= 0, r < y))]
            return r
        if o == "lt":
            if a[0].op == "inf":
                return z3.BoolVal(a[0].args[0] < 0)
            if a[1].op == "inf":
                return z3.BoolVal(a[1].args[0] > 0)
            return self(a[0]) < self(a[1])
        if o == "eq":
            return self(a[0]) == self(a[1])
        if o == "not":
            return z3.Not(self(a[0]))
        if o == "and":
            return z3.And([self(x) for x in a])
        if o == "ite":
            return z3.If(self(a[0]), self(a[1]), self(a[2]))
        if o == "inf":
            return z3.Real("inf!" + ("p" if a[0] > 0 else "n"))
        c = self.const(t, o)
        self.memo[t.id] = c
        if o == "sqrt":
            x = self(a[0])
            self.ax[t.id] = [z3.Implies(x >= 0, z3.And(c >= 0, c * c == x))]
        elif o == "exp":
            self.ax[t.id] = [c > 0, z3.Implies(self(a[0]) <= 0, c <= 1), z3.Implies(self(a[0]) >= 0, c >= 1),
                             z3.Implies(self(a[0]) < 0, c < 1), z3.Implies(self(a[0]) > 0, c > 1)]
        elif o == "log":
            x = self(a[0])
            self.ax[t.id] = [z3.Implies(x >= 1, c >= 0), z3.Implies(z3.And(x > 0, x <= 1), c <= 0)]
        elif o in ("sin", "cos"):
            s = self(tm.mk("sin", a, "R")) if o == "cos" else c
            k = self(tm.mk("cos", a, "R")) if o == "sin" else c
            self.ax[t.id] = [c >= -1, c <= 1]
            x = self(a[0])
            pi = self(tm.PI)
            self.ax.setdefault(tm.PI.id, [])
            if o == "sin":
                self.ax[t.id] += [s * s + k * k == 1,
                                  z3.Implies(z3.And(x > 0, x < pi), s > 0),
                                  z3.Implies(z3.And(x < 0, x > -pi), s < 0),
                                  z3.Implies(x == 0, z3.And(s == 0, k == 1)),
                                  z3.Implies(x >= 0, s <= x), z3.Implies(x <= 0, s >= x)]
            else:
                self.ax[t.id] += [s * s + k * k == 1,
                                  z3.Implies(z3.And(2 * x > -pi, 2 * x < pi), k > 0),
                                  z3.Implies(x == 0, z3.And(s == 0, k == 1))]
        elif o == "acos":
            x = self(a[0])
            pi = self(tm.PI)
            dom = z3.And(x >= -1, x <= 1)
            self.ax[t.id] = [z3.Implies(dom, z3.And(c >= 0, c <= pi)),
                             z3.Implies(z3.And(dom, x < 1), c > 0), z3.Implies(z3.And(dom, x > -1), c < pi),
                             z3.Implies(x == 1, c == 0), z3.Implies(x == -1, c == pi),
                             z3.Implies(z3.And(dom, x > 0), 2 * c < pi),
                             z3.Implies(z3.And(dom, x < 0), 2 * c > pi)]
        elif o == "asin":
            x = self(a[0])
            pi = self(tm.PI)
            dom = z3.And(x >= -1, x <= 1)
            self.ax[t.id] = [z3.Implies(dom, z3.And(2 * c >= -pi, 2 * c <= pi)),
                             z3.Implies(z3.And(x > 0, dom), c > 0), z3.Implies(z3.And(x < 0, dom), c < 0),
                             z3.Implies(x == 0, c == 0)]
        elif o == "atan2":
            y, x = self(a[0]), self(a[1])
            pi = self(tm.PI)
            self.ax[t.id] = [c > -pi, c <= pi, z3.Implies(y > 0, z3.And(c > 0, c < pi)),
                             z3.Implies(y < 0, c < 0), z3.Implies(z3.And(y == 0, x > 0), c == 0),
                             z3.Implies(z3.And(y == 0, x == 0), c == 0),
                             z3.Implies(z3.And(y == 0, x < 0), c == pi),
                             z3.Implies(x > 0, z3.And(2 * c > -pi, 2 * c < pi))]
        return c

    def axioms(self, ts):
        out = []
        seen = set()
        st = list(ts)
        apps = {}
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in tm.BINDERS:
                continue
            self(x)
            if x.op == "app" and len(x.args) > 1:
                apps.setdefault((x.args[0], len(x.args)), []).append(x)
            if x.id in self.ax:
                out += self.ax[x.id]
                if x.op in ("sin", "cos", "acos", "asin", "atan2"):
                    st.append(tm.PI)
                if x.op in ("sin", "cos"):
                    st.append(tm.mk("sin", x.args, "R"))
                    st.append(tm.mk("cos", x.args, "R"))
                if x.op == "imod":
                    st.append(tm.idiv(*x.args))
            for a in x.args:
                if isinstance(a, T):
                    st.append(a)
        # Ackermann congruence for array/function symbols
        for xs in apps.values():
            for i in range(len(xs)):
                for j in range(i):
                    c = []
                    for a, b in zip(xs[i].args[1:], xs[j].args[1:]):
                        if a is b:
                            continue
                        e = tm.eq(a, b)
                        if e is tm.FALSE:
                            c = None
                            break
                        c.append(self(e))
                    if c:
                        out.append(z3.Implies(z3.And(c), self(xs[i]) == self(xs[j])))
        return out


class LinTr(Tr):
    """linear abstraction: every nonlinear monomial is one variable"""

    def _tr(self, t):
        o, a = t.op, t.args
        if o == "mul":
            cs, fs = None, []
            for x in a:
                if x.op == "num":
                    cs = x
                elif x.op == "i2r" and x.args[0].op == "mul":
                    fs += [tm.to_real(y) for y in x.args[0].args]
                else:
                    fs.append(x)
            if len(fs) > 1:
                fs = sorted(fs, key=lambda x: x.id)
                n = "mono!" + "_".join(str(x.id) for x in fs)
                v = z3.Real(n) if t.sort == "R" else z3.Int(n)
                ids = [x.id for x in fs]
                if all(ids.count(i) % 2 == 0 for i in ids):
                    self.ax[t.id] = [v >= 0]
                    if t.sort == "R" and len(ids) == 2:
                        pass
                    else:
                        self.ax[t.id].append(None)
                else:
                    self.ax[t.id] = [None]
                return self(cs) * v if cs is not None else v
            return super()._tr(t)
        if o in ("div", "sqrt", "exp", "log", "sin", "cos", "acos", "asin", "atan2", "pi", "rpow", "idiv", "imod", "floor") and not (
                o in ("idiv", "imod") and a[1].op == "num" and a[1].args[0] > 0):
            c = self.const(t, o)
            self.ax[t.id] = [None]
            if o == "sqrt":
                self.ax[t.id].append(z3.Implies(self(a[0]) >= 0, c >= 0))
            elif o == "exp":
                self.ax[t.id].append(c > 0)
            elif o == "pi":
                self.ax[t.id] += [c > z3.RealVal("3141592653589/1000000000000"), c < z3.RealVal("3141592653590/1000000000000")]
            elif o in ("sin", "cos"):
                self.ax[t.id] += [c >= -1, c <= 1]
            elif o == "floor":
                x = self(a[0])
                self.ax[t.id] += [z3.ToReal(c) <= x, x < z3.ToReal(c) + 1]
            return c
        if o in tm.BINDERS:
            self.ax[t.id] = [None]
        return super()._tr(t)


LIN = LinTr()


_NLF = {}


def nonlinear_floor(t):
    """a floor of a nonlinear term occurs (z3 does not finish on these)"""
    r = _NLF.get(t.id)
    if r is None:
        xs = [x for x in t.args if isinstance(x, T)]
        r = t.op == "floor" and nonlinear(t.args[0]) or any(nonlinear_floor(x) for x in xs)
        _NLF[t.id] = r
    return r


def nonlinear(t):
    if t.op == "mul" and sum(x.op != "num" for x in t.args) > 1:
        return True
    return any(nonlinear(x) for x in t.args if isinstance(x, T))


def linear_check(ts, ms):
    """'unsat' (sound), 'sat' (only when the abstraction is exact) or None"""
    s = _mk_solver(ms, False)
    exact = True
    seen = set()
    st = list(ts)
    for t in ts:
        s.add(LIN(t))
    sq, plain, signl = set(), set(), set()
    apps = {}
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        LIN(x)
        for c in LIN.ax.get(x.id, ()):
            if c is None:
                exact = False
            else:
                s.add(c)
        if x.op in tm.BINDERS:
            exact = False
            continue
        if x.op == "app" and len(x.args) > 1:
            apps.setdefault((x.args[0], len(x.args)), []).append(x)
        if x.op == "mul":
            fs = [y for y in x.args if y.op != "num"]
            if len(fs) == 2 and fs[0] is fs[1] and fs[0].op in ("app", "var"):
                sq.add(fs[0].id)
                y = fs[0]
                if y.op == "app":
                    apps.setdefault((y.args[0], len(y.args)), []).append(y)
                    st.extend(y.args[1:])
                continue
        if x.op in ("app", "var"):
            plain.add(x.id)
        if x.op in ("lt", "eq"):
            u, v = x.args
            if u.op == "num" and u.args[0] == 0:
                u, v = v, u
            if v.op == "num" and v.args[0] == 0 and u.op in ("app", "var") and u.sort == "R":
                signl.add(u)
                if u.op == "app":
                    apps.setdefault((u.args[0], len(u.args)), []).append(u)
                    st.extend(u.args[1:])
                continue
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    if sq & plain:
        exact = False
    for u in signl:
        m = tm.mul(u, u)
        if u.id in sq:
            s.add((LIN(u) == 0) == (LIN(m) == 0))
    for xs in apps.values():
        xs = list(dict.fromkeys(xs))
        for i in range(len(xs)):
            for j in range(i):
                c = []
                for a, b in zip(xs[i].args[1:], xs[j].args[1:]):
                    if a is b:
                        continue
                    e = tm.eq(a, b)
                    if e is tm.FALSE:
                        c = None
                        break
                    c.append(LIN(e))
                if c:
                    if xs[i].id in sq or xs[j].id in sq:
                        exact = False
                    s.add(z3.Implies(z3.And(c), LIN(xs[i]) == LIN(xs[j])))
    try:
        r = s.check()
    except z3.Z3Exception:
        return None
    if r == z3.unsat:
        return "unsat"
    if r == z3.sat and exact:
        return "sat"
    return None


def pair_axioms(ts, tr):
    """monotonicity of exp/sqrt/log between occurrences (few terms only)"""
    by = {}
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.id in seen or x.op in tm.BINDERS:
            continue
        seen.add(x.id)
        if x.op in ("exp", "sqrt", "log"):
            by.setdefault(x.op, []).append(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    out = []
    for o, xs in by.items():
        if len(xs) > 6:
            continue
        for i in range(len(xs)):
            for j in range(i):
                p, q = xs[i], xs[j]
                a, b = tr(p.args[0]), tr(q.args[0])
                c, d = tr(p), tr(q)
                g = []
                if o == "sqrt":
                    g = [a >= 0, b >= 0]
                if o == "log":
                    g = [a > 0, b > 0]
                out.append(z3.Implies(z3.And(*g, a < b), c < d) if g else z3.Implies(a < b, c < d))
                out.append(z3.Implies(z3.And(*g, b < a), d < c) if g else z3.Implies(b < a, d < c))
                out.append(z3.Implies(a == b, c == d))
    return out


STATS = {"z3_calls": 0, "z3_s": 0.0, "cvc5_calls": 0, "cvc5_s": 0.0}


def _mk_solver(ms, nl):
    if nl:
        s = z3.Tactic("qfnra-nlsat").solver()
    else:
        s = z3.Solver()
    s.set("timeout", int(ms))
    return s


def check(tr, hyps, extra, ms=2000, pairs=False, want_model=False):
    """satisfiability of hyps /\\ extra: 'unsat' | 'sat' | 'unknown' (, model)"""
    ts = list(hyps) + list(extra)
    ts += tm.range_facts(ts)
    t0 = time.time()
    STATS["z3_calls"] += 1
    if not want_model:
        r = linear_check(ts, ms)
        if r is not None:
            STATS["z3_s"] += time.time() - t0
            return (r, None)
        if any(nonlinear_floor(t) for t in ts):
            STATS["z3_s"] += time.time() - t0
            return ("unknown", None)
    s = _mk_solver(ms, False)
    for t in ts:
        s.add(tr(t))
    for x in tr.axioms(ts):
        s.add(x)
    if pairs:
        for x in pair_axioms(ts, tr):
            s.add(x)
    STATS["z3_calls"] += 1
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_s"] += time.time() - t0
    if r == z3.unsat:
        return ("unsat", None)
    if r == z3.sat:
        return ("sat", s.model() if want_model else None)
    return ("unknown", None)


def check_cvc5(tr, hyps, extra, ms=8000):
    """second opinion through SMT-LIB text"""
    import cvc5
    ts = list(hyps) + list(extra)
    ts += tm.range_facts(ts)
    s = z3.Solver()
    for t in ts:
        s.add(tr(t))
    for x in tr.axioms(ts):
        s.add(x)
    for x in pair_axioms(ts, tr):
        s.add(x)
    txt = s.to_smt2()
    t0 = time.time()
    STATS["cvc5_calls"] += 1
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            o = str(o).strip()
            if o in ("unsat", "sat", "unknown"):
                res = o
    except Exception as e:
        res = "unknown"
    STATS["cvc5_s"] += time.time() - t0
    return res
