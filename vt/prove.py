"""The deductive prover: goals are boolean terms under a list of hypotheses."""
import sys, time, signal
from fractions import Fraction
from . import term as tm
from .term import T
from . import poly as P
from .poly import Rat, TooBig, radd, rscale
from .nf import NF
from . import smt

sys.setrecursionlimit(200000)

TR = smt.Tr()
_ENT = {}
_PROVED = {}


class Budget(Exception):
    pass


_UNK = {}


class Oracle:
    def __init__(self, hyps, ms=400, alias=()):
        self.all = flatten(hyps)
        self.alias = tuple(alias)
        self.key = frozenset(x.id for x in self.all)
        self.set = {x.id for x in self.all}
        if alias:
            self.key |= frozenset(alias)
            self.set |= set(alias)
        self.ms = ms
        self.q = [x for x in self.all if x.op == "ball"]
        self.h = [x for x in self.all if x.op != "ball"]
        if self.q:
            r = _INST.get(self.key)
            if r is None:
                r = mponens(flatten(instantiate(self.q, self.h)), self.set)
                _INST[self.key] = r
            ids = {x.id for x in self.h}
            self.h = self.h + [x for x in r if x.id not in ids and x.op != "ball"]
            self.set |= {x.id for x in self.h}

    def focus(self, g):
        """oracle whose quantified hypotheses are also instantiated at g"""
        if not self.q or g.id in self.set:
            return self
        k = (self.key, g.id)
        r = _FOC.get(k)
        if r is None:
            ex = mponens(flatten(instantiate(self.q, self.h + [g])), self.set)
            ex = [x for x in ex if x.id not in self.set and x.op != "ball"]
            if not ex:
                r = self
            else:
                r = Oracle.__new__(Oracle)
                r.all, r.ms, r.q, r.alias = self.all, self.ms, self.q, self.alias
                r.h = self.h + ex
                r.set = self.set | {x.id for x in ex}
                r.key = self.key | frozenset(x.id for x in ex)
            _FOC[k] = r
        return r

    def entails(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        if c.id in self.set:
            return True
        if c.op == "and":
            return all(self.entails(x) for x in c.args)
        k = (self.key, c.id)
        r = _ENT.get(k)
        if r is None:
            n = tm.not_(c)
            if n.id in self.set or (has_ite(c) and hard(c)):
                r = False
            elif (c2 := self.canon(c)) is not c:
                r = self.entails(c2)
            else:
                hs = (self.focus(c) if self.q else self).relevant([c])
                u = _UNK.get(c.id, 0)
                st = smt.check(TR, hs, [n], ms=self.ms if u < 2 else 80)[0]
                if st == "unknown":
                    _UNK[c.id] = u + 1
                r = st == "unsat"
            _ENT[k] = r
        return r

    def relevant(self, goals):
        """hypotheses sharing (transitively) variables with the goal"""
        if len(self.h) <= 6:
            return self.h
        vs = set()
        for g in goals:
            vs |= syms(g)
        left = list(self.h)
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for x in left:
                s = syms(x)
                if not s or s & vs:
                    out.append(x)
                    vs |= s
                    changed = True
                else:
                    rest.append(x)
            left = rest
        return out

    def plus(self, *cs):
        al = list(self.alias)
        out = []
        for c in cs:
            c2 = self.canon(c)
            out.append(c2)
            if c2 is not c:
                al.append(c.id)
        return Oracle(self.all + [x for x in self.h if x.id not in self.key] + out, self.ms, al)

    def canon(self, c):
        """an equivalent literal in polynomial normal form (or c itself)"""
        neg = c.op == "not"
        l = c.args[0] if neg else c
        if l.op not in ("lt", "eq") or l.args[0].sort != "R" or has_ite(l) or bound(l) or not hard(l):
            return c
        k = (self.key, l.id)
        r = _CAN.get(k)
        if r is None:
            _CAN[k] = l
            r = _CAN[k] = self._canon(l)
        return tm.not_(r) if neg else r

    def _canon(self, l):
        x, y = l.args
        if x.op == "inf" or y.op == "inf":
            return l
        nf = NF(self, [x, y])
        try:
            d = nf.rred(radd(nf.nf(y), rscale(nf.nf(x), -1)))
        except (TooBig, ZeroDivisionError):
            return l
        if len(d.num) > 60:
            return l
        sgn = 1
        for k, (p, e) in d.den.items():
            pt = nf.poly_term(p)
            if e % 2 == 0 or l.op == "eq":
                if not (self.entails(tm.lt(tm.ZERO, pt)) or self.entails(tm.ne(pt, tm.ZERO))):
                    return l
            elif self.entails(tm.lt(tm.ZERO, pt)):
                pass
            elif self.entails(tm.lt(pt, tm.ZERO)):
                sgn = -sgn
            else:
                return l
        n = d.num
        if not n:
            return tm.TRUE if l.op == "eq" else tm.FALSE
        c, n = P.primitive(n)
        if c < 0:
            sgn = -sgn
        mc = P.mono_content(n)
        for i, e in mc:
            t = nf.ids[i]
            if self.entails(tm.lt(tm.ZERO, t)):
                n = P.pdiv_mono(n, ((i, e),))
            elif self.entails(tm.lt(t, tm.ZERO)):
                n = P.pdiv_mono(n, ((i, e),))
                sgn = -sgn if e % 2 else sgn
            elif e >= 2 and self.entails(tm.ne(t, tm.ZERO)):
                n = P.pdiv_mono(n, ((i, e - e % 2),))
        if len(n) == 2:
            (m1, c1), (m2, c2) = sorted(n.items())
            if (c1 > 0) != (c2 > 0) and any(nf.ids[i].op in ("sqrt", "ite") for m in (m1, m2) for i, _ in m) \
                    and self.mono_nonneg(nf, m1) and self.mono_nonneg(nf, m2):
                # a*u - b*v with u, v >= 0 has the sign of a^2 u^2 - b^2 v^2
                q = {}
                for m, cc in ((m1, c1), (m2, c2)):
                    sq = nf.reduce(P.pscale(self.mono_sq(nf, m), cc * cc))
                    q = P.padd(q, sq if cc > 0 else P.pscale(sq, -1))
                n = nf.reduce(q)
                if not n:
                    return tm.TRUE if l.op == "eq" else tm.FALSE
                c, n = P.primitive(n)
                if c < 0:
                    sgn = -sgn
        t = nf.poly_term(n)
        if l.op == "eq":
            return tm.eq(t, tm.ZERO)
        return tm.lt(tm.ZERO, t) if sgn > 0 else tm.lt(t, tm.ZERO)

    def mono_nonneg(self, nf, m):
        for i, e in m:
            t = nf.ids[i]
            if e % 2 and not (t.op in ("sqrt", "exp") or is_abs(t) is not None or self.entails(tm.le(tm.ZERO, t))):
                return False
        return True

    def mono_sq(self, nf, m):
        r = {(): 1}
        for i, e in m:
            a = is_abs(nf.ids[i])
            if a is not None:
                x = nf.nf(a)
                r = P.pmul(r, P.ppow(x.num, 2 * e)) if not x.den else P.pmul(r, {((i, 2 * e),): 1})
            else:
                r = P.pmul(r, {((i, 2 * e),): 1})
        return r


def is_abs(t):
    """x if t is |x|"""
    if t.op == "ite":
        c, a, b = t.args
        if tm.neg(a) is b or tm.neg(b) is a:
            if tm.absv(a) is t:
                return a
            if tm.absv(b) is t:
                return b
    return None


_CAN = {}
_HARD = {}


def hard(t):
    r = _HARD.get(t.id)
    if r is None:
        r = t.op in ("sqrt", "div", "sin", "cos", "exp") or any(hard(a) for a in t.args if isinstance(a, T))
        _HARD[t.id] = r
    return r



_SYMS = {}
_INST = {}
_FOC = {}


def syms(t):
    r = _SYMS.get(t.id)
    if r is None:
        r = set()
        for x in tm.subterms(t):
            if x.op == "var":
                r.add(x.args[0])
            elif x.op == "app":
                r.add(x.args[0])
        _SYMS[t.id] = r
    return r


def flatten(hs):
    out = []
    seen = set()
    st = list(reversed(hs))
    while st:
        h = st.pop()
        if h.op == "and":
            st.extend(reversed(h.args))
            continue
        if h is tm.TRUE or h.id in seen:
            continue
        seen.add(h.id)
        if h.op == "not" and h.args[0].op == "ball":
            st.append(skolem(h.args[0]))
        out.append(h)
        e = extremum_fact(h)
        if e is not None:
            st.append(e)
    return out


def extremum_fact(h):
    """what a comparison with a max/min binder says about the elements"""
    neg = h.op == "not"
    l = h.args[0] if neg else h
    if l.op != "lt":
        return None
    a, b = l.args
    for side, x, t in ((0, a, b), (1, b, a)):
        if x.op not in ("bmax", "bmin") or tm.levels(x) or t.op in ("bmax", "bmin"):
            continue
        k, lo, hi, body = x.args
        f = tm.lt(body, t) if side == 0 else tm.lt(t, body)
        if neg:
            f = tm.not_(f)
        # upper bound on a max / lower bound on a min: all elements; else some element
        upper = (side == 0) != neg
        if (x.op == "bmax") == upper:
            v = tm.fresh("xb", "I")
            return tm.close_binder("ball", v, lo, hi, tm.subst(f, {k: v}))
        w = tm.var(f"sk!{x.id}!{t.id}!{int(neg)}!{side}", "I")
        fw = tm.subst(f, {k: w})
        inner = extremum_fact(fw)
        return tm.implies(tm.lt(lo, hi), tm.and_(tm.le(lo, w), tm.lt(w, hi), fw, *([inner] if inner is not None else [])))
    return None


def mponens(hs, known):
    """drop already known premises from implications not(p & q & not r)"""
    out = []
    for h in hs:
        if h.op == "not" and h.args[0].op == "and":
            ls = [x for x in h.args[0].args if x.id not in known]
            if len(ls) < len(h.args[0].args):
                h = tm.not_(tm.and_(*ls))
        out.append(h)
    return flatten(out)


def known_lits(c, orc):
    """literals of a condition that are literally among the hypotheses"""
    if c.id in orc.set:
        return tm.TRUE
    if tm.not_(c).id in orc.set:
        return tm.FALSE
    if c.op == "not":
        return tm.not_(known_lits(c.args[0], orc))
    if c.op in ("and", "or"):
        new = [known_lits(x, orc) for x in c.args]
        return tm.and_(*new) if c.op == "and" else tm.or_(*new)
    return c


def resolve(t, orc, memo):
    """replace ites whose condition is decided by the hypotheses"""
    r = memo.get(t.id)
    if r is not None:
        return r
    if not has_ite(t):
        memo[t.id] = t
        return t
    if t.op == "ite":
        c = resolve(t.args[0], orc, memo)
        if c is not tm.TRUE and c is not tm.FALSE and not bound(c):
            if has_ite(c) and hard(c):
                c = known_lits(c, orc)
                if c is tm.TRUE or c is tm.FALSE:
                    pass
                elif c.id in orc.set:
                    c = tm.TRUE
                elif tm.not_(c).id in orc.set:
                    c = tm.FALSE
            elif orc.entails(c):
                c = tm.TRUE
            elif orc.entails(tm.not_(c)):
                c = tm.FALSE
        if c is tm.TRUE:
            r = resolve(t.args[1], orc, memo)
        elif c is tm.FALSE:
            r = resolve(t.args[2], orc, memo)
        else:
            if not bound(c):
                c = known_lits(c, orc)
            r = tm.ite(c, resolve(t.args[1], orc, memo), resolve(t.args[2], orc, memo))
    elif t.op in tm.BINDERS:
        r = t
    else:
        new = tuple(resolve(a, orc, memo) if isinstance(a, T) else a for a in t.args)
        r = t if new == t.args else tm.rebuild(t.op, new, t)
    memo[t.id] = r
    return r


_HI = {}


def has_ite(t):
    r = _HI.get(t.id)
    if r is None:
        r = t.op == "ite" or any(has_ite(a) for a in t.args if isinstance(a, T))
        _HI[t.id] = r
    return r


def bound(t):
    return bool(tm.levels(t))


def pick_cond(t):
    """innermost undecided ite condition (atom without ites), most frequent first"""
    cnt = {}
    order = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or not has_ite(x):
            continue
        seen.add(x.id)
        if x.op in tm.BINDERS:
            continue
        if x.op == "ite":
            for l in lits(x.args[0]):
                if not has_ite(l) and not bound(l):
                    if l.id not in cnt:
                        order.append(l)
                    cnt[l.id] = cnt.get(l.id, 0) + 1
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    if not order:
        return None
    return max(order, key=lambda l: (-size(l), cnt[l.id]))


_SZ = {}


def size(t):
    r = _SZ.get(t.id)
    if r is None:
        r = 1 + sum(size(a) for a in t.args if isinstance(a, T))
        _SZ[t.id] = r
    return r


def lits(c):
    if c.op == "not":
        yield from lits(c.args[0])
    elif c.op == "and":
        for a in c.args:
            yield from lits(a)
    elif c.op == "ite":
        for a in c.args:
            yield from lits(a)
    else:
        yield c


def minmax_facts(t, idx):
    """defining facts of a max/min/argmax/argmin binder over a nonempty range"""
    b, lo, hi, body = t.args
    mx = t.op in ("bmax", "bargmax")
    am = tm.mk("bargmax" if mx else "bargmin", t.args, "I")
    v = tm.subst(body, {b: am})
    out = [tm.le(lo, am), tm.lt(am, hi)]
    if "arg" not in t.op:
        out.append(tm.eq(t, v))
    for e in idx:
        x = tm.subst(body, {b: e})
        inr = tm.and_(tm.le(lo, e), tm.lt(e, hi))
        out.append(tm.implies(inr, tm.le(x, v) if mx else tm.le(v, x)))
        out.append(tm.implies(tm.and_(inr, tm.eq(x, v)), tm.le(am, e)))
    return [tm.implies(tm.lt(lo, hi), f) for f in out]


def skolem(t):
    """not ball  ->  witness literal"""
    b, lo, hi, body = t.args
    k = tm.var(f"sk!{t.id}", "I")
    return tm.and_(tm.le(lo, k), tm.lt(k, hi), tm.not_(tm.subst(body, {b: k})))


def triggers(t, depthvars=()):
    """(symbol, position) pairs at which the bound variable indexes a symbol"""
    r = _TRIG.get(t.id)
    if r is None:
        b = t.args[0]
        r = set()
        for x in tm.subterms(t.args[3]):
            if x.op == "app":
                for p, a in enumerate(x.args[1:]):
                    if a is b:
                        r.add((x.args[0], p))
                    elif tm.has_level(a, b):
                        r.add((x.args[0], p, a))
        _TRIG[t.id] = r
    return r


_TRIG = {}


def instantiate(qs, ground):
    """instances of universally quantified hypotheses at the index terms of the
    ground terms (two rounds)"""
    out = []
    seen = set()
    pool = {}

    def feed(t):
        for x in tm.subterms(t):
            if x.op == "app":
                for p, a in enumerate(x.args[1:]):
                    if not tm.levels(a):
                        pool.setdefault((x.args[0], p), {})[a.id] = a
    for g in ground:
        feed(g)
    for rnd in range(3):
        new = []
        work = list(qs)
        while work:
            q = work.pop()
            b, lo, hi, body = q.args
            cands = {}
            for tr in triggers(q):
                if len(tr) == 2:
                    cands.update(pool.get(tr, {}))
                else:
                    # b + c index: solve for b when the offset is simple
                    for e in pool.get(tr[:2], {}).values():
                        off = tm.sub(tr[2], b)
                        if not tm.has_level(off, b):
                            x = tm.sub(e, off)
                            if not tm.levels(x):
                                cands[x.id] = x
            if len(cands) > 24:
                cands = dict(list(cands.items())[:24])
            for e in cands.values():
                if (q.id, e.id) in seen:
                    continue
                inr = tm.and_(tm.le(lo, e), tm.lt(e, hi))
                if inr is tm.FALSE:
                    continue
                seen.add((q.id, e.id))
                inst = tm.subst(body, {b: e})
                inr0 = inr
                for part in (inst.args if inst.op == "and" else (inst,)):
                    inr = inr0
                    if part.op == "not" and part.args[0].op == "and":
                        # guard ==> (forall ...): the guard travels too
                        qn = [x for x in part.args[0].args if x.op == "not" and x.args[0].op == "ball"]
                        if len(qn) == 1:
                            inr = tm.and_(inr0, *[x for x in part.args[0].args if x is not qn[0]])
                            part = qn[0].args[0]
                    if part.op == "ball":
                        # guard travels with the nested quantifier
                        b2, lo2, hi2, body2 = part.args
                        k = tm.fresh("qv", "I")
                        nb = tm.close_binder("ball", k, lo2, hi2,
                                             tm.implies(inr, tm.subst(body2, {b2: k})))
                        if nb.op == "ball":
                            qs = list(qs) + [nb]
                            work.append(nb)
                        else:
                            new.append(nb)
                    else:
                        new.append(tm.implies(inr, part))
        if not new:
            break
        for n in new:
            feed(n)
        out += new
        if len(out) > 400:
            break
    return out


class Prover:
    def __init__(self, seconds=60, trace=False):
        self.deadline = time.time() + seconds
        self.used = set()
        self.trace = trace
        self.splits = 0
        self.fail = None
        self.model = None

    def tick(self):
        if time.time() > self.deadline:
            raise Budget()

    # ------------------------------------------------------------------
    def prove(self, hyps, goal):
        try:
            return self._prove(Oracle(hyps), goal, 0)
        except Budget:
            self.fail = self.fail or (list(hyps), goal, "budget exhausted")
            return False

    def _prove(self, orc, g, d):
        self.tick()
        if g is tm.TRUE:
            self.used.add("simplifier")
            return True
        if g.id in orc.set:
            self.used.add("simplifier")
            return True
        k = (orc.key, g.id)
        if k in _PROVED:
            self.used |= _PROVED[k]
            return True
        u0 = self.used
        self.used = set()
        try:
            r = self._prove1(orc, g, d)
        finally:
            mine = self.used
            self.used = u0 | mine
        if r:
            _PROVED[k] = mine
        return r

    def _prove1(self, orc, g, d):
        if g is tm.FALSE:
            return self.contra(orc, g)
        if g.op == "ball":
            k, lo, hi, body = tm.open_binder(g)
            return self._prove(orc.plus(tm.le(lo, k), tm.lt(k, hi)), body, d)
        orc = orc.focus(g)
        if g.op == "and":
            return all(self._prove(orc, x, d) for x in g.args)
        if g.op == "not" and g.args[0].op == "and":
            ls = list(g.args[0].args)
            best = None
            for i, l in enumerate(ls):
                if l.op == "not" and l.args[0].op == "eq" and l.args[0].args[0].sort == "R":
                    best = i
            if best is None:
                for i, l in enumerate(ls):
                    if (l.op == "lt" or l.op == "not" and l.args[0].op == "lt") and \
                            (l if l.op == "lt" else l.args[0]).args[0].sort == "R":
                        best = i
            if best is None:
                best = len(ls) - 1
            # cheap: is one disjunct already entailed / all decided
            o2 = orc.plus(*[l for i, l in enumerate(ls) if i != best])
            return self._prove(o2, tm.not_(ls[best]), d)
        # ites in boolean structure
        if g.op == "eq" and g.args[0].sort == "R":
            return self.eq(orc, g.args[0], g.args[1], d)
        return self.ineq(orc, g, d)

    def contra(self, orc, g):
        r, m = smt.check(TR, orc.h, [], ms=3000, want_model=True)
        if r == "unsat":
            self.used.add("z3")
            return True
        self.note(orc, g, "hypotheses consistent" if r == "sat" else "unknown", m)
        return False

    def note(self, orc, g, why, model=None):
        if self.fail is None:
            self.fail = (orc.h, g, why)
        if model is not None and self.model is None:
            self.model = model
        if self.trace:
            print("  FAIL", tm.show(g)[:600], "\n   under", [tm.show(h)[:120] for h in orc.h][:12], why)

    # ---------------------------------------------------------- equalities
    def mknf(self, orc, roots):
        nf = NF(orc, roots)
        eqs = [h for h in orc.h if h.op == "eq" and h.args[0].sort in ("R",)]
        if eqs:
            pend = []
            for rnd in range(2):
                for h in eqs:
                    try:
                        r = radd(nf.nf(h.args[0]), rscale(nf.nf(h.args[1]), -1))
                        r = nf.rred(r)
                    except (TooBig, ZeroDivisionError):
                        continue
                    p = r.num
                    if not p or len(p) > 60:
                        continue
                    # also every even power sum of squares = 0 is left to z3
                    cand = None
                    for m in p:
                        if len(m) == 1 and m[0][1] == 1:
                            i = m[0][0]
                            if sum(1 for m2 in p for j, e in m2 if j == i) == 1 and i not in nf.red \
                                    and i not in nf.idem:
                                # avoid eliminating an atom nested in another
                                if any(tm.contains(nf.ids[j], nf.ids[i]) for m2 in p for j, _ in m2 if j != i):
                                    continue
                                if cand is None or nf.ids[i].op in ("app", "var"):
                                    cand = i
                    if cand is None:
                        # monomial c*x^n = 0  ->  x = 0
                        if len(p) == 1:
                            ((m, c),) = p.items()
                            if len(m) == 1:
                                nf.red[m[0][0]] = Rat({})
                                nf.memo.clear()
                        continue
                    c = p[((cand, 1),)]
                    rest = {m: v for m, v in p.items() if m != ((cand, 1),)}
                    nf.red[cand] = Rat(P.pscale(rest, Fraction(-1) / c))
                    nf.memo.clear()
                    # renormalise earlier substitutions
                    for k, v in list(nf.red.items()):
                        if k != cand and any(i == cand for m in v.num for i, _ in m):
                            nf.red[k] = nf.nf(nf.to_term(v))
                if not nf.red:
                    break
        return nf

    def eq(self, orc, a, b, d):
        self.tick()
        memo = {}
        if a is b or tm.ac(a) is tm.ac(b):
            self.used.add("rewriting")
            return True
        a, b = resolve(a, orc, memo), resolve(b, orc, memo)
        if a is b or tm.ac(a) is tm.ac(b):
            self.used.add("rewriting")
            return True
        if a.op == "ite" or b.op == "ite":
            c = pick_cond(tm.mk("pair", (a, b), "R"))
            if c is not None and d < 40:
                return self.split(orc, c, tm.mk("eq", (a, b), "B"), d)
        if size(a) + size(b) > 150 and (self.pair_sums(orc, a, b, d) or self.generalise(orc, a, b, d)):
            return True
        nf = self.mknf(orc, [a, b])
        try:
            diff = radd(nf.nf(a), rscale(nf.nf(b), -1))
            diff = nf.rred(diff)
            zero = not diff.num
        except TooBig:
            diff, zero = None, False
        except ZeroDivisionError:
            diff, zero = None, False
        if zero:
            self.used.add("ring-normaliser")
            return True
        # case split on remaining ites
        dt = tm.mk("pair", (a, b), "R")
        c = pick_cond(dt) if d < 40 else None
        if c is not None and self.inv_rule(orc, a, b, d, True):
            return True
        if c is not None:
            return self.split(orc, c, tm.mk("eq", (a, b), "B"), d)
        if diff is not None:
            try:
                if self.grob(orc, nf, diff):
                    self.used.add("sympy-groebner")
                    return True
            except Exception:
                pass
        if self.inv_rule(orc, a, b, d, False):
            return True
        ws = [w for w in nf.wants if not bound(w) and not orc.entails(w) and not orc.entails(tm.not_(w))]
        if ws and d < 24:
            w = min(ws, key=size)
            if orc.plus(w).key != orc.key and tm.not_(w).id not in orc.set and w.id not in orc.set:
                return self.split(orc, w, tm.mk("eq", (a, b), "B"), d + 2)
        if self.sum_ext(orc, nf, diff, d):
            return True
        g = tm.eq(a, b)
        if g is tm.TRUE:
            return True
        r, m = smt.check(TR, orc.h, [tm.not_(g)], ms=2500, pairs=True, want_model=True)
        if r == "unsat":
            self.used.add("z3")
            return True
        if diff is not None and not bound(g):
            g2 = tm.eq(nf.poly_term(diff.num), tm.ZERO)
            hs = list(orc.h) + self.sum_facts(orc, g2, d)
            r2, m2 = smt.check(TR, hs, [tm.not_(g2)], ms=4000, want_model=True)
            if r2 == "unsat":
                self.used.add("z3")
                return True
            m = m or m2
            if smt.check_cvc5(TR, hs, [tm.not_(g2)], ms=4000) == "unsat":
                self.used.add("cvc5")
                return True
        self.note(orc, g, r, m)
        return False

    def pair_sums(self, orc, a, b, d):
        """sums over the same range whose terms are guarded by the same condition are compared term by term"""
        if d > 12:
            return False
        xs, ys = [list(t.args) if t.op == "add" else [t] for t in (a, b)]
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        if len(xs) != len(ys) or not xs or len(xs) > 12:
            return False

        def head(t):
            if t.op != "sum" or t.args[3].op != "ite" or t.args[3].args[2] is not tm.ZERO:
                return None
            return (t.args[1].id, t.args[2].id)
        hx, hy = [head(t) for t in xs], [head(t) for t in ys]
        if None in hx or None in hy:
            return False
        pairs = []
        left = list(range(len(ys)))
        for x, h in zip(xs, hx):
            k = tm.fresh("k", "I")
            bx = tm.subst(x.args[3], {x.args[0]: k})
            for q in left:
                if hy[q] == h:
                    by = tm.subst(ys[q].args[3], {ys[q].args[0]: k})
                    if by.args[0] is bx.args[0]:
                        pairs.append((x, k, bx, by))
                        left.remove(q)
                        break
            else:
                return False
        f, m0 = self.fail, self.model
        for x, k, bx, by in pairs:
            o = orc.plus(tm.le(x.args[1], k), tm.lt(k, x.args[2]), bx.args[0])
            if not self._prove(o, tm.eq(bx.args[1], by.args[1]), d + 10):
                self.fail, self.model = f, m0
                return False
        self.used.add("sum-extensionality")
        return True

    def generalise(self, orc, a, b, d):
        """prove the equation for arbitrary values of the differences u - v that both sides are built from"""
        if bound(a) or bound(b) or has_ite(a) or has_ite(b) or d > 60:
            return False
        cnt = {}
        seen = set()
        st = [a, b]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in tm.BINDERS or x.op == "app":
                continue
            if x.op == "add" and len(x.args) == 2 and x.sort == "R" and all(
                    (y.args[1] if y.op == "mul" and len(y.args) == 2 and y.args[0].op == "num" else y).op in ("app", "var") for y in x.args):
                cnt[x] = 0
                continue
            st += [y for y in x.args if isinstance(y, T)]
        if not 3 <= len(cnt) <= 12:
            return False
        m = {}
        for x in sorted(cnt, key=lambda y: y.id):
            n = tm.neg(x)
            if n in m:
                m[x] = tm.neg(m[n])
            else:
                m[x] = tm.fresh("w", "R")
        a2, b2 = tm.subst(a, m), tm.subst(b, m)
        keep = [v for v in m.values() if v.op == "var"]
        hs = [tm.subst(h, m) for h in orc.h]
        hs = [h for h in hs if any(tm.contains(h, v) for v in keep)]
        f, m0, t0 = self.fail, self.model, self.splits
        try:
            nf = self.mknf(Oracle(hs, orc.ms), [a2, b2])
            ok = not nf.rred(radd(nf.nf(a2), rscale(nf.nf(b2), -1))).num
        except (TooBig, ZeroDivisionError):
            ok = False
        if ok:
            self.used |= {"ring-normaliser", "generalisation"}
        self.fail, self.model = f, m0
        return ok

    def split(self, orc, c, g, d):
        """g under c and under not c; c must not be decided"""
        self.tick()
        self.splits += 1
        self.used.add("case-split")
        for x in (c, tm.not_(c)):
            x2 = orc.canon(x)
            if x2 is tm.FALSE or tm.not_(x2).id in orc.set or tm.not_(x).id in orc.set:
                continue
            o = orc.plus(x)
            u = _UNK.get(("split", c.id), 0)
            st = smt.check(TR, o.relevant([x]), [], ms=300 if u < 3 else 100)[0]
            if st == "unsat":
                continue
            if st == "unknown":
                _UNK[("split", c.id)] = u + 1
            m = {}
            if g.op == "eq" and g.args[0].sort == "R":
                if not self.eqm(o, g, d + 1):
                    return False
            else:
                g2 = resolve(g, o, m)
                if not self._prove(o, g2, d + 1):
                    return False
        return True

    def eqm(self, o, g, d):
        k = (o.key, g.id)
        if k in _PROVED:
            self.used |= _PROVED[k]
            return True
        r = self.eq(o, g.args[0], g.args[1], d)
        if r:
            _PROVED[k] = set(self.used)
        return r

    def inv_rule(self, orc, a, b, d, cheap):
        """equalities between values of inverse functions and candidates"""
        if d > 30:
            return False
        for x, t in ((a, b), (b, a)):
            if has_ite(x) and x.op == "ite":
                continue
            if x.op == "atan2" and not (t.op == "atan2" and tm.contains(t, x)):
                y, xx = x.args
                s, c = tm.sin(t), tm.cos(t)
                g = [tm.eq(tm.mul(xx, s), tm.mul(y, c)),
                     tm.lt(tm.ZERO, tm.add(tm.mul(xx, c), tm.mul(y, s))),
                     tm.lt(tm.neg(tm.PI), t), tm.le(t, tm.PI)]
            elif x.op == "acos":
                g = [tm.eq(x.args[0], tm.cos(t)), tm.le(tm.ZERO, t), tm.le(t, tm.PI)]
            elif x.op == "asin":
                h = tm.mul(tm.num(Fraction(1, 2)), tm.PI)
                g = [tm.eq(x.args[0], tm.sin(t)), tm.le(tm.neg(h), t), tm.le(t, h)]
            elif x.op == "sqrt" and not cheap:
                g = [tm.eq(x.args[0], tm.mul(t, t)), tm.le(tm.ZERO, t)]
            else:
                continue
            if t.op == x.op and cheap:
                continue
            f, m = self.fail, self.model
            ok = all(self._prove(orc, y, d + 8) for y in g)
            if ok:
                self.used.add("inverse-function-rule")
                return True
            self.fail, self.model = f, m
        return False

    def grob(self, orc, nf, diff):
        eqs = []
        for h in orc.h:
            if h.op == "eq" and h.args[0].sort == "R":
                r = nf.rred(radd(nf.nf(h.args[0]), rscale(nf.nf(h.args[1]), -1)))
                if r.num:
                    eqs.append(r.num)
        if not eqs or len(eqs) > 8 or len(diff.num) > 1500:
            return False
        # relations of sqrt / trig atoms
        ats = P.atoms(diff.num)
        for e in eqs:
            ats |= P.atoms(e)
        for i in list(ats):
            if i in nf.sq:
                eqs.append(P.psub(P.patom(i, 2), nf.sq[i]))
            if i in nf.sinof:
                eqs.append(P.padd(P.padd(P.patom(i, 2), P.patom(nf.sinof[i], 2)), P.pconst(-1)))
        for e in eqs:
            ats |= P.atoms(e)
        if len(ats) > 14:
            return False
        from sympy import groebner, QQ
        from sympy.polys.rings import ring
        import sympy
        ats = sorted(ats)
        xs = sympy.symbols([f"x{i}" for i in ats])
        pos = dict(zip(ats, xs))

        def ex(p):
            return sympy.Add(*[sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) *
                               sympy.Mul(*[pos[i] ** e for i, e in m]) for m, c in p.items()])

        def onalarm(*_):
            raise TimeoutError()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(8)
        try:
            G = groebner([ex(e) for e in eqs], *xs, order="grevlex")
            return G.reduce(ex(diff.num))[1] == 0
        except TimeoutError:
            return False
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    # ---------------------------------------------------------- sums
    def sum_ext(self, orc, nf, diff, d):
        """extensionality: pair sum atoms that are pointwise equal"""
        if diff is None or d > 30:
            return False
        p = diff.num
        sums = {i for m in p for i, _ in m if nf.ids[i].op in tm.BINDERS}
        if len(sums) < 2:
            return False
        sums = sorted(sums)
        mp = {}
        for x in range(len(sums)):
            if sums[x] in mp:
                continue
            for y in range(x + 1, len(sums)):
                if sums[y] in mp:
                    continue
                a, b = nf.ids[sums[x]], nf.ids[sums[y]]
                if a.op != b.op:
                    continue
                f, m0 = self.fail, self.model
                if not (self._prove(orc, tm.eq(a.args[1], b.args[1]), d + 10) and
                        self._prove(orc, tm.eq(a.args[2], b.args[2]), d + 10)):
                    self.fail, self.model = f, m0
                    continue
                k = tm.fresh("k", "I")
                o = orc.plus(tm.le(a.args[1], k), tm.lt(k, a.args[2]))
                ba = tm.subst(a.args[3], {a.args[0]: k})
                bb = tm.subst(b.args[3], {b.args[0]: k})
                if self._prove(o, tm.eq(ba, bb), d + 10):
                    mp[sums[y]] = sums[x]
                else:
                    self.fail, self.model = f, m0
        if not mp:
            return False
        q = {}
        for m, c in p.items():
            dd = {}
            for i, e in m:
                i = mp.get(i, i)
                dd[i] = dd.get(i, 0) + e
            mm = tuple(sorted(dd.items()))
            v = q.get(mm, 0) + c
            if v == 0:
                q.pop(mm, None)
            else:
                q[mm] = v
        if not nf.reduce(q):
            self.used.add("sum-extensionality")
            return True
        return False

    def sum_facts(self, orc, g, d):
        """sign facts about sums/products occurring in g"""
        if d > 34:
            return []
        out = []
        idx = None
        for t in list(tm.subterms(g)):
            if t.op not in tm.BINDERS:
                continue
            if bound(t):
                continue
            k = tm.fresh("k", "I")
            body = tm.subst(t.args[3], {t.args[0]: k})
            o = orc.plus(tm.le(t.args[1], k), tm.lt(k, t.args[2]))
            f, m0 = self.fail, self.model
            if t.op in ("bmax", "bmin", "bargmax", "bargmin"):
                out += minmax_facts(t, self.index_terms(g))
                continue
            if t.op == "ball":
                continue
            z = tm.num(0, t.sort)
            one = tm.num(1, t.sort)
            nonneg = self._prove(o, tm.le(z, body), 30)
            if nonneg:
                out.append(tm.le(z, t))
            if t.op not in ("sum", "prod"):
                continue
            if t.op == "sum":
                if nonneg:
                    # S >= any single element
                    for e in self.index_terms(g):
                        out.append(tm.implies(tm.and_(tm.le(t.args[1], e), tm.lt(e, t.args[2])),
                                              tm.le(tm.subst(t.args[3], {t.args[0]: e}), t)))
                elif self._prove(o, tm.le(body, z), 30):
                    out.append(tm.le(t, z))
                if self._prove(o, tm.lt(z, body), 30):
                    out.append(tm.implies(tm.lt(t.args[1], t.args[2]), tm.lt(z, t)))
                if t.sort == "I" or True:
                    if self._prove(o, tm.le(body, one), 30):
                        n = tm.sub(t.args[2], t.args[1])
                        out.append(tm.implies(tm.le(t.args[1], t.args[2]),
                                              tm.le(t, n if t.sort == "I" else tm.to_real(n))))
            elif nonneg and self._prove(o, tm.le(body, one), 30):
                out.append(tm.le(t, one))
            self.fail, self.model = f, m0
        return out

    def index_terms(self, g):
        out = []
        seen = set()

        def rec(t):
            if t.id in seen:
                return
            seen.add(t.id)
            if t.op in tm.BINDERS:
                rec(t.args[1])
                rec(t.args[2])
                return
            if t.op == "app":
                for x in t.args[1:]:
                    if x not in out and not bound(x):
                        out.append(x)
            for a in t.args:
                if isinstance(a, T):
                    rec(a)
        rec(g)
        return out[:6]

    # ---------------------------------------------------------- inequalities
    def ineq(self, orc, g, d):
        self.tick()
        memo = {}
        g = resolve(g, orc, memo)
        if g is tm.TRUE or g.id in orc.set:
            self.used.add("simplifier")
            return True
        if g.op == "and" or (g.op == "not" and g.args[0].op == "and") or \
                (g.op == "eq" and g.args[0].sort == "R"):
            return self._prove(orc, g, d)
        r, m = smt.check(TR, orc.h, [tm.not_(g)], ms=700 if has_ite(g) else 1500, want_model=True)
        if r == "unsat":
            self.used.add("z3")
            return True
        c = pick_cond(g)
        if c is not None and d < 40:
            return self.split(orc, c, g, d)
        neg = g.op == "not"
        lit = g.args[0] if neg else g
        if lit.op in ("lt", "eq") and lit.args[0].sort == "R":
            x, y = lit.args
            if x.op == "inf" or y.op == "inf":
                self.note(orc, g, r, m)
                return False
            nf = self.mknf(orc, [x, y])
            try:
                dd = radd(nf.nf(y), rscale(nf.nf(x), -1))
                dd = nf.rred(dd)
            except (TooBig, ZeroDivisionError):
                self.note(orc, g, "normal form too large", m)
                return False
            ws = [w for w in nf.wants if not bound(w) and not orc.entails(w) and not orc.entails(tm.not_(w))]
            sgn = 1
            okden = True
            den = []
            for k, (p, e) in dd.den.items():
                pt = nf.poly_term(p)
                if e % 2 == 0:
                    if not self.quiet(orc, tm.ne(pt, tm.ZERO), d):
                        okden = False
                elif self.quiet(orc, tm.lt(tm.ZERO, pt), d):
                    pass
                elif self.quiet(orc, tm.lt(pt, tm.ZERO), d):
                    sgn = -sgn
                else:
                    okden = False
                    den.append(tm.lt(tm.ZERO, pt))
            n = nf.poly_term(dd.num)
            if okden:
                if lit.op == "eq":
                    goal = tm.eq(n, tm.ZERO)
                else:
                    goal = tm.lt(tm.ZERO, n) if sgn > 0 else tm.lt(n, tm.ZERO)
                goal = tm.not_(goal) if neg else goal
                if goal is tm.TRUE:
                    self.used.add("ring-normaliser")
                    return True
                hs = orc.h + self.sum_facts(orc, goal, d) + self.canon_hyps(orc, nf)
                r2, m2 = smt.check(TR, hs, [tm.not_(goal)], ms=4000, want_model=True, pairs=True)
                if r2 == "unsat":
                    self.used.add("z3")
                    return True
                m = m or m2
                if self.sign_rule(orc, nf, dd.num if sgn > 0 else P.pscale(dd.num, -1), lit, neg, d):
                    self.used.add("sign-rule")
                    return True
                if smt.check_cvc5(TR, hs, [tm.not_(goal)], ms=5000) == "unsat":
                    self.used.add("cvc5")
                    return True
            elif den and d < 20:
                return self.split(orc, den[0], g, d + 3)
            if ws and d < 20:
                w = min(ws, key=size)
                return self.split(orc, w, g, d + 3)
        else:
            hs = orc.h + self.sum_facts(orc, g, d)
            r2, m2 = smt.check(TR, hs, [tm.not_(g)], ms=4000, want_model=True, pairs=True)
            if r2 == "unsat":
                self.used.add("z3")
                return True
            m = m or m2
        self.note(orc, g, r, m)
        return False

    def canon_hyps(self, orc, nf):
        out = []
        for h in orc.h:
            neg = h.op == "not"
            l = h.args[0] if neg else h
            if l.op in ("lt", "eq") and l.args[0].sort == "R" and not has_ite(l) \
                    and l.args[0].op != "inf" and l.args[1].op != "inf":
                try:
                    dd = nf.rred(radd(nf.nf(l.args[1]), rscale(nf.nf(l.args[0]), -1)))
                except (TooBig, ZeroDivisionError):
                    continue
                if dd.den or len(dd.num) > 40:
                    continue
                n = nf.poly_term(dd.num)
                c = tm.lt(tm.ZERO, n) if l.op == "lt" else tm.eq(tm.ZERO, n)
                out.append(tm.not_(c) if neg else c)
        return out

    def sign_rule(self, orc, nf, p, lit, neg, d):
        """0 < p / not(p > 0) by monomial-wise signs and factorisation"""
        if lit.op != "lt" or d > 28:
            return False
        want = "neg" if neg else "pos"     # prove p <= 0 or p > 0
        q = P.pscale(p, -1) if neg else p
        # factor out
        c, pr = P.primitive(q)
        mc = P.mono_content(pr) if pr else ()
        fs = []
        rest = P.pdiv_mono(pr, mc) if mc else pr
        for i, e in mc:
            fs.append((nf.ids[i], e))
        try:
            sf = nf.sqf(rest) if not P.is_const(rest) else []
        except Exception:
            return False
        if len(fs) + len(sf) <= 1 and not any(e > 1 for _, e in fs) and not any(e > 1 for _, e in sf):
            return False
        s = 1 if c > 0 else -1
        for t, e in fs + [(nf.poly_term(f), e) for f, e in sf]:
            if e % 2 == 0:
                if not neg and not self.quiet(orc, tm.ne(t, tm.ZERO), d + 4):
                    return False
                continue
            lo = tm.lt if not neg else tm.le
            if self.quiet(orc, lo(tm.ZERO, t), d + 4):
                continue
            if self.quiet(orc, lo(t, tm.ZERO), d + 4):
                s = -s
                continue
            return False
        return s > 0

    def quiet(self, orc, g, d):
        if orc.entails(g):
            self.used.add("z3")
            return True
        if d > 26:
            return False
        f, m = self.fail, self.model
        r = self._prove(orc, g, d + 8)
        if not r:
            self.fail, self.model = f, m
        return r


def prove(hyps, goal, seconds=60, trace=False):
    p = Prover(seconds, trace)
    ok = p.prove(hyps, goal)
    return ok, p


def satisfiable(hyps, ms=3000):
    return smt.check(TR, hyps, [], ms=ms)[0]
