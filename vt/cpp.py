"""Symbolic execution of the CPU kernels of /repo/pytorch3d/csrc.

The real sources are parsed by clang on every run (JSON AST); this module
executes that AST on symbolic scalars and SymTensors.  Nothing of the kernels is
copied or rewritten.  Loops with a symbolic trip count are not unrolled: the
body is executed once, at an arbitrary iteration k, from a state in which every
variable and array written by the loop is unknown; the loop summary is an
inductive invariant read off that execution:

  v(k+1) = v(k) + d(k)            ->  v(k) = v(0) + sum_{t<k} d(t)
  v(k+1) = v(k) * r(k)            ->  v(k) = v(0) * prod_{t<k} r(t)
  v(k+1) = c(k) ? x(k) : v(k)     ->  last write (unique k, or quantified fact)
  v(k+1) = min(v(k), d(k))        ->  minimum, with its position

base and step hold by construction (the matched recurrence *is* the executed
body).  A loop that matches no form raises Unsupported (the contract is then
reported as not proved, never as proved).

Trusted: clang's AST, this interpreter, the contracts of the C++ standard
library and ATen entities in `LIB`, and reading float/int as real/integer.
"""
import json
import os
import re
import subprocess
import sys
import tempfile
from fractions import Fraction
import torch
from . import term as tm
from . import symt
from .term import T
from .sess import S, Session, Unsupported, mkint, mkreal, mkbool, dimT, scalar_term

TRUE, FALSE = tm.TRUE, tm.FALSE
I0, I1 = tm.num(0, "I"), tm.num(1, "I")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
FMAX = "FLT_MAX"
USED = set()              # names of the C++ functions executed


def fmax():
    return tm.var(FMAX)


def isfmax(t):
    return t.op == "var" and t.args[0] == FMAX


# ------------------------------------------------------------------ parsing
def nonneg(t):
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "add":
        return all(nonneg(a) for a in t.args)
    if t.op == "mul":
        a = list(t.args)
        while a:
            x = a.pop()
            if x in a:
                a.remove(x)
            elif not nonneg(x):
                return False
        return True
    return t.op in ("sqrt", "exp", "abs")


def never_zero(c):
    """c asks whether a sum of a positive number and non-negative terms is zero"""
    if c.op != "eq":
        return False
    for z, t in (c.args, c.args[::-1]):
        if z.op == "num" and t.op == "add" and z.args[0] <= 0:
            return all(nonneg(a) for a in t.args) and any(a.op == "num" and a.args[0] > 0 for a in t.args)
    return False


class Module:
    def __init__(self, ast, path):
        self.path = path
        self.decl = {}
        self.globals = {}
        self.records = {}
        self.lib = set()
        self._walk(ast, "", False)

    def _walk(self, n, ns, intpl):
        for d in n.get("inner", ()):
            k = d.get("kind")
            if "id" in d and k and k.endswith("Decl"):
                if d["id"] not in self.decl or "inner" in d:
                    self.decl[d["id"]] = d
                d["_ns"] = ns
            if k in ("NamespaceDecl",):
                self._walk(d, d.get("name", "") if d.get("name") else ns, intpl)
            elif k in ("FunctionTemplateDecl", "ClassTemplateDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl",
                       "FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "LinkageSpecDecl", "ClassTemplatePartialSpecializationDecl",
                       "CXXConversionDecl"):
                if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and d.get("completeDefinition"):
                    self.records.setdefault(d.get("name"), []).append(d)
                    d["_rec"] = True
                if k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "FunctionDecl"):
                    d["_cls"] = n.get("name") if n.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") else \
                        n.get("_cls")
                if k == "FunctionTemplateDecl" and n.get("kind") in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                    d["_cls"] = n.get("name")
                self._walk(d, ns, intpl)
            elif k == "VarDecl" and n.get("kind") in ("TranslationUnitDecl", "NamespaceDecl"):
                self.globals[d["id"]] = d


_MODS = {}


def repo_csrc():
    return os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pytorch3d", "csrc")


def parse(src_text, csrc, inc=None):
    with tempfile.NamedTemporaryFile("w", suffix=".cpp", delete=False) as f:
        f.write(src_text)
    try:
        p = subprocess.run(
            ["clang++", "-fsyntax-only", "-std=c++17", "-nostdinc", "-nostdinc++", "-w", "-include",
             os.path.join(csrc, "utils/pytorch3d_cutils.h"), "-I", os.path.join(HERE, "cpp", "include"), "-I", csrc]
            + (["-I", os.path.join(csrc, inc)] if inc else []) +
            ["-Xclang", "-ast-dump=json", f.name], capture_output=True, text=True, timeout=120)
        errs = [x for x in p.stderr.splitlines() if "error" in x]
        if errs:
            raise Unsupported("clang: " + errs[0][:200])
        return json.loads(p.stdout)
    finally:
        os.unlink(f.name)


class Program:
    """all CPU kernels of the tree"""

    def __init__(self, csrc):
        self.csrc = csrc
        self.mods = {}
        self.fn = {}           # name -> file
        self.binding = None
        txt = {}
        for d, _, fs in os.walk(csrc):
            if "pulsar" in d:
                continue
            for f in sorted(fs):
                if f.endswith((".h", ".cpp")) and not f.startswith("ext"):
                    p = os.path.join(d, f)
                    txt[p] = open(p, errors="replace").read()
        self.txt = txt
        ext = open(os.path.join(csrc, "ext.cpp")).read()
        self.binding = dict(re.findall(r'm\.def\(\s*"(\w+)"\s*,\s*&?\s*(\w+)\s*\)', ext))

    def module(self, rel):
        m = self.mods.get(rel)
        if m is None:
            m = Module(parse(f'#include "{rel}"\n', self.csrc, os.path.dirname(rel)), rel)
            self.mods[rel] = m
        return m

    def find(self, name):
        """(module, FunctionDecl with body)"""
        r = self.fn.get(name)
        if r is not None:
            return r
        cands = [p for p, t in self.txt.items() if re.search(r"\b" + re.escape(name) + r"\s*\(", t)]
        cands.sort(key=lambda p: (not p.endswith("_cpu.cpp"), not p.endswith(".h"), p))
        err = None
        for p in cands:
            if not re.search(r"\b" + re.escape(name) + r"\s*\([^;{}]*\)\s*(const\s*)?\{", self.txt[p]):
                continue
            try:
                m = self.module(os.path.relpath(p, self.csrc))
            except Unsupported as e:
                err = e
                continue
            for d in m.decl.values():
                if d.get("kind") == "FunctionDecl" and d.get("name") == name and body_of(d) is not None and \
                        not is_pattern(d, m):
                    self.fn[name] = (m, d)
                    return m, d
        if err:
            raise err
        raise Unsupported(f"no definition of {name} in csrc")


def body_of(d):
    for x in d.get("inner", ()):
        if x.get("kind") == "CompoundStmt":
            return x
    return None


def is_pattern(d, m):
    return "mangledName" not in d and d.get("kind") != "CXXConstructorDecl"


_PROG = {}


def program():
    c = repo_csrc()
    if c not in _PROG:
        _PROG[c] = Program(c)
    return _PROG[c]


# ------------------------------------------------------------------ values
class Cell:
    __slots__ = ("val", "glen", "key", "typ", "ip", "order")
    N = 0

    def __init__(self, ip, val=None, typ=None, key=None):
        Cell.N += 1
        self.order = Cell.N
        self.val, self.typ, self.ip = val, typ, ip
        self.glen = len(ip.G)
        self.key = key
        if key is not None:
            ip.live[key] = self

    def get(self):
        if self.val is None:
            raise Unsupported("read of an uninitialised variable")
        return self.val

    def set(self, v):
        ip, old = self.ip, self.val
        g = tm.and_(*ip.G[self.glen:]) if len(ip.G) > self.glen else TRUE
        if g is not TRUE and old is not None:
            v = merge(ip, g, v, old)
            if v is old:
                return
        ip.journal.append((self, old))
        self.val = v


def merge(ip, g, new, old):
    if isinstance(new, T) and isinstance(old, T):
        return tm.ite(g, new, old)
    if isinstance(new, Obj) and isinstance(old, Obj):
        o = Obj(old.cls)
        for k in old.f:
            o.f[k] = Cell(ip, merge(ip, g, new.f[k].val, old.f[k].val))
        return o
    if isinstance(new, Tup) and isinstance(old, Tup):
        return Tup([Cell(ip, merge(ip, g, a.get(), b.get())) for a, b in zip(new.xs, old.xs)])
    if new is old:
        return old
    if old is None:
        return new
    if new is None:
        return old
    raise Unsupported(f"conditional assignment of {type(new).__name__}")


class Obj:
    """struct instance"""

    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def copy(self, ip):
        o = Obj(self.cls)
        for k, c in self.f.items():
            o.f[k] = Cell(ip, copyval(ip, c.val), c.typ)
        return o


class Tup:
    def __init__(self, xs):
        self.xs = xs           # lvalues

    def copy(self, ip):
        return Tup([Cell(ip, copyval(ip, x.get())) for x in self.xs])


def copyval(ip, v):
    if isinstance(v, (Obj, Tup, Arr)):
        return v.copy(ip)
    if isinstance(v, Vec):
        return v.copy(ip)
    return v


class Arr:
    """fixed array"""

    def __init__(self, xs):
        self.xs = xs

    def copy(self, ip):
        return Arr([Cell(ip, copyval(ip, x.val)) for x in self.xs])


class Ten:
    """at::Tensor handle (shared storage)"""

    def __init__(self, st):
        self.st = st

    def dims(self):
        return self.st.shape


class Acc:
    def __init__(self, ten, idx):
        self.ten, self.idx = ten, idx


class Elem:
    """element reference of an accessor / vector"""

    def __init__(self, ip, st, idx):
        self.ip, self.st, self.idx = ip, st, idx

    def get(self):
        return self.st.elem(self.idx)

    def set(self, v):
        ip, st, idx = self.ip, self.st, self.idx
        s = st._s
        gl = ip.tglen.get(id(s), 0)
        g = tm.and_(*ip.G[gl:]) if len(ip.G) > gl else TRUE
        v = symt.cast(v, st.dtype)
        ip.journal.append((s, s.fn))
        ip.keep.append(s)
        inner = idx

        def cond(i):
            return tm.and_(g, *[tm.eq(a, b) for a, b in zip(i, inner)])
        if st._to is None:
            old = s.fn

            def fn(i):
                c = cond(i)
                if c is FALSE:
                    return old(i)
                return v if c is TRUE else tm.ite(c, v, old(i))
            s.fn = symt.memo(fn)
        else:
            st._write(lambda i: v, cond)


class Ptr:
    """pointer to a cell-like lvalue, or into a tensor's flat data"""

    def __init__(self, lv=None, st=None, off=None):
        self.lv, self.st, self.off = lv, st, off


class Vec:
    """std::vector of scalars (symbolic length) or of Python-held cells (known length)"""

    def __init__(self, ip, st=None, items=None, sort=None, key=None):
        self.ip, self.st, self.items, self.sort = ip, st, items, sort

    def copy(self, ip):
        if self.items is not None:
            return Vec(ip, items=[Cell(ip, copyval(ip, c.val)) for c in self.items], sort=self.sort)
        return Vec(ip, st=self.st.clone(), sort=self.sort)


class It:
    def __init__(self, vec, pos):
        self.vec, self.pos = vec, pos


class Clo:
    def __init__(self, decl, env, this):
        self.decl, self.env, self.this = decl, env, this


class Opt:
    def __init__(self, dtype):
        self.dtype = dtype


class Tag:
    def __init__(self, v):
        self.v = v


class Frame:
    def __init__(self, ip, this=None):
        self.glen = len(ip.G)
        self.ret = None
        self.returned = FALSE
        self.this = this
        self.isref = False


def tyname(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


INTS = {"int", "long", "unsigned int", "unsigned long", "char", "signed char", "unsigned char", "short", "long long",
        "unsigned long long", "unsigned short"}


def strip_t(s):
    s = re.sub(r"\b(const|volatile|struct|class)\b", "", s)
    return s.replace("&", "").strip()


def sort_of(s):
    s = strip_t(s)
    if s in INTS or s in ("int64_t", "int32_t", "size_t", "uint8_t", "ptrdiff_t"):
        return "I"
    if s in ("float", "double", "long double"):
        return "R"
    if s == "bool":
        return "B"
    return None


def b2i(t):
    return tm.ite(t, I1, I0) if t.sort == "B" else t


def num_t(t):
    return b2i(t)


def trunc(t):
    """C float->int conversion"""
    if t.sort != "R":
        return t
    if t.op == "num":
        return tm.num(int(t.args[0]), "I")
    f = tm.floor(t)
    if f.sort != "I":
        f = tm.to_int(f)
    if tm.eq(tm.to_real(f), t) is TRUE:
        return f
    if tm.le(tm.num(0), t) is TRUE or S().decide(tm.le(tm.num(0), t)):
        return f
    return tm.ite(tm.le(tm.num(0), t), f, tm.neg(tm.to_int(tm.floor(tm.neg(t)))))


DT = {"kFloat": torch.float32, "kFloat32": torch.float32, "kFloat64": torch.float64, "kDouble": torch.float64, "kInt": torch.int32,
      "kInt32": torch.int32, "kInt64": torch.int64, "kLong": torch.int64, "kBool": torch.bool, "kUInt8": torch.uint8,
      "kByte": torch.uint8}


class _Abort(Exception):
    pass


class Interp:
    def __init__(self, prog, stubs=None):
        self.prog = prog
        self.G = []            # guards in force
        self.journal = []      # undo log
        self.live = {}         # key -> newest cell
        self.keep = []
        self.tglen = {}        # storage -> guard depth at creation
        self.tkey = {}         # storage id -> creation key
        self.tlive = {}        # creation key -> storage
        self.loops = []        # symbolic loops being executed
        self.written = {}      # loop id -> (cell keys, storage keys)
        self.mod = None
        self.env = {}
        self.frame = None
        self.stack = ()
        self.stubs = stubs or {}
        self.genv = {}
        self.ncreate = 0

    # ---------------------------------------------------------- utilities
    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if intish(c):
            g = tm.and_(*self.G) if self.G else TRUE
            if S().entails(tm.implies(g, c)):
                return True
            if S().entails(tm.implies(g, tm.not_(c))):
                return False
        return None

    def symbolic(self):
        return bool(self.loops or self.G)

    def error(self, msg):
        """reached an error exit under the current guards"""
        g = tm.and_(*self.G) if self.G else TRUE
        if g is TRUE and not self.loops:
            raise RuntimeError(msg)
        if S().entails(tm.not_(g)) or any(never_zero(x) for x in self.G):
            return
        raise Unsupported("possible C++ error exit inside a loop: " + msg)

    # ---------------------------------------------------------- calls
    def call_name(self, name, args):
        m, d = self.prog.find(name)
        return self.call_decl(m, d, args)

    def call_decl(self, m, d, args, env=None, this=None):
        """args: lvalues or values (Cell/Elem for references)"""
        name = d.get("name", "")
        cls = d.get("_cls")
        st = self.stubs.get(name)
        if st is not None:
            return st(self, d, [a.get() if isinstance(a, (Cell, Elem)) else a for a in args])
        USED.add(f"{m.path}:{(cls + '::') if cls else ''}{name}")
        if len(self.stack) > 60:
            raise Unsupported("recursion in C++")
        save = self.mod, self.env, self.frame, self.stack
        self.mod = m
        self.env = dict(env) if env is not None else {}
        self.stack = self.stack + (d["id"],)
        fr = Frame(self, this)
        rt = (d.get("type", {}).get("qualType", "")).split("(")[0].strip()
        fr.isref = rt.endswith("&") and not rt.endswith("&&")
        try:
            ps = [p for p in d.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
            for p, a in zip(ps, args):
                t = tyname(p)
                if t.rstrip().endswith("&") and isinstance(a, (Cell, Elem)):
                    self.env[p["id"]] = a
                else:
                    v = a.get() if isinstance(a, (Cell, Elem)) else a
                    v = copyval(self, v)
                    if isinstance(v, T):
                        v = self.conv(v, t)
                    self.env[p["id"]] = Cell(self, v, t, key=(self.stack, p["id"]))
            for p in ps[len(args):]:
                ini = [x for x in p.get("inner", ()) if "valueCategory" in x]
                if not ini:
                    raise Unsupported("missing argument in a C++ call")
                self.env[p["id"]] = Cell(self, self.ev(ini[0]), tyname(p), key=(self.stack, p["id"]))
            self.frame = fr
            if d["kind"] == "CXXConstructorDecl":
                for x in d.get("inner", ()):
                    if x.get("kind") == "CXXCtorInitializer" and "anyInit" in x:
                        fn = x["anyInit"]["name"]
                        v = self.ev(x["inner"][0])
                        ft = x["anyInit"]["type"].get("qualType", "")
                        if ft.rstrip().endswith("&"):
                            this.f[fn] = self.lv(x["inner"][0])
                        else:
                            if isinstance(v, T):
                                v = self.conv(v, ft)
                            this.f[fn] = Cell(self, copyval(self, v), ft)
            n0 = len(self.G)
            b = body_of(d)
            if b is None:
                raise Unsupported(f"C++ function without body: {name}")
            self.ex(b)
            del self.G[n0:]
            return fr.ret
        finally:
            self.mod, self.env, self.frame, self.stack = save

    def conv(self, v, t):
        s = sort_of(t)
        if s is None or not isinstance(v, T) or v.sort == s:
            return v
        if s == "R":
            return tm.to_real(num_t(v))
        if s == "I":
            return trunc(num_t(v))
        return tm.ne(v, tm.num(0, v.sort))

    # ---------------------------------------------------------- statements
    def ex(self, n):
        """execute; -> condition under which control falls through"""
        k = n.get("kind")
        f = getattr(self, "ex_" + k, None) if k else None
        if f is not None:
            return f(n)
        if k is None:
            return TRUE
        if "valueCategory" in n:
            self.effect(n)
            return TRUE
        raise Unsupported("C++ statement " + k)

    def effect(self, n):
        if n.get("valueCategory") == "lvalue":
            try:
                self.lv(n)
                return
            except _Abort:
                pass
        self.ev(n)

    def ex_CompoundStmt(self, n):
        alive, pushed = TRUE, len(self.G)
        for s in n.get("inner", ()):
            a = self.ex(s)
            if a is FALSE:
                alive = FALSE
                break
            if a is not TRUE:
                self.G.append(a)
                alive = tm.and_(alive, a)
        del self.G[pushed:]
        return alive

    def ex_NullStmt(self, n):
        return TRUE

    def ex_DeclStmt(self, n):
        for d in n.get("inner", ()):
            if d.get("kind") == "VarDecl":
                self.declare(d)
            elif d.get("kind") in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl",
                                   "CXXRecordDecl", "EmptyDecl", "UsingShadowDecl"):
                if d.get("kind") == "CXXRecordDecl":
                    self.mod.records.setdefault(d.get("name"), []).append(d)
            else:
                raise Unsupported("C++ declaration " + str(d.get("kind")))
        return TRUE

    def declare(self, d):
        t = tyname(d)
        ini = [x for x in d.get("inner", ()) if "valueCategory" in x or x.get("kind") in ("ExprWithCleanups",)]
        key = (self.stack, d["id"])
        if not ini:
            self.env[d["id"]] = Cell(self, self.default(t, key), t, key=key)
            return
        e = ini[-1]
        if t.rstrip().endswith("&") or t.rstrip().endswith("&&"):
            r = self.lv(e, temp=True)
            self.env[d["id"]] = r
            return
        self.creating = key
        v = copyval(self, self.ev(e))
        if isinstance(v, T):
            v = self.conv(v, t)
        self.env[d["id"]] = Cell(self, v, t, key=key)
        self.reg(v, key)

    def reg(self, v, key):
        """register storages created here, for loop-carried bookkeeping"""
        if isinstance(v, Ten):
            s = v.st._s
            if id(s) not in self.tkey:
                self.tkey[id(s)] = key
                self.tglen.setdefault(id(s), len(self.G))
            if self.tkey[id(s)] == key:
                self.tlive[key] = v.st
            self.keep.append(s)
        elif isinstance(v, Vec) and v.st is not None:
            self.reg(Ten(v.st), key)
        elif isinstance(v, (Obj,)):
            for k, c in v.f.items():
                c.key = key + (k,)
                self.live[c.key] = c
        elif isinstance(v, (Tup, Arr)):
            for k, c in enumerate(v.xs):
                if isinstance(c, Cell):
                    c.key = key + (k,)
                    self.live[c.key] = c
        elif isinstance(v, Vec) and v.items is not None:
            for k, c in enumerate(v.items):
                c.key = key + (k,)
                self.live[c.key] = c

    def default(self, t, key=None):
        s = strip_t(t)
        if sort_of(s) or s.endswith("*"):
            return None
        m = re.match(r"(.*)\[(\d+)\]$", s)
        if m:
            return Arr([Cell(self, self.default(m.group(1).strip())) for _ in range(int(m.group(2)))])
        return self.construct(s, [], None)

    def ex_ReturnStmt(self, n):
        fr = self.frame
        inner = n.get("inner", ())
        if inner:
            v = self.lv(inner[0], temp=True) if fr.isref else copyval(self, self.ev(inner[0]))
            g = tm.and_(*self.G[fr.glen:]) if len(self.G) > fr.glen else TRUE
            if fr.ret is None or g is TRUE:
                fr.ret = v
            elif fr.isref:
                if v is not fr.ret:
                    raise Unsupported("conditional return of references")
            else:
                fr.ret = merge(self, g, v, fr.ret)
        g = tm.and_(*self.G[fr.glen:]) if len(self.G) > fr.glen else TRUE
        fr.returned = tm.or_(fr.returned, g)
        return FALSE

    def ex_IfStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0))
        if n.get("hasVar"):
            inner.pop(0)
        c = self.ev(inner[0])
        c = self.conv(c, "bool")
        th, el = inner[1], (inner[2] if len(inner) > 2 else None)
        r = self.decide(c)
        if r is None and not self.symbolic():
            r = S().branch(c)
        if r is True:
            return self.ex(th)
        if r is False:
            return self.ex(el) if el is not None else TRUE
        self.G.append(c)
        a = self.ex(th)
        self.G.pop()
        b = TRUE
        if el is not None:
            self.G.append(tm.not_(c))
            b = self.ex(el)
            self.G.pop()
        if a is TRUE and b is TRUE:
            return TRUE
        return tm.and_(tm.or_(tm.not_(c), a), tm.or_(c, b))

    def ex_BreakStmt(self, n):
        L = self.lctx[-1]
        L["broken"] = tm.or_(L["broken"], tm.and_(*self.G[L["glen"]:]) if len(self.G) > L["glen"] else TRUE)
        return FALSE

    def ex_ContinueStmt(self, n):
        return FALSE

    lctx = ()

    def ex_ForStmt(self, n):
        init, var, cond, inc, body = n["inner"]
        if init:
            self.ex(init)
        return self.loop(n["id"], cond or None, inc or None, body)

    def ex_WhileStmt(self, n):
        inner = n["inner"]
        return self.loop(n["id"], inner[-2], None, inner[-1])

    def ex_DoStmt(self, n):
        body, cond = n["inner"]
        a = self.ex(body)
        if a is not TRUE:
            raise Unsupported("early exit from a do loop")
        return self.loop(n["id"], cond, None, body)

    def ex_CXXForRangeStmt(self, n):
        # inner: [init?, range decl, begin decl, end decl, cond, inc, loop var decl, body]
        inner = [x for x in n["inner"] if x]
        rng = inner[0]
        self.ex(rng)
        rv = rng["inner"][0]
        v = self.env[rv["id"]]
        v = v.get() if isinstance(v, Cell) else v
        dv = inner[-2]["inner"][0]
        body = inner[-1]
        if isinstance(v, Vec) and v.items is not None:
            xs = v.items
        elif isinstance(v, Arr):
            xs = v.xs
        elif isinstance(v, Obj) and "_d" in v.f:
            xs = v.f["_d"].get().xs
        else:
            raise Unsupported("range-for over " + type(v).__name__)
        ref = tyname(dv).rstrip().endswith("&")
        n0 = len(self.G)
        fr0 = self.frame.returned
        L = dict(broken=FALSE, glen=n0)
        self.lctx = list(self.lctx) + [L]
        for x in list(xs):
            self.env[dv["id"]] = x if ref else Cell(self, copyval(self, x.get()), tyname(dv), key=(self.stack, dv["id"]))
            L["glen"] = len(self.G)
            L["broken"] = FALSE
            r0 = self.frame.returned
            self.ex(body)
            self.exits(L, r0)
            if self.G[n0:] and self.G[-1] is FALSE:
                break
        self.lctx = self.lctx[:-1]
        del self.G[n0:]
        return self.alive_after(fr0)

    def exits(self, L, r0):
        """after one unrolled iteration: guard the rest by 'not left'"""
        if L["broken"] is not FALSE:
            self.G.append(tm.not_(L["broken"]))
        if self.frame.returned is not r0:
            g = tm.not_(self.frame.returned)
            self.G.append(g)

    def alive_after(self, r0):
        if self.frame.returned is r0:
            return TRUE
        return tm.not_(self.frame.returned)

    # ---------------------------------------------------------- loops
    def loop(self, lid, cond, inc, body):
        n0 = len(self.G)
        r0 = self.frame.returned
        L = dict(broken=FALSE, glen=n0)
        self.lctx = list(self.lctx) + [L]
        try:
            it = 0
            while True:
                ops = self.cond_operands(cond)
                if ops is None:
                    c = self.conv(self.ev(cond), "bool") if cond else TRUE
                    numeric = c in (TRUE, FALSE)
                else:
                    op, a, b = ops
                    c = CMP[op](a, b)
                    numeric = a.op == "num" and b.op == "num"
                if numeric and (c is FALSE):
                    break
                if not numeric:
                    d = self.decide(c) if it else None
                    if d is False:
                        break
                    if it and len(self.G) > n0:
                        raise Unsupported("symbolic loop after an early exit")
                    if not self.symbolic_loop(lid, cond, inc, body, ops, c):
                        raise Unsupported("loop without a summary")
                    break
                it += 1
                if it > 80:
                    raise Unsupported("loop too long to unroll")
                L["glen"] = len(self.G)
                L["broken"] = FALSE
                q0 = self.frame.returned
                self.ex(body)
                self.exits(L, q0)
                if len(self.G) > n0 and self.G[-1] is FALSE:
                    break
                if inc:
                    self.effect(inc)
            del self.G[n0:]
        finally:
            self.lctx = self.lctx[:-1]
        return self.alive_after(r0)

    def cond_operands(self, cond):
        n = cond
        while n and n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            n = n["inner"][0]
        if n and n.get("kind") == "BinaryOperator" and n.get("opcode") in ("<", "<=", ">", ">=", "!="):
            a, b = self.ev(n["inner"][0]), self.ev(n["inner"][1])
            if isinstance(a, T) and isinstance(b, T):
                a, b = num_t(a), num_t(b)
                a, b = tm.unify(a, b)
                return n["opcode"], a, b
        return None

    def snapshot(self):
        return len(self.journal), dict(self.env), dict(self.live), dict(self.tlive), self.frame.ret, self.frame.returned

    def rollback(self, s):
        j, env, live, tlive, ret, retd = s
        while len(self.journal) > j:
            o, old = self.journal.pop()
            if isinstance(o, Cell):
                o.val = old
            elif isinstance(o, symt.Storage):
                o.fn = old
            else:
                o.undo(old)
        self.env, self.live, self.tlive = env, live, tlive
        self.frame.ret, self.frame.returned = ret, retd

    def skey(self, s):
        return self.tkey.get(id(s), ("obj", id(s)))

    def symbolic_loop(self, lid, cond, inc, body, ops, c0):
        if ops is None:
            raise Unsupported("loop condition is not a comparison")
        wid = (self.stack, lid)
        wc, ws = self.written.get(wid, (set(), set()))
        k = tm.fresh("it", "I")
        closed = {}
        for attempt in range(6):
            snap = self.snapshot()
            pre_cells = {key: c for key, c in self.live.items()}
            st_ok, res = self.pass_(k, wc, ws, closed, cond, inc, body, lid)
            wc2, ws2 = res["wc"], res["ws"]
            self.rollback(snap)
            if not (wc2 <= wc and ws2 <= ws):
                wc, ws = wc | wc2, ws | ws2
                self.written[wid] = (wc, ws)
                continue
            if res["exit"]:
                raise Unsupported("early exit from a loop with symbolic bounds")
            sol = self.solve(k, res, closed)
            if sol is None:
                continue           # closed was extended: run again
            self.finish(k, sol, res)
            return True
        raise Unsupported("loop summary did not converge")

    def pass_(self, k, wc, ws, closed, cond, inc, body, lid):
        """one execution of the loop body from an arbitrary iteration k"""
        hav, sth, ptrs = {}, {}, {}
        pre_env = set(id(c) for c in self.live.values())
        order0 = Cell.N
        for key in wc:
            c = self.live.get(key)
            ptr = None
            if c is not None and isinstance(c.val, Ptr) and c.val.st is not None:
                ptr = ptrs[key] = c.val.st          # a pointer into one tensor is carried as its offset
            if c is None or not isinstance(c.val, T) and ptr is None:
                if c is not None and c.val is not None:
                    raise Unsupported("loop-carried " + type(c.val).__name__)
                continue
            x = closed.get(key)
            init = c.val if ptr is None else c.val.off
            if x is None:
                x = tm.fresh("lv", init.sort)
            else:
                x = x(k)
            hav[key] = (c, init, x)
            self.journal.append((c, c.val))
            c.val = x if ptr is None else Ptr(st=ptr, off=x)
        for key in ws:
            st = self.tlive.get(key) if key[0] != "obj" else None
            s = st._s if st is not None else self.objs.get(key)
            if s is None:
                continue
            nm = tm.fresh("arr", "I").args[0]
            init = s.fn
            srt = symt.SORT[symt.cat(self.sdtype[id(s)])] if id(s) in self.sdtype else None
            if srt is None:
                srt = symt.SORT[symt.cat(st.dtype)]
            sth[key] = (s, init, nm, srt)
            self.journal.append((s, s.fn))
            s.fn = symt.memo(lambda i, nm=nm, srt=srt: tm.app(nm, i, srt))
        mark = len(self.journal)
        sess = S()
        h0 = len(sess.hyps)
        self.loops.append(lid)
        G0 = len(self.G)
        L = dict(broken=FALSE, glen=G0)
        self.lctx = list(self.lctx) + [L]
        r0 = self.frame.returned
        try:
            sess.hyps.append(tm.le(I0, k)); sess._orc = None
            op, a, b = self.cond_operands(cond)
            cc = CMP[op](a, b)
            # the iteration happens
            if cc is not TRUE:
                sess.hyps.append(cc); sess._orc = None
            if cc is FALSE:
                raise Unsupported("loop condition false in the havocked state")
            self.ex(body)
            del self.G[G0:]
            if inc:
                self.effect(inc)
            for key, st in ptrs.items():
                v = hav[key][0].val
                if not isinstance(v, Ptr) or v.st is not st:
                    raise Unsupported("loop-carried pointer changes its target")
            out = {key: (c, init, x, c.val.off if key in ptrs else c.val) for key, (c, init, x) in hav.items()}
            outs = {}
            for key, (s, init, nm, srt) in sth.items():
                outs[key] = (s, init, nm, srt, s.fn)
            wc2, ws2 = set(), set()
            for o, old in self.journal[mark:]:
                if isinstance(o, Cell):
                    if o.order <= order0:
                        if o.key is None:
                            raise Unsupported("loop writes an anonymous variable")
                        wc2.add(o.key)
                elif isinstance(o, symt.Storage):
                    if id(o) in self.born and self.born[id(o)] > order0:
                        continue
                    kk = self.skey(o)
                    if kk[0] == "obj":
                        self.objs[kk] = o
                    ws2.add(kk)
                else:
                    raise Unsupported("loop changes a container")
            return True, dict(wc=wc2, ws=ws2, cells=out, st=outs, cond=(op, a, b),
                              exit=L["broken"] is not FALSE or self.frame.returned is not r0, hav=hav, ptrs=ptrs)
        finally:
            del sess.hyps[h0:]
            sess._orc = None
            self.loops.pop()
            del self.G[G0:]
            self.lctx = self.lctx[:-1]

    @property
    def objs(self):
        return self.__dict__.setdefault("_objs", {})

    @property
    def sdtype(self):
        return self.__dict__.setdefault("_sdt", {})

    @property
    def born(self):
        return self.__dict__.setdefault("_born", {})

    def note_storage(self, st):
        """tensor created or seen by the kernel"""
        s = st._s
        self.sdtype[id(s)] = st.dtype
        self.keep.append(s)
        return st

    def created(self, st, elem_dtype=None):
        self.note_storage(st)
        Cell.N += 1
        self.born[id(st._s)] = Cell.N
        self.tglen[id(st._s)] = len(self.G)
        return st

    # ---------------------------------------------------------- solving recurrences
    def solve(self, k, res, closed):
        cells, sts = res["cells"], res["st"]
        unk = {}
        for key, (c, init, x, e) in cells.items():
            if key not in closed:
                unk[x] = key
        names = {nm: key for key, (s, init, nm, srt, fn) in sts.items()}
        # 1. integer induction variables first: need them to know the trip count
        new = False
        for key, (c, init, x, e) in cells.items():
            if key in closed or e is None:
                continue
            d = tm.sub(e, x) if e.sort == x.sort else None
            if d is not None and d.op == "num" and x.sort in "IR":
                if d.args[0] == 0:
                    closed[key] = (lambda kk, init=init: init)
                else:
                    closed[key] = (lambda kk, init=init, d=d: tm.add(init, tm.mul(tm.to_real(kk) if init.sort == "R" else kk, d)))
                new = True
        if new:
            return None
        # verify closed forms
        for key, f in closed.items():
            if key in cells:
                c, init, x, e = cells[key]
                want = f(tm.add(k, I1))
                if tm.sub(e, want) is not I0 and not (tm.sub(e, want).op == "num" and tm.sub(e, want).args[0] == 0):
                    raise Unsupported("loop variable changed irregularly")
        # 2. trip count
        op, a, b = res["cond"]
        for t in (a, b):
            for v in tm.free_vars(t):
                if v in unk:
                    raise Unsupported("loop bound depends on loop-carried state")
            if any(mentions(t, nm) for nm in names):
                raise Unsupported("loop bound depends on written memory")
        gap = {"<": lambda: tm.sub(b, a), "<=": lambda: tm.add(tm.sub(b, a), I1), ">": lambda: tm.sub(a, b),
               ">=": lambda: tm.add(tm.sub(a, b), I1), "!=": lambda: tm.sub(b, a)}[op]()
        if gap.sort != "I":
            raise Unsupported("loop over non-integers")
        step = tm.sub(gap, tm.subst(gap, {k: tm.add(k, I1)}))
        if step.op != "num":
            raise Unsupported("loop with a varying step")
        g0 = tm.subst(gap, {k: I0})
        sv = step.args[0]
        if op == "!=" and sv == -1:
            g0, sv = tm.neg(g0), 1
        if sv <= 0:
            raise Unsupported("loop may not terminate")
        n = g0 if sv == 1 else tm.idiv(tm.add(g0, tm.num(sv - 1, "I")), tm.num(sv, "I"))
        if op == "!=" and not S().entails(tm.le(I0, n)):
            raise Unsupported("!= loop")
        # 3. resolve the other carried variables in dependency order
        solved = {}
        pend = dict(unk)
        guard = 0
        subs = {}
        arrs = {}
        pst = {key: v for key, v in sts.items()}
        pj = {}
        for key, (s, init, nm, srt, fn) in sts.items():
            r = self.rank_of(key, s)
            js = tuple(tm.fresh("j", "I") for _ in range(r))
            pj[key] = (js, fn(js))
        while (pend or pst) and guard < 40:
            guard += 1
            prog = False
            for x in list(pend):
                key = pend[x]
                c, init, _, e = cells[key]
                if subs:
                    e = tm.subst(e, subs)
                e = self.subst_arr(e, arrs)
                others = [v for v in tm.free_vars(e) if v in pend and v is not x]
                anames = [nm for key2, (_, _, nm, _, _) in pst.items() if mentions(e, nm)]
                if anames:
                    continue
                if others:
                    r = self.minpair(x, e, pend, cells, subs, k, n, init)
                    if r is None:
                        continue
                    for xx, f in r.items():
                        solved[pend.pop(xx)] = f
                        subs[xx] = f(k)
                    prog = True
                    break
                f = self.recur(x, e, k, n, init)
                if f is None:
                    raise Unsupported("loop recurrence not recognised: " + tm.show(e)[:200])
                solved[key] = f
                del pend[x]
                subs[x] = f(k)
                prog = True
            for key in list(pst):
                s, init, nm, srt, fn = pst[key]
                js, e = pj[key]
                if subs:
                    e = tm.subst(e, subs)
                e = self.subst_arr(e, arrs)
                if any(v in pend for v in tm.free_vars(e)):
                    continue
                if any(mentions(e, nm2) for key2, (_, _, nm2, _, _) in pst.items() if key2 != key):
                    continue
                X = tm.app(nm, js, srt)
                z = tm.fresh("cur", srt)
                e = own_element(e, nm, js, X)
                e2 = tm.subst(e, {X: z})
                if mentions(e2, nm):
                    if os.environ.get("VT_SHOW"):
                        print("OTHER", tm.show(X), "IN", tm.show(e)[:3000])
                    raise Unsupported("loop reads other elements of an array it writes")
                f = self.recur_arr(z, e2, js, k, n, init, srt, nm)
                solved[key] = f
                arrs[nm] = f(k)
                del pst[key]
                prog = True
            if not prog:
                # minimum with position: handle the pair jointly
                raise Unsupported("mutually dependent loop-carried variables")
        if pend or pst:
            raise Unsupported("loop-carried variables unresolved")
        return dict(n=n, solved=solved, subs=subs)

    def subst_arr(self, e, arrs):
        for nm, fn in arrs.items():
            if mentions(e, nm):
                e = map_app(e, nm, lambda idx: fn(idx))
        return e

    def rank_of(self, key, s):
        return len(s.shape)

    def nn(self, n):
        return n if (tm.le(I0, n) is TRUE or S().entails(tm.implies(tm.and_(*self.G), tm.le(I0, n)))) else \
            tm.ite(tm.lt(I0, n), n, I0)

    def recur(self, x, e, k, n, init):
        """scalar recurrence x' = e(x, k): closed form kk -> value before iteration kk"""
        d = delta(e, x)
        if d is not None:
            return lambda kk: tm.add(init, ksum(d, k, kk))
        r = ratio(e, x)
        if r is not None:
            return lambda kk: tm.mul(init, kprod(r, k, kk))
        if init.sort == "B":
            # conjunction / disjunction
            c = as_and(e, x)
            if c is not None:
                return lambda kk: tm.and_(init, kall(c, k, kk))
            c = as_or(e, x)
            if c is not None:
                return lambda kk: tm.or_(init, tm.not_(kall(tm.not_(c), k, kk)))
        if not dep(e, x):
            return lambda kk: tm.ite(tm.lt(I0, kk), tm.subst(e, {k: tm.sub(kk, I1)}), init)
        mm = as_min(e, x)
        if mm is not None:
            kind, dd, _ = mm
            op = "bmin" if kind == "min" else "bmax"

            def f(kk):
                m = tm.close_binder(op, k2 := tm.fresh("bv", "I"), I0, kk, tm.subst(dd, {k: k2}))
                if isfmax(init):
                    return tm.ite(tm.lt(I0, kk), m, init)
                r = tm.tmin(init, m) if kind == "min" else tm.tmax(init, m)
                return tm.ite(tm.lt(I0, kk), r, init)
            return f
        return None

    def minpair(self, x, e, pend, cells, subs, k, n, init):
        """e = companion (argmin) of some pending y with y' = min(y, d)"""
        for y in list(pend):
            if y is x:
                continue
            cy, iy, _, ey = cells[pend[y]]
            ey = tm.subst(ey, subs) if subs else ey
            if any(v in pend and v is not y for v in tm.free_vars(ey)):
                continue
            mm = as_min(ey, y)
            if mm is None:
                continue
            kind, d, guard = mm
            # e must be  ite(update?, v, x)
            r = as_companion(e, x, y, d, kind)
            if r is None:
                continue
            v, last = r
            if dep(v, y) or dep(v, x):
                continue
            fy = self.recur(y, ey, k, n, iy)

            def fx(kk):
                k2 = tm.fresh("bv", "I")
                sg = d if kind == "min" else tm.neg(d)
                if last:
                    p = tm.sub(tm.sub(kk, I1), tm.close_binder("bargmin", k2, I0, kk, tm.subst(sg, {k: tm.sub(tm.sub(kk, I1), k2)})))
                else:
                    p = tm.close_binder("bargmin", k2, I0, kk, tm.subst(sg, {k: k2}))
                vv = tm.subst(v, {k: p})
                if isfmax(iy):
                    return tm.ite(tm.lt(I0, kk), vv, init)
                b = tm.subst(d, {k: p})
                better = (tm.le(b, iy) if last else tm.lt(b, iy)) if kind == "min" else (tm.le(iy, b) if last else tm.lt(iy, b))
                return tm.ite(tm.and_(tm.lt(I0, kk), better), vv, init)
            return {y: fy, x: fx}
        return None

    def recur_arr(self, z, e, js, k, n, init, srt, nm):
        """array recurrence at a generic index js; -> kk -> (idx -> term)"""
        e = tm.subst(e, {tm.lt(k, I0): FALSE})         # iterations are counted from zero
        if e is z:
            return lambda kk: init
        d = delta(e, z) if srt in "IR" else None
        if d is not None:
            def f(kk):
                def g(idx):
                    m = dict(zip(js, idx))
                    return tm.add(init(idx), ksum(tm.subst(d, m), k, kk))
                return symt.memo(g)
            return f
        cv = as_set(e, z)
        if cv is not None:
            c, v = cv
            key = solve_for(c, k)
            if key is not None:
                k_, rest = key

                def f(kk):
                    def g(idx):
                        m = dict(zip(js, idx))
                        ks = tm.subst(k_, m)
                        cc = tm.and_(tm.le(I0, ks), tm.lt(ks, kk), tm.subst(tm.subst(rest, m), {k: ks}))
                        if cc is FALSE:
                            return init(idx)
                        vv = tm.subst(tm.subst(v, m), {k: ks})
                        return vv if cc is TRUE else tm.ite(cc, vv, init(idx))
                    return symt.memo(g)
                return f
            # not invertible: L(idx) is the last iteration that writes the element (-1: none)
            new = tm.fresh("last", "I").args[0]
            cache = set()

            def f(kk):
                def g(idx):
                    if any(tm.levels(t) for t in idx):
                        raise Unsupported("array written at data-dependent places, read under a binder")
                    m = dict(zip(js, idx))
                    used = [j for j in js if dep(c, j)]
                    L = tm.app(new, tuple(m[j] for j in used) + (kk,), "I")
                    ci, vi = tm.subst(c, m), tm.subst(v, m)
                    hit = tm.le(I0, L)
                    if L.id not in cache:
                        cache.add(L.id)
                        k1 = tm.fresh("bv", "I")
                        S().assume(tm.le(tm.num(-1, "I"), L))
                        S().assume(tm.lt(L, kk))
                        S().assume(tm.implies(hit, tm.subst(ci, {k: L})))
                        S().assume(tm.close_binder("ball", k1, I0, kk, tm.implies(tm.subst(ci, {k: k1}), tm.le(k1, L))))
                    return tm.ite(hit, tm.subst(vi, {k: L}), init(idx))
                return symt.memo(g)
            return f
        r = ratio(e, z) if srt == "R" else None
        if r is not None:
            def f(kk):
                def g(idx):
                    return tm.mul(init(idx), kprod(tm.subst(r, dict(zip(js, idx))), k, kk))
                return symt.memo(g)
            return f
        if e.op == "ite" and (e.args[2] is z or e.args[1] is z):
            # every element is rewritten from its own old value by at most one iteration
            c, v = (e.args[0], e.args[1]) if e.args[2] is z else (tm.not_(e.args[0]), e.args[2])
            key = solve_for(c, k)
            if key is not None:
                k_, rest = key

                def f(kk):
                    def g(idx):
                        m = dict(zip(js, idx))
                        ks = tm.subst(k_, m)
                        m2 = {k: ks, z: init(idx)}
                        cc = tm.and_(tm.le(I0, ks), tm.lt(ks, kk), tm.subst(tm.subst(rest, m), m2))
                        return tm.ite(cc, tm.subst(tm.subst(v, m), m2), init(idx))
                    return symt.memo(g)
                return f
        raise Unsupported("array update not recognised: " + tm.show(e)[:200])

    def finish(self, k, sol, res):
        n = self.nn(sol["n"])
        for key, (c, init, x, e) in res["cells"].items():
            f = sol["solved"].get(key)
            if f is None:
                f = self._closed_f(key, res, k)
            v = f(n)
            self.journal.append((c, c.val))
            c.val = Ptr(st=res["ptrs"][key], off=v) if key in res["ptrs"] else v
        for key, (s, init, nm, srt, fn) in res["st"].items():
            f = sol["solved"][key]
            self.journal.append((s, s.fn))
            # under guards: the loop body already carries them
            s.fn = f(n)

    def _closed_f(self, key, res, k):
        c, init, x, e = res["cells"][key]
        d = tm.sub(e, x)
        # x is the closed form at k
        return lambda kk: tm.subst(x, {k: kk})

    # ---------------------------------------------------------- expressions
    def ev(self, n):
        """value of an expression"""
        k = n["kind"]
        f = getattr(self, "ev_" + k, None)
        if f is not None:
            return f(n)
        lf = getattr(self, "lv_" + k, None)
        if lf is not None:
            r = lf(n)
            return r.get() if isinstance(r, (Cell, Elem)) else r
        raise Unsupported("C++ expression " + k)

    def lv(self, n, temp=False):
        """reference denoted by an expression (a temporary when it is a value)"""
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
                 "SubstNonTypeTemplateParmExpr", "CXXStaticCastExpr"):
            return self.lv(n["inner"][-1], temp)
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ArrayToPointerDecay",
                                                             "FunctionToPointerDecay"):
            return self.lv(n["inner"][0], temp)
        lf = getattr(self, "lv_" + k, None)
        if lf is not None:
            r = lf(n)
            if isinstance(r, (Cell, Elem)):
                return r
            return Cell(self, r)
        return Cell(self, self.ev(n))

    def ev_ParenExpr(self, n):
        return self.ev(n["inner"][-1])

    ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = ev_ConstantExpr = \
        ev_SubstNonTypeTemplateParmExpr = ev_ParenExpr

    def ev_IntegerLiteral(self, n):
        return tm.num(int(n["value"]), "I")

    def ev_CharacterLiteral(self, n):
        return tm.num(int(n["value"]), "I")

    def ev_FloatingLiteral(self, n):
        v = n["value"]
        if strip_t(tyname(n)) == "float":
            import numpy as np
            v = str(np.float32(v))
        else:
            v = repr(float(v))
        return tm.num(Fraction(v))

    def ev_CXXBoolLiteralExpr(self, n):
        return TRUE if n["value"] else FALSE

    def ev_StringLiteral(self, n):
        return Tag(n.get("value"))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return Tag(None)

    def ev_CXXScalarValueInitExpr(self, n):
        s = sort_of(tyname(n))
        return FALSE if s == "B" else tm.num(0, s)

    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr

    def ev_CXXDefaultArgExpr(self, n):
        raise Unsupported("C++ default argument")

    def ev_InitListExpr(self, n):
        t = strip_t(tyname(n))
        if sort_of(t):
            return self.ev(n["inner"][0]) if n.get("inner") else self.ev_CXXScalarValueInitExpr(n)
        m = re.match(r"(.*)\[(\d+)\]$", t)
        xs = [self.ev(x) for x in n.get("inner", ())]
        if m:
            cnt = int(m.group(2))
            out = [Cell(self, copyval(self, x)) for x in xs]
            while len(out) < cnt:
                out.append(Cell(self, self.default(m.group(1).strip())))
            return Arr(out)
        return self.construct(t, xs, n, agg=True)

    def ev_CXXStdInitializerListExpr(self, n):
        return self.ev(n["inner"][0])

    def ev_LambdaExpr(self, n):
        rec = n["inner"][0]
        for d in rec.get("inner", ()):
            if d.get("kind") == "CXXMethodDecl" and d.get("name") == "operator()":
                byval = {}
                for dd in rec.get("inner", ()):
                    pass
                return Clo(d, self.env, self.frame.this if self.frame else None)
            if d.get("kind") == "FunctionTemplateDecl":
                raise Unsupported("generic lambda")
        raise Unsupported("lambda")

    def ev_ImplicitCastExpr(self, n):
        k = n.get("castKind")
        e = n["inner"][0]
        if k == "LValueToRValue":
            r = self.lv(e)
            return r.get()
        if k in ("NoOp", "FloatingCast", "IntegralCast", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase",
                 "UncheckedDerivedToBase", "FunctionToPointerDecay", "ArrayToPointerDecay", "BitCast", "ToVoid", "Dependent",
                 "NonAtomicToAtomic"):
            v = self.ev(e)
            if k == "IntegralCast" and isinstance(v, T):
                return num_t(v) if sort_of(tyname(n)) != "B" else self.conv(v, "bool")
            return v
        if k == "IntegralToFloating":
            return tm.to_real(num_t(self.ev(e)))
        if k == "FloatingToIntegral":
            return trunc(self.ev(e))
        if k in ("IntegralToBoolean", "FloatingToBoolean"):
            return self.conv(self.ev(e), "bool")
        if k == "NullToPointer":
            return Tag(None)
        if k == "BooleanToSignedIntegral":
            return num_t(self.ev(e))
        raise Unsupported("C++ cast " + str(k))

    ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXStaticCastExpr = ev_ImplicitCastExpr

    def lv_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        c = self.env.get(r["id"])
        if c is not None:
            return c
        g = self.genv.get((self.mod.path, r["id"]))
        if g is not None:
            return g
        d = self.mod.globals.get(r["id"]) or self.mod.decl.get(r["id"])
        if r["kind"] == "EnumConstantDecl":
            return Cell(self, Tag(r["name"]))
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Cell(self, Tag(("fn", r["id"], r["name"])))
        if d is not None and d.get("kind") == "VarDecl":
            ini = [x for x in d.get("inner", ()) if "valueCategory" in x]
            if ini:
                v = self.ev(ini[-1])
                if isinstance(v, T):
                    v = self.conv(v, tyname(d))
                c = Cell(self, v, tyname(d))
                c.glen = 0
                self.genv[(self.mod.path, r["id"])] = c
                return c
        raise Unsupported("C++ name " + str(r.get("name")))

    def lv_CXXThisExpr(self, n):
        return Ptr(lv=Cell(self, self.frame.this))

    def lv_MemberExpr(self, n):
        b = n["inner"][0]
        o = self.ev(b) if n.get("isArrow") else self.lv(b).get()
        if isinstance(o, Ptr):
            o = o.lv.get()
        nm = n["name"]
        if isinstance(o, Obj):
            if nm in o.f:
                return o.f[nm]
            for k2, c2 in o.f.items():
                pass
            c = Cell(self, None, tyname(n))
            o.f[nm] = c
            return c
        if isinstance(o, Tup) and nm in ("first", "second"):
            return o.xs[0 if nm == "first" else 1]
        raise Unsupported(f"member {nm} of {type(o).__name__}")

    def lv_ArraySubscriptExpr(self, n):
        a = self.ev(n["inner"][0])
        i = self.ev(n["inner"][1])
        return self.index(a, i)

    def index(self, a, i):
        i = num_t(i) if isinstance(i, T) else i
        if isinstance(a, Ptr):
            if a.st is not None:
                return flat_elem(self, a.st, tm.add(a.off, i))
            if isinstance(a.lv, It):
                return self.index(a.lv.vec, tm.add(a.lv.pos, i))
        if isinstance(a, Obj) and "_d" in a.f:
            a = a.f["_d"].get()
        if isinstance(a, Arr):
            if i.op != "num":
                if all(isinstance(x.val, T) for x in a.xs):
                    return Sel(self, a.xs, i)
                raise Unsupported("symbolic index into a C++ array")
            return a.xs[int(i.args[0])]
        if isinstance(a, Acc):
            idx = a.idx + (i,)
            if len(idx) == a.ten.st.ndim:
                return Elem(self, a.ten.st, idx)
            return Acc(a.ten, idx)
        if isinstance(a, Ten):
            return Ten(a.st[mkint(i)])
        if isinstance(a, Vec):
            if a.items is not None:
                if i.op != "num":
                    if a.items and all(isinstance(x.val, T) for x in a.items):
                        return Sel(self, a.items, i)
                    raise Unsupported("symbolic index into a vector of structs")
                if not 0 <= int(i.args[0]) < len(a.items):
                    raise Unsupported("vector index out of range")
                return a.items[int(i.args[0])]
            return Elem(self, a.st, (i,))
        raise Unsupported("index into " + type(a).__name__)

    def ev_ConditionalOperator(self, n):
        c = self.conv(self.ev(n["inner"][0]), "bool")
        r = self.decide(c)
        if r is None and not self.symbolic():
            a = n["inner"][1]
            r = S().branch(c)
        if r is not None:
            return self.ev(n["inner"][1 if r else 2])
        self.G.append(c)
        a = self.ev(n["inner"][1])
        self.G[-1] = tm.not_(c)
        b = self.ev(n["inner"][2])
        self.G.pop()
        return merge(self, c, a, b)

    def lv_ConditionalOperator(self, n):
        return self.ev_ConditionalOperator(n)

    def ev_BinaryOperator(self, n):
        op = n["opcode"]
        if op in ("=", ):
            return self.lv_BinaryOperator(n).get()
        if op == ",":
            self.effect(n["inner"][0])
            return self.ev(n["inner"][1])
        if op in ("&&", "||"):
            a = self.conv(self.ev(n["inner"][0]), "bool")
            if op == "&&" and a is FALSE or op == "||" and a is TRUE:
                return a
            self.G.append(a if op == "&&" else tm.not_(a))
            try:
                b = self.conv(self.ev(n["inner"][1]), "bool")
            finally:
                self.G.pop()
            return tm.and_(a, b) if op == "&&" else tm.or_(a, b)
        a, b = self.ev(n["inner"][0]), self.ev(n["inner"][1])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n=None):
        if isinstance(a, Ptr) and a.st is not None and isinstance(b, T):
            return Ptr(st=a.st, off=tm.add(a.off, b) if op == "+" else tm.sub(a.off, b))
        if isinstance(a, Tag) or isinstance(b, Tag):
            if op in ("==", "!="):
                r = a.v == b.v
                return TRUE if r == (op == "==") else FALSE
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported(f"C++ operator {op} on {type(a).__name__}, {type(b).__name__}")
        if op in CMP:
            if not (op in ("==", "!=") and a.sort == "B" and b.sort == "B"):
                a, b = num_t(a), num_t(b)
            a, b = tm.unify(a, b)
            return CMP[op](a, b)
        a, b = num_t(a), num_t(b)
        a, b = tm.unify(a, b)
        if op == "+":
            return tm.add(a, b)
        if op == "-":
            return tm.sub(a, b)
        if op == "*":
            return tm.mul(a, b)
        if op == "/":
            if a.sort == "I":
                self.need_nonneg(a, b)
                return tm.idiv(a, b)
            return tm.div(a, b)
        if op == "%":
            self.need_nonneg(a, b)
            return tm.imod(a, b)
        if op in ("<<", ">>", "&", "|", "^") and a.op == "num" and b.op == "num":
            x, y = int(a.args[0]), int(b.args[0])
            return tm.num({"<<": x << y, ">>": x >> y, "&": x & y, "|": x | y, "^": x ^ y}[op], "I")
        if op == "<<" and b.op == "num":
            return tm.mul(a, tm.num(2 ** int(b.args[0]), "I"))
        raise Unsupported("C++ operator " + op)

    def need_nonneg(self, a, b):
        g = tm.and_(*self.G) if self.G else TRUE
        if not S().entails(tm.implies(g, tm.and_(tm.le(I0, a), tm.lt(I0, b)))):
            raise Unsupported("C++ integer division of possibly negative numbers")

    def lv_BinaryOperator(self, n):
        if n["opcode"] != "=":
            return self.ev_BinaryOperator(n)
        v = copyval(self, self.ev(n["inner"][1]))
        r = self.lv(n["inner"][0])
        if isinstance(v, T):
            v = self.conv(v, tyname(n["inner"][0]))
        r.set(v)
        return r

    def lv_CompoundAssignOperator(self, n):
        v = self.ev(n["inner"][1])
        r = self.lv(n["inner"][0])
        old = r.get()
        w = self.binop(n["opcode"][:-1], old, v)
        if isinstance(w, T):
            w = self.conv(w, tyname(n["inner"][0]))
        r.set(w)
        return r

    def lv_UnaryOperator(self, n):
        op = n["opcode"]
        e = n["inner"][0]
        if op == "*":
            p = self.ev(e)
            if isinstance(p, Ptr):
                if p.st is not None:
                    return flat_elem(self, p.st, p.off)
                return p.lv
            if isinstance(p, It):
                return self.index(p.vec, p.pos)
            raise Unsupported("dereference")
        if op == "&":
            return Ptr(lv=self.lv(e))
        if op in ("++", "--"):
            r = self.lv(e)
            old = r.get()
            if isinstance(old, Ptr):
                new = Ptr(st=old.st, off=(tm.add if op == "++" else tm.sub)(old.off, I1))
            else:
                one = tm.num(1, old.sort)
                new = (tm.add if op == "++" else tm.sub)(old, one)
            r.set(new)
            return Cell(self, old) if n.get("isPostfix") else r
        v = self.ev(e)
        if op == "-":
            return tm.neg(num_t(v))
        if op == "+":
            return num_t(v)
        if op == "!":
            return tm.not_(self.conv(v, "bool"))
        raise Unsupported("C++ unary " + op)

    # ---- calls
    def callee(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def args(self, ns):
        out = []
        for a in ns:
            if a["kind"] == "CXXDefaultArgExpr":
                continue
            vc = a.get("valueCategory")
            if vc in ("lvalue", "xvalue"):
                out.append(self.lv(a))
            else:
                out.append(self.ev(a))
        return out

    def resolve(self, d):
        """-> (module, decl) with a body, or None (library)"""
        if d is None:
            return None
        if d.get("_ns") in ("std", "at", "torch", "c10", "autograd"):
            return None
        if body_of(d) is not None and not (d["kind"] == "FunctionDecl" and "mangledName" not in d and False):
            return self.mod, d
        if d["kind"] == "FunctionDecl" and d["name"] not in LIB:
            mn = d.get("mangledName")
            for x in self.mod.decl.values():
                if x.get("mangledName") == mn and mn and body_of(x) is not None:
                    return self.mod, x
            return self.prog.find(d["name"])
        return None

    def lv_CallExpr(self, n):
        f = self.callee(n["inner"][0])
        if f["kind"] == "DeclRefExpr":
            r = f["referencedDecl"]
            d = self.mod.decl.get(r["id"], r)
            q = self.resolve(d)
            a = self.args(n["inner"][1:])
            if q is not None:
                return self.call_decl(q[0], q[1], a)
            return self.lib(r["name"], a, n, d)
        raise Unsupported("indirect C++ call")

    def lv_CXXMemberCallExpr(self, n):
        f = self.callee(n["inner"][0])
        if f["kind"] != "MemberExpr":
            raise Unsupported("member pointer call")
        d = self.mod.decl.get(f.get("referencedMemberDecl"))
        b = f["inner"][0]
        o = self.ev(b) if f.get("isArrow") else self.lv(b)
        obj = o.get() if isinstance(o, (Cell, Elem)) else o
        if isinstance(obj, Ptr) and f.get("isArrow"):
            o = obj.lv
            obj = o.get()
        a = self.args(n["inner"][1:])
        if d is not None and body_of(d) is not None and d.get("_ns") not in ("std", "at", "torch"):
            return self.call_decl(self.mod, d, a, this=obj)
        if isinstance(obj, Obj) and d is not None and d.get("_ns") not in ("std", "at", "torch"):
            raise Unsupported("method without body " + f["name"])
        return self.method(f["name"], o, obj, a, n, d)

    def lv_CXXOperatorCallExpr(self, n):
        f = self.callee(n["inner"][0])
        r = f.get("referencedDecl", {})
        name = r.get("name", "")
        d = self.mod.decl.get(r.get("id"), r)
        a = self.args(n["inner"][1:])
        vals = [x.get() if isinstance(x, (Cell, Elem)) else x for x in a]
        if name == "operator()" and isinstance(vals[0], Clo):
            c = vals[0]
            USED.add(f"{self.mod.path}:lambda")
            return self.call_decl(self.mod, c.decl, a[1:], env=c.env, this=c.this)
        if d is not None and d.get("_ns") not in ("std", "at", "torch") and body_of(d) is not None:
            if d["kind"] == "CXXMethodDecl":
                return self.call_decl(self.mod, d, a[1:], this=vals[0])
            return self.call_decl(self.mod, d, a)
        return self.oper(name, a, vals, n)

    def oper(self, name, a, vals, n):
        if name == "operator[]":
            o, i = vals
            if isinstance(i, Ten):
                i = i.st.elem(())
            if isinstance(o, dict):
                raise Unsupported("unordered_map")
            return self.index(o, i)
        if name == "operator=":
            if isinstance(vals[0], Ten) and isinstance(vals[1], (T, Scal)):
                self.tensor_fill(vals[0], scal(vals[1]), "=")
                return a[0]
            if isinstance(vals[0], Tup):
                src = vals[1]
                vs = [copyval(self, x.get()) for x in src.xs]
                for x, v in zip(vals[0].xs, vs):
                    if isinstance(v, T) and isinstance(x, Cell) and x.typ:
                        v = self.conv(v, x.typ)
                    x.set(v)
                return a[0]
            a[0].set(copyval(self, vals[1]))
            return a[0]
        if name in ("operator+=", "operator-=", "operator*=") and isinstance(vals[0], Ten):
            v = scal(vals[1]) if not isinstance(vals[1], Ten) else vals[1].st.elem(())
            self.tensor_fill(vals[0], v, name[8:])
            return a[0]
        if isinstance(vals[0], It):
            it = vals[0]
            if name in ("operator++", "operator--"):
                new = It(it.vec, (tm.add if name == "operator++" else tm.sub)(it.pos, I1))
                a[0].set(new) if isinstance(a[0], Cell) else None
                return new if len(vals) == 1 else it
            if name == "operator*":
                return self.index(it.vec, it.pos)
            if name == "operator->":
                return Ptr(lv=self.index(it.vec, it.pos))
            if name == "operator-" and isinstance(vals[1], It):
                return tm.sub(it.pos, vals[1].pos)
            if name in ("operator+", "operator-"):
                return It(it.vec, (tm.add if name == "operator+" else tm.sub)(it.pos, vals[1]))
            if name in ("operator==", "operator!="):
                c = tm.eq(it.pos, vals[1].pos)
                return c if name == "operator==" else tm.not_(c)
            if name == "operator[]":
                return self.index(it.vec, tm.add(it.pos, vals[1]))
        if isinstance(vals[0], Tup) and name in ("operator<", "operator>"):
            x, y = (vals[0], vals[1]) if name == "operator<" else (vals[1], vals[0])
            return tup_lt(x, y)
        raise Unsupported("C++ " + name + " on " + type(vals[0]).__name__)

    def tensor_fill(self, t, v, op):
        st = t.st
        if st.ndim != 0:
            raise Unsupported("assignment to a whole tensor")
        s = st._s
        gl = self.tglen.get(id(s), 0)
        g = tm.and_(*self.G[gl:]) if len(self.G) > gl else TRUE
        old = st.elem(())
        v = symt.cast(num_t(v), st.dtype)
        w = v if op == "=" else tm.add(old, v) if op == "+=" else tm.sub(old, v) if op == "-=" else tm.mul(old, v)
        self.journal.append((s, s.fn))
        self.keep.append(s)
        st._write(lambda i: w, (lambda i: g) if g is not TRUE else None)

    def ev_CXXConstructExpr(self, n):
        t = strip_t(tyname(n))
        ns = [x for x in n.get("inner", ()) if x["kind"] != "CXXDefaultArgExpr"]
        a = self.args(ns)
        return self.construct(t, a, n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def construct(self, t, a, n, agg=False):
        vals = [x.get() if isinstance(x, (Cell, Elem)) else x for x in a]
        base = re.sub(r"<.*", "", t).split("::")[-1].strip()
        if len(vals) == 1 and not agg:
            v = vals[0]
            if isinstance(v, Obj) and v.cls == base:
                return v.copy(self)
            if isinstance(v, (Ten, Acc, Opt, Clo, Scal, It, PQ)) and base not in ("tuple", "vector", "array", "pair", "Scalar",
                                                                                  "reference_wrapper", "priority_queue"):
                return v
            if isinstance(v, PQ):
                return v.copy(self)
            if isinstance(v, Tup) and base in ("tuple", "pair"):
                return v.copy(self)
            if isinstance(v, Vec) and base in ("vector", "deque"):
                return v.copy(self)
            if isinstance(v, Clo):
                return v
        h = CTOR.get(base)
        if h is not None:
            return h(self, t, a, vals, n)
        recs = [r for r in self.mod.records.get(base, ())]
        sp = [r for r in recs if r["kind"] == "ClassTemplateSpecializationDecl"]
        want = re.findall(r"<(.*)>", t)
        if sp and want:
            def targs(r):
                return ", ".join(str(x.get("type", {}).get("qualType", x.get("value", ""))) for x in r["inner"]
                                 if x.get("kind") == "TemplateArgument")
            ex = [r for r in sp if targs(r).startswith(want[0])]
            sp = ex or sp
        for r in sp + recs:
            if r.get("_ns") in ("std", "at", "torch"):
                continue
            o = Obj(base)
            fields = [x for x in r.get("inner", ()) if x.get("kind") == "FieldDecl"]
            ctors = [x for x in r.get("inner", ()) if x.get("kind") == "CXXConstructorDecl" and body_of(x) is not None and
                     sum(1 for p in x.get("inner", ()) if p.get("kind") == "ParmVarDecl") == len(a)]
            if agg or not ctors:
                if any(x.get("kind") == "CXXConstructorDecl" and not x.get("isImplicit") for x in r.get("inner", ())) and not agg \
                        and len(a):
                    continue
                for f, v in zip(fields, vals):
                    o.f[f["name"]] = Cell(self, copyval(self, v), tyname(f))
                for f in fields[len(vals):]:
                    ini = [x for x in f.get("inner", ()) if "valueCategory" in x]
                    o.f[f["name"]] = Cell(self, self.ev(ini[-1]) if ini else self.default(tyname(f)), tyname(f))
                return o
            for f in fields:
                ini = [x for x in f.get("inner", ()) if "valueCategory" in x]
                ft = tyname(f)
                if not ft.rstrip().endswith("&"):
                    o.f[f["name"]] = Cell(self, self.ev(ini[-1]) if ini else self.default(ft), ft)
            self.call_decl(self.mod, ctors[0], a, this=o)
            return o
        raise Unsupported("C++ class " + t)

    # ---------------------------------------------------------- library
    def lib(self, name, a, n, d):
        vals = [x.get() if isinstance(x, (Cell, Elem)) else x for x in a]
        h = LIB.get(name)
        if h is None:
            raise Unsupported("C++ library function " + name)
        return h(self, a, vals, n, d)

    def method(self, name, o, obj, a, n, d):
        vals = [x.get() if isinstance(x, (Cell, Elem)) else x for x in a]
        h = METH.get((type(obj).__name__, name))
        if h is None:
            raise Unsupported(f"C++ method {type(obj).__name__}.{name}")
        return h(self, o, obj, a, vals, n, d)


def scal(v):
    return v.v if isinstance(v, Scal) else v


class Scal:
    def __init__(self, v):
        self.v = v


class PQ:
    """std::priority_queue with a concrete number of (guarded) elements: unsupported unless empty"""

    def __init__(self):
        self.ops = []

    def copy(self, ip):
        return self


class Sel:
    """element of a small array at a symbolic index"""


def _sel(ip, xs, i):
    r = xs[-1].get()
    for p in range(len(xs) - 2, -1, -1):
        r = tm.ite(tm.eq(i, tm.num(p, "I")), xs[p].get(), r)
    c = Cell(ip, r)
    c.set = None
    return c


class Sel(Elem):
    def __init__(self, ip, xs, i):
        self.ip, self.xs, self.i = ip, xs, i

    def get(self):
        r = self.xs[-1].get()
        for p in range(len(self.xs) - 2, -1, -1):
            r = tm.ite(tm.eq(self.i, tm.num(p, "I")), self.xs[p].get(), r)
        return r

    def set(self, v):
        for p, x in enumerate(self.xs):
            x.set(tm.ite(tm.eq(self.i, tm.num(p, "I")), v, x.get()))


def flat_elem(ip, st, off):
    """element of a contiguous tensor at a flat offset"""
    if st.ndim == 1:
        return Elem(ip, st, (off,))
    if st.ndim == 2:
        return FlatElem(ip, st, off)
    raise Unsupported("flat access to a tensor of more than two dimensions")


class FlatElem(Elem):
    def __init__(self, ip, st, off):
        w = dimT(st.shape[1])
        from .sess import smart_idiv, smart_imod
        i, j = smart_idiv(off, w), smart_imod(off, w)
        Elem.__init__(self, ip, st, (i, j))


# ------------------------------------------------------------------ helpers on terms
CMP = {"<": tm.lt, "<=": tm.le, ">": lambda a, b: tm.lt(b, a), ">=": lambda a, b: tm.le(b, a), "==": tm.eq, "!=": tm.ne}


def intish(c):
    """only integer comparisons inside"""
    if c.op in ("and", "not", "or"):
        return all(intish(x) for x in c.args)
    if c.op in ("lt", "eq"):
        return all(x.sort == "I" for x in c.args)
    return c.op == "var" or c in (TRUE, FALSE)


def dep(t, x):
    return tm.contains(t, x)


_MEN = {}


def mentions(t, nm):
    """an application of the array symbol nm occurs in t"""
    key = (t.id, nm)
    r = _MEN.get(key)
    if r is None:
        r = False
        if t.op == "app" and t.args[0] == nm:
            r = True
        else:
            for a in t.args:
                if isinstance(a, T) and mentions(a, nm):
                    r = True
                    break
                if isinstance(a, tuple) and any(isinstance(b, T) and mentions(b, nm) for b in a):
                    r = True
                    break
        _MEN[key] = r
    return r


def map_app(t, nm, f):
    """replace nm(idx) by f(idx)"""
    memo = {}

    def go(x):
        if not mentions(x, nm):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "app" and x.args[0] == nm:
            r = f(tuple(go(a) for a in x.args[1:]))
        elif x.op in tm.BINDERS:
            kk, lo, hi, body = tm.open_binder(x)
            r = tm.close_binder(x.op, kk, go(lo), go(hi), go(body))
        else:
            new = tuple(go(a) if isinstance(a, T) else a for a in x.args)
            r = tm.rebuild(x.op, new, x)
        memo[x.id] = r
        return r
    return go(t)


def delta(e, x):
    """d with e == x + d, x not in d; None if no such form"""
    if x.sort not in "IR":
        return None
    z = tm.num(0, x.sort)
    if e is x:
        return z
    if e.op == "ite":
        c, a, b = e.args
        if dep(c, x):
            return None
        da, db = delta(a, x), delta(b, x)
        if da is None or db is None:
            return None
        if db.op != "num":
            # ite(c, A + t, A) = A + ite(c, t, 0), comparing both sides under c
            a2, b2 = under(da, c), under(db, c)
            t = tm.sub(a2, b2)
            ad = lambda y: y.args if y.op == "add" else (y,)
            if t.op == "num" or b2 in ad(a2) or size(t) < size(a2):
                return tm.add(db, tm.ite(c, t, z))
        return tm.ite(c, da, db)
    if e.op == "add":
        hit = [p for p, y in enumerate(e.args) if dep(y, x)]
        if len(hit) == 1:
            d = delta(e.args[hit[0]], x)
            if d is not None:
                return tm.add(d, *[y for p, y in enumerate(e.args) if p != hit[0]])
    return None


def ratio(e, x):
    if x.sort != "R":
        return None
    if e is x:
        return tm.num(1)
    if e.op == "ite":
        c, a, b = e.args
        if dep(c, x):
            return None
        da, db = ratio(a, x), ratio(b, x)
        if da is None or db is None:
            return None
        return tm.ite(c, da, db)
    if e.op == "mul":
        hit = [p for p, y in enumerate(e.args) if dep(y, x)]
        if len(hit) == 1:
            d = ratio(e.args[hit[0]], x)
            if d is not None:
                return tm.mul(d, *[y for p, y in enumerate(e.args) if p != hit[0]])
    if e.op == "div" and not dep(e.args[1], x):
        d = ratio(e.args[0], x)
        if d is not None:
            return tm.div(d, e.args[1])
    return None


def as_set(e, z):
    """e == ite(c, v, z) with c, v free of z -> (c, v)"""
    if not dep(e, z):
        return TRUE, e
    if e is z:
        return FALSE, None
    if e.op == "ite":
        c, a, b = e.args
        if dep(c, z):
            return None
        ra, rb = as_set(a, z), as_set(b, z)
        if ra is None or rb is None:
            return None
        ca, va = ra
        cb, vb = rb
        if va is None and vb is None:
            return FALSE, None
        if va is None:
            return tm.and_(tm.not_(c), cb), vb
        if vb is None:
            return tm.and_(c, ca), va
        return tm.or_(tm.and_(c, ca), tm.and_(tm.not_(c), cb)), tm.ite(c, va, vb)
    return None


def as_and(e, x):
    """boolean e == x and c"""
    if e is x:
        return TRUE
    if e.op == "and" and x in e.args:
        r = tm.and_(*[y for y in e.args if y is not x])
        return None if dep(r, x) else r
    t, f = tm.subst(e, {x: TRUE}), tm.subst(e, {x: FALSE})
    return t if f is FALSE else None


def as_or(e, x):
    t, f = tm.subst(e, {x: TRUE}), tm.subst(e, {x: FALSE})
    return f if t is TRUE else None


def conj(c):
    if c.op == "and":
        out = []
        for a in c.args:
            out += conj(a)
        return out
    return [c]


def size(t):
    seen = set()

    def go(x):
        if not isinstance(x, T) or x.id in seen:
            return
        seen.add(x.id)
        for y in x.args:
            go(y)
    go(t)
    return len(seen)


def under(t, c):
    """t simplified in a context where c holds: literals of c are true, equal terms compare alike"""
    cs = conj(c)
    true = set(cs)
    rep = {}
    for l in cs:
        if l.op == "eq" and l.args[0].sort == "I":
            a, b = l.args
            for u, v in ((a, b), (b, a)):
                if u.op == "var" and v.op == "num":
                    rep[u] = v
                    break
                if u.op == "var" and v.op == "app" and v not in rep:
                    rep[v] = u
                    break
            else:
                if a.op == "app" and b.op == "app" and a not in rep and b not in rep:
                    rep[a] = b

    def lit(x):
        if x in true:
            return TRUE
        if x.op == "eq" and x.args[0].sort == "I":
            return tm.eq(*[rep.get(y, y) for y in x.args])
        if x.op in ("and", "or", "not"):
            return {"and": tm.and_, "or": tm.or_, "not": tm.not_}[x.op](*[lit(y) for y in x.args])
        return x

    def go(x):
        if x.op == "ite":
            k = lit(x.args[0])
            if k is TRUE:
                return go(x.args[1])
            if k is FALSE:
                return go(x.args[2])
            return tm.ite(k, go(x.args[1]), go(x.args[2]))
        if x.op == "add":
            return tm.add(*[go(y) for y in x.args])
        return x
    return go(t)


def connected(a, b, eqs):
    """a = b follows from the equations"""
    if a is b or tm.eq(a, b) in eqs:
        return True
    grp = {a}
    more = True
    while more:
        more = False
        for q in eqs:
            if q.args and isinstance(q.args[0], T):
                u, v = q.args
                if (u in grp) != (v in grp):
                    grp |= {u, v}
                    more = True
    return b in grp


def own_element(e, nm, js, X):
    """nm(idx) where the guards of e make idx equal to js reads the element being updated"""
    def go(t, eqs):
        if not mentions(t, nm):
            return t
        if t.op == "app" and t.args[0] == nm:
            idx = t.args[1:]
            if all(connected(a, b, eqs) for a, b in zip(idx, js)):
                return X
        if t.op == "ite":
            c, a, b = t.args
            return tm.ite(go(c, eqs), go(a, eqs | frozenset(x for x in conj(c) if x.op == "eq")), go(b, eqs))
        if t.op == "app":
            return tm.app(t.args[0], tuple(go(x, eqs) for x in t.args[1:]), t.sort)
        if t.op == "and":
            own = frozenset(x for x in conj(t) if x.op == "eq")
            return tm.and_(*[go(x, eqs | (own - {x})) for x in t.args])
        if t.op not in ("add", "mul", "or", "not"):
            own = {}
            for u in tm.subterms(t):
                if u.op == "app" and u.args[0] == nm and not tm.levels(u) and all(connected(a, b, eqs) for a, b in zip(u.args[1:], js)):
                    own[u] = X
            return tm.subst(t, own)
        f = {"add": tm.add, "mul": tm.mul, "and": tm.and_, "or": tm.or_, "not": tm.not_}.get(t.op)
        return f(*[go(x, eqs) if isinstance(x, T) else x for x in t.args])
    return go(e, frozenset())


def solve_for(c, k):
    """c == (k == s) and rest, s free of k  -> (s, rest)"""
    alts = list(c.args) if c.op == "or" else [tm.not_(x) for x in c.args[0].args] if c.op == "not" and c.args[0].op == "and" else None
    if alts:
        ds = [solve_for(x, k) for x in alts]
        if all(x is not None and x[0] is ds[0][0] for x in ds):
            return ds[0][0], tm.or_(*[x[1] for x in ds])
        return None
    cs = conj(c)
    for p, l in enumerate(cs):
        if l.op == "or" or (l.op == "not" and l.args[0].op == "and"):
            r = solve_for(l, k)
            if r is not None:
                return r[0], tm.and_(r[1], *[x for q, x in enumerate(cs) if q != p])
            continue
        if l.op == "eq" and l.args[0].sort == "I":
            d = tm.sub(l.args[0], l.args[1])
            d0 = tm.subst(d, {k: I0})
            for sg in (1, -1):
                if tm.sub(d, tm.add(d0, k if sg == 1 else tm.neg(k))) is I0 and not dep(d0, k):
                    return (tm.neg(d0) if sg == 1 else d0), tm.and_(*[x for q, x in enumerate(cs) if q != p])
    # x div m = a and x mod m = b (0 <= b < m): x = a m + b
    for p, l in enumerate(cs):
        for u, a in ((l.args, l.args[::-1]) if l.op == "eq" else ()):
            if u.op != "idiv" or dep(a, k):
                continue
            for q, l2 in enumerate(cs):
                for v, b in ((l2.args, l2.args[::-1]) if l2.op == "eq" else ()):
                    if v.op == "imod" and v.args[0] is u.args[0] and v.args[1] is u.args[1] and not dep(b, k):
                        m = u.args[1]
                        r = solve_for(tm.mk("eq", (u.args[0], tm.add(tm.mul(a, m), b)), "B"), k)
                        if r is not None:
                            return r[0], tm.and_(tm.le(I0, b), tm.lt(b, m), *[x for t, x in enumerate(cs) if t not in (p, q)])
    # 0 <= a - k m < m: k = a div m
    lows, ups = [], []
    for p, l in enumerate(cs):
        neg = l.op == "not"
        g = l.args[0] if neg else l
        if g.op == "lt" and g.args[0].sort == "I" and dep(g, k):
            x, y = g.args
            (lows if neg else ups).append((p, tm.sub(x, y) if neg else tm.sub(y, x)))
    for p, lo in lows:
        d0 = tm.subst(lo, {k: I0})
        m = tm.sub(d0, tm.subst(lo, {k: I1}))
        if m is I0 or dep(m, k) or tm.sub(lo, tm.sub(d0, tm.mul(k, m))) is not I0:
            continue
        for q, up in ups:
            if tm.sub(tm.add(lo, up), m) is I0:
                return tm.idiv(d0, m), tm.and_(tm.lt(I0, m), *[x for t, x in enumerate(cs) if t not in (p, q)])
    return None


def ksum(d, k, kk):
    """sum_{k<kk} d"""
    if d.op == "num" and d.args[0] == 0:
        return d
    if not dep(d, k):
        nk = tm.ite(tm.lt(I0, kk), kk, I0)
        return tm.mul(tm.to_real(nk) if d.sort == "R" else nk, d)
    # one-hot
    if d.op == "ite":
        c, a, b = d.args
        if b.op == "num" and b.args[0] == 0:
            s = solve_for(c, k)
            if s is not None:
                ks, rest = s
                return tm.ite(tm.and_(tm.le(I0, ks), tm.lt(ks, kk), tm.subst(rest, {k: ks})), tm.subst(a, {k: ks}), b)
            cs = conj(c)
            out = [x for x in cs if not dep(x, k)]
            if out:
                return tm.ite(tm.and_(*out), ksum(tm.ite(tm.and_(*[x for x in cs if dep(x, k)]), a, b), k, kk), b)
        elif not dep(c, k):
            return tm.ite(c, ksum(a, k, kk), ksum(b, k, kk))
    if d.op == "add":
        parts = [ksum(x, k, kk) for x in d.args]
        return tm.add(*parts)
    b = tm.fresh("bv", "I")
    return tm.close_binder("sum", b, I0, kk, tm.subst(d, {k: b}))


def kprod(r, k, kk):
    if r.op == "num" and r.args[0] == 1:
        return r
    b = tm.fresh("bv", "I")
    return tm.close_binder("prod", b, I0, kk, tm.subst(r, {k: b}))


def kall(c, k, kk):
    b = tm.fresh("bv", "I")
    return tm.close_binder("ball", b, I0, kk, tm.subst(c, {k: b}))


def as_min(e, x):
    """e == min(x, d) / max(x, d)"""
    if e.op != "ite":
        return None
    c, a, b = e.args
    neg = False
    if c.op == "not":
        c = c.args[0]
        a, b = b, a
    if c.op != "lt":
        return None
    p, q = c.args
    for (s, o) in ((p, q), (q, p)):
        pass
    if {p, q} != {a, b} or x not in (p, q):
        return None
    d = q if p is x else p
    if dep(d, x):
        return None
    # value taken when p < q is a
    kind = "min" if a is p else "max"
    return kind, d, c


def as_companion(e, x, y, d, kind):
    """e == ite(update, v, x) where update is the condition under which y' = d.
    -> (v, last) ; last: ties update"""
    if e.op != "ite":
        return None
    c, a, b = e.args
    if c.op == "not":
        c = c.args[0]
        a, b = b, a
    if c.op != "lt" or set(c.args) != {y, d}:
        return None
    p, q = c.args
    # condition p<q true -> a, false -> b
    if kind == "min":
        if p is d:                      # d < y : strict improvement
            return (a, False) if b is x else None
        # y < d: keep
        return (b, True) if a is x else None
    if p is y:
        return (a, False) if b is x else None
    return (b, True) if a is x else None


def tup_lt(x, y):
    """lexicographic order on tuples"""
    r = FALSE
    for a, b in reversed(list(zip(x.xs, y.xs))):
        a, b = tm.unify(num_t(a.get()), num_t(b.get()))
        r = tm.or_(tm.lt(a, b), tm.and_(tm.eq(a, b), r))
    return r


# ------------------------------------------------------------------ library contracts
LIB, METH, CTOR = {}, {}, {}


def lib(*names):
    def w(f):
        for n in names:
            LIB[n] = f
        return f
    return w


def meth(cls, *names):
    def w(f):
        for n in names:
            METH[(cls, n)] = f
        return f
    return w


def ctor(*names):
    def w(f):
        for n in names:
            CTOR[n] = f
        return f
    return w


def R(t):
    return tm.to_real(num_t(t))


def _un(name, f):
    LIB[name] = lambda ip, a, v, n, d: f(R(v[0]))


for _n, _f in dict(sqrt=tm.sqrt, exp=tm.exp, log=tm.log, sin=tm.sin, cos=tm.cos, acos=tm.acos, fabs=tm.absv).items():
    _un(_n, _f)
_un("floor", lambda x: tm.to_real(tm.floor(x)))
_un("ceil", lambda x: tm.neg(tm.to_real(tm.floor(tm.neg(x)))))


@lib("abs")
def _(ip, a, v, n, d):
    x = num_t(v[0])
    return tm.absv(x) if x.sort == "R" else tm.ite(tm.lt(x, I0), tm.neg(x), x)


@lib("pow")
def _(ip, a, v, n, d):
    e = R(v[1])
    if e.op != "num" or e.args[0].denominator != 1:
        raise Unsupported("pow with a non-integer exponent")
    return tm.power(R(v[0]), int(e.args[0]))


@lib("hypot")
def _(ip, a, v, n, d):
    x, y = R(v[0]), R(v[1])
    return tm.sqrt(tm.add(unsq(x), unsq(y)))


def unsq(x):
    if x.op == "sqrt":
        return x.args[0]
    return tm.mul(x, x)


@lib("max", "fmaxf", "fmax")
def _(ip, a, v, n, d):
    if len(v) == 1 and isinstance(v[0], Ten):
        return Ten(v[0].st.max())
    if len(v) == 1 and isinstance(v[0], Arr):
        r = v[0].xs[0].get()
        for x in v[0].xs[1:]:
            r = tm.tmax(r, x.get())
        return r
    x, y = tm.unify(num_t(v[0]), num_t(v[1]))
    return tm.tmax(x, y)


@lib("min", "fminf", "fmin")
def _(ip, a, v, n, d):
    if len(v) == 1 and isinstance(v[0], Arr):
        r = v[0].xs[0].get()
        for x in v[0].xs[1:]:
            r = tm.tmin(r, x.get())
        return r
    x, y = tm.unify(num_t(v[0]), num_t(v[1]))
    return tm.tmin(x, y)


@lib("clamp")
def _(ip, a, v, n, d):
    return tm.tmin(tm.tmax(v[0], v[1]), v[2])


@lib("lround", "lroundf")
def _(ip, a, v, n, d):
    # half away from zero
    x = R(v[0])
    h = tm.num(Fraction(1, 2))
    return tm.ite(tm.le(tm.num(0), x), tm.to_int(tm.floor(tm.add(x, h))), tm.neg(tm.to_int(tm.floor(tm.add(tm.neg(x), h)))))


@lib("modf")
def _(ip, a, v, n, d):
    x = R(v[0])
    t = tm.to_real(trunc(x))
    v[1].lv.set(t)
    return tm.sub(x, t)


@lib("vt_check")
def _(ip, a, v, n, d):
    c = ip.conv(v[0], "bool")
    r = ip.decide(c)
    if r is None and not ip.symbolic():
        r = S().branch(c)
    if r is True:
        return None
    if r is None:
        ip.G.append(tm.not_(c))
        try:
            ip.error("C++ check failed")
        finally:
            ip.G.pop()
        return None
    ip.error("C++ check failed")


@lib("vt_error")
def _(ip, a, v, n, d):
    ip.error("C++ error raised")


@lib("move", "forward")
def _(ip, a, v, n, d):
    return a[0]


@lib("ref")
def _(ip, a, v, n, d):
    return a[0]


@lib("get")
def _(ip, a, v, n, d):
    ta = [x for x in d.get("inner", ()) if x.get("kind") == "TemplateArgument"]
    i = int(ta[0]["value"])
    o = v[0]
    if isinstance(o, Obj):
        o = o.f["_d"].get()
    return o.xs[i]


@lib("make_tuple", "make_pair")
def _(ip, a, v, n, d):
    return Tup([Cell(ip, copyval(ip, x)) for x in v])


@lib("tie")
def _(ip, a, v, n, d):
    return Tup([x if isinstance(x, (Cell, Elem)) else Cell(ip, x) for x in a])


@lib("swap")
def _(ip, a, v, n, d):
    a[0].set(v[1])
    a[1].set(v[0])


def shape_of(v):
    xs = v.xs if isinstance(v, Arr) else v
    return tuple(mkint(num_t(x.get())) for x in xs)


def mk_tensor(ip, shape, fill, dt):
    f = symt.cast(num_t(fill) if fill.sort == "B" and dt is not torch.bool else fill, dt) if fill is not None else None
    if f is None:
        nm = tm.fresh("uninit", "I").args[0]
        srt = symt.SORT[symt.cat(dt)]
        st = symt.SymTensor(shape, lambda i: tm.app(nm, i, srt), dt)
    else:
        st = symt.SymTensor(shape, lambda i: f, dt)
    ip.created(st)
    ip.tkey[id(st._s)] = (ip.stack, "new", ip.creation_site)
    ip.tlive[(ip.stack, "new", ip.creation_site)] = st
    return Ten(st)


Interp.creation_site = None


def _site(ip, n):
    ip.creation_site = n["id"] if n else None


@lib("zeros", "empty", "full", "ones")
def _(ip, a, v, n, d):
    _site(ip, n)
    name = d["name"]
    sh = shape_of(v[0])
    opt = v[-1] if isinstance(v[-1], Opt) else Opt(torch.float32)
    fill = dict(zeros=tm.num(0), ones=tm.num(1), empty=None).get(name, None)
    if name == "full":
        fill = scal(v[1])
    return mk_tensor(ip, sh, fill, opt.dtype)


@lib("zeros_like", "ones_like", "empty_like", "full_like")
def _(ip, a, v, n, d):
    _site(ip, n)
    st = v[0].st
    fill = dict(zeros_like=tm.num(0), ones_like=tm.num(1), empty_like=None).get(d["name"])
    if d["name"] == "full_like":
        fill = scal(v[1])
    return mk_tensor(ip, st.shape, fill, st.dtype)


@lib("increment_version")
def _(ip, a, v, n, d):
    return None


@lib("get_num_threads")
def _(ip, a, v, n, d):
    return I1


@lib("distance")
def _(ip, a, v, n, d):
    return tm.sub(v[1].pos, v[0].pos)


@lib("fill")
def _(ip, a, v, n, d):
    b, e, x = v
    vec = b.vec
    if vec.items is not None:
        for c in vec.items:
            c.set(x)
        return None
    s = vec.st._s
    gl = ip.tglen.get(id(s), 0)
    if len(ip.G) > gl:
        raise Unsupported("std::fill under a condition")
    x = symt.cast(num_t(x), vec.st.dtype)
    ip.journal.append((s, s.fn))
    old = s.fn
    s.fn = symt.memo(lambda i: tm.ite(tm.and_(tm.le(b.pos, i[0]), tm.lt(i[0], e.pos)), x, old(i)))


@lib("max_element", "min_element")
def _(ip, a, v, n, d):
    b, e = v
    if b.vec.items is not None:
        raise Unsupported("max_element of a fixed vector")
    k = tm.fresh("bv", "I")
    f = b.vec.st.elem
    mx = d["name"] == "max_element"
    p = tm.close_binder("bargmax" if mx else "bargmin", k, b.pos, e.pos, f((k,)))
    return It(b.vec, p)


@lib("lower_bound")
def _(ip, a, v, n, d):
    """first position in [b, e) whose element is not less than x (for a sorted range)"""
    b, e, x = v
    vec = b.vec
    if vec.st is None:
        raise Unsupported("lower_bound of a fixed vector")
    return It(vec, ip.lower_bound(vec, b.pos, e.pos, x))


def _lower_bound(self, vec, lo, hi, x):
    # number of elements below x in the sorted range
    k = tm.fresh("bv", "I")
    c = tm.lt(vec.st.elem((k,)), x)
    return tm.add(lo, tm.close_binder("sum", k, lo, hi, tm.ite(c, I1, I0)))


Interp.lower_bound = _lower_bound


# ---- constructors
@ctor("tuple", "pair")
def _(ip, t, a, v, n):
    if not v:
        inner = split_targs(t)
        return Tup([Cell(ip, ip.default(x), x) for x in inner])
    if len(v) == 1 and isinstance(v[0], Arr):
        v = [x.get() for x in v[0].xs]
    ts = split_targs(t)
    out = []
    for p, x in enumerate(v):
        if isinstance(x, T) and p < len(ts):
            x = ip.conv(x, ts[p])
        out.append(Cell(ip, copyval(ip, x), ts[p] if p < len(ts) else None))
    return Tup(out)


def split_targs(t):
    m = re.search(r"<(.*)>", t)
    if not m:
        return []
    s, depth, cur, out = m.group(1), 0, "", []
    for ch in s:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch in "<(["
        depth -= ch in ">)]"
        cur += ch
    out.append(cur.strip())
    return out


@ctor("array")
def _(ip, t, a, v, n):
    o = Obj("array")
    ts = split_targs(t)
    if len(v) == 1 and isinstance(v[0], Arr):
        o.f["_d"] = Cell(ip, v[0])
    elif len(v) == 1 and isinstance(v[0], Obj) and v[0].cls == "array":
        return v[0].copy(ip)
    elif not v:
        cnt = int(re.sub(r"\D", "", ts[1]))
        o.f["_d"] = Cell(ip, Arr([Cell(ip, None if sort_of(ts[0]) else ip.default(ts[0]) if ts[0] == "char" or not re.match(r"vec", ts[0]) else None)
                                  for _ in range(cnt)]))
    else:
        o.f["_d"] = Cell(ip, Arr([Cell(ip, copyval(ip, x)) for x in v]))
    return o


@ctor("vector", "deque")
def _(ip, t, a, v, n):
    et = (split_targs(t) or ["?"])[0]
    s = sort_of(et)
    _site(ip, n)
    if not v:
        return Vec(ip, items=[], sort=s)
    if len(v) == 1 and isinstance(v[0], Arr):
        return Vec(ip, items=[Cell(ip, copyval(ip, x.get()), et) for x in v[0].xs], sort=s)
    if isinstance(v[0], T):
        cnt = num_t(v[0])
        if cnt.op == "num":
            xs = []
            for _ in range(int(cnt.args[0])):
                val = copyval(ip, v[1]) if len(v) > 1 else (tm.num(0, s) if s in ("I", "R") else FALSE if s == "B" else ip.default(et))
                if isinstance(val, T):
                    val = ip.conv(val, et)
                xs.append(Cell(ip, val, et))
            return Vec(ip, items=xs, sort=s)
        if s is None:
            raise Unsupported("vector of structs with symbolic length")
        dt = {"R": torch.float32, "I": torch.int64, "B": torch.bool}[s]
        if et in ("unsigned char", "uint8_t", "char"):
            dt = torch.int64
        fill = v[1] if len(v) > 1 else tm.num(0)
        return Vec(ip, st=mk_tensor(ip, (mkint(cnt),), fill, dt).st, sort=s)
    raise Unsupported("vector constructor")


@ctor("priority_queue")
def _(ip, t, a, v, n):
    from . import cppq
    return cppq.Queue(ip, t)


@ctor("Scalar")
def _(ip, t, a, v, n):
    return v[0] if isinstance(v[0], Scal) else Scal(v[0])


@ctor("IntArrayRef")
def _(ip, t, a, v, n):
    return v[0]


@ctor("initializer_list")
def _(ip, t, a, v, n):
    return v[0] if v else Arr([])


@ctor("TensorOptions")
def _(ip, t, a, v, n):
    if v and isinstance(v[0], Tag):
        return Opt(DT[v[0].v])
    return v[0] if v else Opt(torch.float32)


@ctor("Tensor")
def _(ip, t, a, v, n):
    return v[0] if v else Ten(None)


@ctor("reference_wrapper")
def _(ip, t, a, v, n):
    return v[0]


# ---- Tensor methods
@meth("Ten", "size")
def _(ip, o, t, a, v, n, d):
    i = int(num_t(v[0]).args[0])
    return dimT(t.st.shape[i])


@meth("Ten", "sizes")
def _(ip, o, t, a, v, n, d):
    return Arr([Cell(ip, dimT(x)) for x in t.st.shape])


@meth("Ten", "dim", "ndimension")
def _(ip, o, t, a, v, n, d):
    return tm.num(t.st.ndim, "I")


@meth("Ten", "numel")
def _(ip, o, t, a, v, n, d):
    return dimT(t.st.numel())


@meth("Ten", "options")
def _(ip, o, t, a, v, n, d):
    return Opt(t.st.dtype)


@meth("Ten", "dtype", "scalar_type")
def _(ip, o, t, a, v, n, d):
    return Tag({v: k for k, v in DT.items()}[t.st.dtype])


@meth("Ten", "device")
def _(ip, o, t, a, v, n, d):
    return Tag("cpu")


@meth("Tag", "type")
def _(ip, o, t, a, v, n, d):
    return Tag("kCPU")


@meth("Ten", "is_cuda")
def _(ip, o, t, a, v, n, d):
    return FALSE


@meth("Ten", "is_contiguous")
def _(ip, o, t, a, v, n, d):
    return TRUE


@meth("Ten", "contiguous")
def _(ip, o, t, a, v, n, d):
    return t


@meth("Ten", "clone")
def _(ip, o, t, a, v, n, d):
    return Ten(ip.created(t.st.clone()))


CTYPE = {"float": (torch.float32,), "double": (torch.float64,), "long": (torch.int64,), "int": (torch.int32,), "bool": (torch.bool,)}


@meth("Ten", "accessor")
def _(ip, o, t, a, v, n, d):
    ta = split_targs(tyname(n))
    et, nd = strip_t(ta[0]), int(re.sub(r"\D", "", ta[1]))
    et = {"int64_t": "long", "int32_t": "int"}.get(et, et)
    if t.st.ndim != nd:
        raise RuntimeError(f"expected {nd} dims but tensor has {t.st.ndim}")
    if t.st.dtype not in CTYPE.get(et, ()):
        raise RuntimeError(f"expected scalar type {et} but found {t.st.dtype}")
    ip.note_storage(t.st)
    return Acc(t, ())


@meth("Ten", "data_ptr")
def _(ip, o, t, a, v, n, d):
    if t.st._to is not None:
        raise Unsupported("data_ptr of a view")
    ip.note_storage(t.st)
    return Ptr(st=t.st, off=I0)


@meth("Ten", "item")
def _(ip, o, t, a, v, n, d):
    x = scalar_term(t.st)
    tn = strip_t(tyname(n))
    return ip.conv(x, tn) if sort_of(tn) else Scal(x)


@meth("Scal", "to", "toInt", "toLong", "toFloat")
def _(ip, o, t, a, v, n, d):
    return ip.conv(t.v, tyname(n))


@meth("Opt", "dtype")
def _(ip, o, t, a, v, n, d):
    return Opt(DT[v[0].v])


@meth("Opt", "device", "requires_grad")
def _(ip, o, t, a, v, n, d):
    return t


@meth("Acc", "size")
def _(ip, o, t, a, v, n, d):
    i = int(num_t(v[0]).args[0])
    return dimT(t.ten.st.shape[len(t.idx) + i])


@meth("Acc", "operator[]")
def _(ip, o, t, a, v, n, d):
    return ip.index(t, v[0])


# ---- vector
def vsize(v):
    return tm.num(len(v.items), "I") if v.items is not None else dimT(v.st.shape[0])


@meth("Vec", "size")
def _(ip, o, t, a, v, n, d):
    return vsize(t)


@meth("Vec", "empty")
def _(ip, o, t, a, v, n, d):
    return tm.eq(vsize(t), I0)


@meth("Vec", "begin")
def _(ip, o, t, a, v, n, d):
    return It(t, I0)


@meth("Vec", "end")
def _(ip, o, t, a, v, n, d):
    return It(t, vsize(t))


@meth("Vec", "reserve")
def _(ip, o, t, a, v, n, d):
    return None


class VecUndo:
    def __init__(self, v):
        self.v = v

    def undo(self, old):
        self.v.items[:] = old


def _grow_ok(ip, t):
    if t.items is None:
        raise Unsupported("growing a vector of symbolic length")
    if ip.G and len(ip.G) > getattr(t, "glen", 0):
        raise Unsupported("growing a vector under a condition")


@meth("Vec", "push_back", "emplace_back")
def _(ip, o, t, a, v, n, d):
    _grow_ok(ip, t)
    ip.journal.append((VecUndo(t), list(t.items)))
    t.items.append(Cell(ip, copyval(ip, v[0])))
    return t.items[-1]


@meth("Vec", "clear")
def _(ip, o, t, a, v, n, d):
    _grow_ok(ip, t)
    ip.journal.append((VecUndo(t), list(t.items)))
    del t.items[:]


@meth("Vec", "back")
def _(ip, o, t, a, v, n, d):
    return ip.index(t, tm.sub(vsize(t), I1))


@meth("Vec", "resize")
def _(ip, o, t, a, v, n, d):
    if t.st is not None:
        # contents beyond the old length are value-initialised; callers refill them
        s = t.st
        old, n0 = s.reader(), dimT(s.shape[0])
        z = symt.cast(tm.num(0), s.dtype)
        r = symt.SymTensor((mkint(num_t(v[0])),), lambda i: tm.ite(tm.lt(i[0], n0), old(i), z), s.dtype)
        ip.created(r)
        _site(ip, n)
        kk = (ip.stack, "new", n["id"])
        ip.tkey[id(r._s)] = kk
        ip.tlive[kk] = r
        t.st = r
        return None
    raise Unsupported("vector resize")


@meth("It", "operator*")
def _(ip, o, t, a, v, n, d):
    return ip.index(t.vec, t.pos)


@meth("Clo", "operator()")
def _(ip, o, t, a, v, n, d):
    return ip.call_decl(ip.mod, t.decl, a, env=t.env, this=t.this)


def _limits(ip, a, v, n, d):
    ty = strip_t(tyname(n))
    nm = d["name"]
    if nm == "lowest":
        return tm.neg(fmax())
    return fmax() if sort_of(ty) == "R" else tm.var("INT_MAX_", "I")


LIB["infinity"] = LIB["lowest"] = _limits
_max0 = LIB["max"]


def _maxl(ip, a, v, n, d):
    if not v:
        return _limits(ip, a, v, n, d)
    return _max0(ip, a, v, n, d)


LIB["max"] = _maxl


# ------------------------------------------------------------------ entry points
def to_cpp(ip, x):
    if type(x) is symt.SymTensor:
        ip.note_storage(x)
        return Ten(x)
    if isinstance(x, torch.Tensor):
        return to_cpp(ip, symt.lift(x))
    if isinstance(x, (tuple, list)):
        return Tup([Cell(ip, to_cpp(ip, y)) for y in x])
    return scalar_term(x)


def from_cpp(v):
    if isinstance(v, (Cell, Elem)):
        v = v.get()
    if isinstance(v, Ten):
        return v.st
    if isinstance(v, Tup):
        return tuple(from_cpp(x) for x in v.xs)
    if isinstance(v, T):
        return mkbool(v) if v.sort == "B" else mkint(v) if v.sort == "I" else mkreal(v)
    if isinstance(v, Obj):
        return {k: from_cpp(c) for k, c in v.f.items()}
    return v


def call(name, *args, stubs=None):
    """run the C++ function `name` of the current tree on symbolic arguments"""
    prog = program()
    ip = Interp(prog, stubs)
    S().assume(tm.lt(tm.num(10 ** 30), fmax()))
    r = ip.call_name(name, [to_cpp(ip, a) for a in args])
    return from_cpp(r)


def binding(name):
    prog = program()
    if name not in prog.binding:
        raise Unsupported(f"_C.{name} is not bound in ext.cpp")
    return prog.binding[name]


STUBS = {}      # C++ function name -> stub (set by contracts)


def c_call(name):
    fn = None

    def f(*args):
        return call(binding(name), *args, stubs=dict(STUBS))
    return f


import contextlib


def flat_args(args):
    """numbers held by scalar and vec2/vec3 arguments"""
    out = []
    for a in args:
        if isinstance(a, Obj):
            out += [x.val for x in a.f.values()]
        else:
            out.append(a)
    return out


def tuple_of(ip, model, rows):
    """a tuple of structs shaped like `model` with the given numbers"""
    out = []
    for r in rows:
        o = Obj(model.cls)
        for (k, cell), v in zip(model.f.items(), r):
            o.f[k] = Cell(ip, v, cell.typ)
        out.append(Cell(ip, o))
    return Tup(out)


@contextlib.contextmanager
def stub(c, name, result):
    """inside: calls of the C++ function `name` go through its contract (another contract establishes it).
    result(ip, numbers) -> value.  Real runs call the real function."""
    if not c.sym:
        yield
        return
    hit = []

    def f(ip, d, args):
        hit.append(1)
        return result(ip, flat_args(args), args)
    STUBS[name] = f
    try:
        yield
    finally:
        del STUBS[name]
    if not hit:
        raise Unsupported(f"C++ function {name} is not called any more")
