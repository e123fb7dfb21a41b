"""Deductive executor over LLVM IR: strongest postconditions for acyclic code, inferred and
discharged inductive invariants for loops, verification conditions for every memory access.

Integers used for sizes and addresses are polynomials over mathematical integers that are
congruent to the machine value modulo 2^w; every place where the exact machine value matters
(comparison, division, widening) proves that no wrap-around happened or introduces the wrapped
value explicitly.  Bytes read from images are bit-vector terms.
"""
import re
import terms as T
from poly import *
from irparse import *

M64 = (1 << 64) - 1
KMAX = 1 << 40


class I:
    __slots__ = ("w", "p")

    def __init__(self, w, p):
        self.w, self.p = w, p

    def __repr__(self):
        return f"i{self.w}({self.p})"


class B:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"b({fstr(self.f)})"


class D:
    """data bit-vector; t is None while loop shapes are being explored"""

    __slots__ = ("w", "t")

    def __init__(self, w, t):
        self.w, self.t = w, t


class P:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"ptr({self.obj}+{self.off})"


class V:
    """vector of n lanes, ew bits each; lanes is a list of terms or None (exploration)"""

    __slots__ = ("ew", "n", "lanes")

    def __init__(self, ew, n, lanes):
        self.ew, self.n, self.lanes = ew, n, lanes


class Agg:
    __slots__ = ("vs",)

    def __init__(self, vs):
        self.vs = vs


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


class Obj:
    """kind: data (image plane), arr (symbolic array of 8-byte elements), slots (concrete layout), const"""

    __slots__ = ("kind", "name", "len", "writable", "load", "cells", "null", "esize")

    def __init__(self, kind, name, len_, writable=True, load=None, cells=None, esize=8):
        self.kind, self.name, self.len, self.writable, self.load = kind, name, len_, writable, load
        self.cells = cells
        self.esize = esize

    def __repr__(self):
        return self.name


class Fork(Exception):
    def __init__(self, f):
        self.f = f


class State:
    __slots__ = ("pc", "pcs", "mem", "ks", "stores", "used", "inexact", "over", "effects")

    def __init__(self):
        self.pc = []
        self.pcs = set()
        self.mem = {}
        self.ks = ()
        self.stores = 0
        self.used = frozenset()
        self.inexact = False
        self.over = False
        self.effects = ()

    def copy(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.pcs = set(self.pcs)
        s.mem = self.mem
        s.ks, s.stores, s.used = self.ks, self.stores, self.used
        s.inexact, s.over, s.effects = self.inexact, self.over, self.effects
        return s

    def assume(self, f):
        for g in conjuncts(f):
            if g != TRUE and g not in self.pcs:
                self.pcs.add(g)
                self.pc.append(g)

    def wr(self, obj):
        """writable copy of a slot object's cells"""
        self.mem = dict(self.mem)
        c = dict(self.mem.get(obj, obj.cells or {}))
        self.mem[obj] = c
        return c

    def rd(self, obj):
        c = self.mem.get(obj)
        return c if c is not None else (obj.cells or {})


class Event:
    __slots__ = ("obj", "off", "val", "pc", "ks", "inexact", "over", "where")

    def __init__(self, obj, off, val, pc, ks, inexact, over, where):
        self.obj, self.off, self.val, self.pc, self.ks = obj, off, val, pc, ks
        self.inexact, self.over, self.where = inexact, over, where


class Obl:
    __slots__ = ("kind", "where", "status", "model", "detail", "over", "pc", "goal", "terms")

    def __init__(self, kind, where, status, model=None, detail="", over=False, pc=None, goal=None, terms=None):
        self.kind, self.where, self.status, self.model = kind, where, status, model
        # goal: what had to follow from pc (None: pc had to be impossible); terms: {byte variable: value}
        self.detail, self.over, self.pc, self.goal, self.terms = detail, over, pc, goal, terms

    def __repr__(self):
        return f"{self.status} {self.kind} @ {self.where} {self.detail}"


class Engine:
    def __init__(self, mod, solver):
        self.mod = mod
        self.s = solver
        self.quiet = 0
        self.events = []
        self.obls = []
        self.obl_seen = set()
        self.stack = ()
        self.hooks = {}  # function-name predicate -> handler
        self.globs = {}
        self.allocs = {}
        self.nundef = 0
        self.steps = 0
        self.max_steps = 600000
        self.loopinfo = {}
        self.wraps = 0
        self.names = {}
        self.fns_seen = set()
        self.trace = False

    # ---------------------------------------------------------------- obligations
    def short(self, n):
        r = self.names.get(n)
        if r is None:
            r = demangle(n)
            self.names[n] = r
        return r

    def where(self, ins=None):
        return "/".join(self.short(f) for f, _ in self.stack[-2:]) + (": " + ins.text[:90] if ins is not None else "")

    def oblige(self, kind, st, goal, ins, detail=""):
        if self.quiet:
            return True
        q = self.s.quick(goal)
        if q is True:
            self.obls.append(Obl(kind, self.where(ins), "valid"))
            return True
        r, m = self.s.prove(st.pc, goal, True)
        self.obls.append(Obl(kind, self.where(ins), r, m, detail or fstr(goal)[:300], st.over or bool(st.inexact), list(st.pc) if r != "valid" else None, goal))
        return r == "valid"

    def unreachable(self, kind, st, ins):
        if self.quiet:
            return
        r, m = self.s.check(st.pc, True)
        status = {"unsat": "valid", "sat": "sat", "unknown": "unknown"}[r]
        self.obls.append(Obl(kind, self.where(ins), status, m, "reachable", st.over or bool(st.inexact), list(st.pc) if r != "unsat" else None))

    # ---------------------------------------------------------------- integers
    def exact(self, v, st):
        """polynomial equal to the unsigned machine value"""
        p, w = v.p, v.w
        lo, hi = self.s.interval(p)
        m = (1 << w) - 1
        if lo is not None and hi is not None:
            if lo >= 0 and hi <= m:
                return p
            if p.is_const():
                return Poly.const(p.cval() & m)
        goal = conj([ge0(p), ge0(Poly.const(m) - p)])
        if self.s.prove(st.pc, goal)[0] == "valid":
            return p
        # constant offset by 2^w ?
        for k in (1, -1):
            p2 = p + (k << w)
            lo, hi = self.s.interval(p2)
            if lo is not None and hi is not None and lo >= 0 and hi <= m:
                return p2
        self.wraps += 1
        return self.s.wrap(p, w)

    def sexact(self, v, st):
        p, w = v.p, v.w
        h = 1 << (w - 1)
        if p.is_const():
            return Poly.const(T.signed(p.cval() & ((1 << w) - 1), w))
        lo, hi = self.s.interval(p)
        if lo is not None and hi is not None and lo >= -h and hi < h:
            return p
        if self.s.prove(st.pc, conj([ge0(p + h), ge0(Poly.const(h - 1) - p)]))[0] == "valid":
            return p
        u = self.exact(v, st)
        f = self.norm(ge0(u - h))
        d = self.decide(f, st)
        if d is True:
            return u - (1 << w)
        if d is False:
            return u
        return self.s.select(f, u - (1 << w), u)

    def norm(self, f):
        """rewrite comparisons against floor(n/d), d symbolic, into products"""
        k = f[0]
        if k == "ge":
            for a in f[1].atoms():
                dv = self.s.intern.get(("divc", a))
                if dv:
                    n, d = dv
                    cr = f[1].coeff_of(a)
                    if cr and cr[0].is_const():
                        c = cr[0].cval()
                        if c == 1:  # floor(n/d) + r >= 0  <=> -r <= floor(n/d) <=> -r*d <= n
                            return self.norm(ge0(n + cr[1] * d))
                        if c == -1:  # r >= floor(n/d) <=> (r+1)*d >= n+1
                            return self.norm(ge0((cr[1] + 1) * d - n - 1))
        if k == "not":
            return neg(self.norm(f[1]))
        return f

    def decide(self, f, st):
        """True / False / None: cheap decision of f under the path condition"""
        q = self.s.quick(f)
        if q is not None:
            return q
        if f in st.pcs:
            return True
        n = neg(f)
        if n in st.pcs:
            return False
        if f[0] in ("and", "or"):
            rs = [self.decide(g, st) for g in f[1]]
            if f[0] == "and":
                if False in rs:
                    return False
                if all(r is True for r in rs):
                    return True
            else:
                if True in rs:
                    return True
                if all(r is False for r in rs):
                    return False
        return None

    def decide_smt(self, f, st):
        d = self.decide(f, st)
        if d is not None:
            return d
        if self.s.check(st.pc + [f])[0] == "unsat":
            return False
        if self.s.check(st.pc + [neg(f)])[0] == "unsat":
            return True
        return None

    def resolve(self, p, st):
        """replace conditional-value atoms whose condition the path decides"""
        for _ in range(8):
            env = {}
            for a in p.atoms():
                sel = self.s.intern.get(("select", a))
                if sel:
                    d = self.decide_smt(sel[0], st)
                    if d is not None:
                        env[a] = sel[1] if d else sel[2]
                fl = self.s.intern.get(("floor", a))
                if fl:
                    r = self.resolve(fl[0], st)
                    if r != fl[0]:
                        env[a] = self.s.floor_div(r, fl[1])
            if not env:
                return p
            p = p.subst(env)
        return p

    # ---------------------------------------------------------------- operands
    def val(self, ty, d, env):
        k = d[0]
        if k == "local":
            v = env.get(d[1])
            if v is None:
                raise Unsupported("undefined local " + d[1])
            return v
        tk = ty[0]
        if k == "int":
            if tk == "i":
                if ty[1] == 1:
                    return B(TRUE if d[1] & 1 else FALSE)
                w = ty[1]
                return I(w, Poly.const(T.signed(d[1] & ((1 << w) - 1), w)))
            raise Unsupported("int of " + str(ty))
        if k == "null":
            return P(None, ZERO)
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "glob":
            return self.globptr(d[1])
        if k == "splat":
            n = ty[1]
            v = self.val(d[1], d[2], env)
            t = self.term(v, self.bits(d[1]))
            return V(self.bits(ty[2]), n, [t] * n)
        if k == "agg":
            if tk == "vec":
                ew = self.bits(ty[2])
                ls = []
                for t, x in d[1]:
                    if x[0] == "undef":
                        ls.append(self.undef_term(ew))
                    else:
                        ls.append(self.term(self.val(t, x, env), ew))
                return V(ew, ty[1], ls)
            return Agg([self.val(t, x, env) for t, x in d[1]])
        if k == "bytes":
            return Agg([I(8, Poly.const(T.signed(b, 8))) for b in d[1]])
        if k == "cgep":
            return self.gep(d[1], [(t, self.val(t, x, env)) for t, x in d[2]])
        if k == "ccast" and d[1] == "inttoptr":
            v = self.val(d[2], d[3], env)
            return P(None, v.p)
        if k == "ccast" and d[1] in ("bitcast", "addrspacecast"):
            return self.val(d[2], d[3], env)
        raise Unsupported("operand " + str(d)[:80])

    def undef_term(self, w):
        self.nundef += 1
        return T.var(("undef", self.nundef), w)

    def undef(self, ty):
        k = ty[0]
        if k == "vec":
            ew = self.bits(ty[2])
            return V(ew, ty[1], [self.undef_term(ew) for _ in range(ty[1])])
        if k == "struct":
            return Agg([self.undef(t) for t in ty[1]])
        if k == "arr":
            return Agg([self.undef(ty[2])] * ty[1])
        return UNDEF

    def zero(self, ty):
        k = ty[0]
        if k == "vec":
            ew = self.bits(ty[2])
            return V(ew, ty[1], [T.const(0, ew)] * ty[1])
        if k == "struct":
            return Agg([self.zero(t) for t in ty[1]])
        if k == "arr":
            return Agg([self.zero(ty[2])] * ty[1])
        if k == "i":
            return B(FALSE) if ty[1] == 1 else I(ty[1], ZERO)
        if k == "ptr":
            return P(None, ZERO)
        raise Unsupported("zero " + str(ty))

    def bits(self, ty):
        if ty[0] == "i":
            return ty[1]
        if ty[0] == "ptr":
            return 64
        if ty[0] == "vec":
            return ty[1] * self.bits(ty[2])
        if ty[0] == "fp":  # only moved around as bit patterns
            return {"half": 16, "float": 32, "double": 64}[ty[1]]
        raise Unsupported("bits " + str(ty))

    def globptr(self, nm):
        if nm in self.mod.funcs or nm in self.mod.decls:
            return Fn(nm)
        o = self.globs.get(nm)
        if o is None:
            t, v, const = self.mod.global_init(nm)
            o = Obj("slots", nm, Poly.const(sizeof(t)), writable=not const, cells={})
            self.globs[nm] = o
            if v is not None:
                self.fill(o.cells, t, self.val(t, v, {}), 0)
        return P(o, ZERO)

    def fill(self, cells, t, v, off):
        k = t[0]
        if k == "struct":
            if v is UNDEF:
                return
            for j, e in enumerate(t[1]):
                self.fill(cells, e, v.vs[j], off + field_offset(t, j))
        elif k == "arr":
            es = sizeof(t[2])
            for j, x in enumerate(v.vs):
                self.fill(cells, t[2], x, off + j * es)
        else:
            cells[off] = (sizeof(t), v)

    def term(self, v, w):
        """bit-vector term of a value"""
        if isinstance(v, D):
            return v.t
        if isinstance(v, I):
            if v.p.is_const():
                return T.const(v.p.cval(), w)
            raise Unsupported("address value used as data: " + str(v))
        if isinstance(v, B):
            if v.f == TRUE or v.f == FALSE:
                return T.const(int(v.f == TRUE), 1)
            raise Unsupported("address condition used as data")
        if v is UNDEF:
            return self.undef_term(w)
        if isinstance(v, V):
            return None if v.lanes is None else T.cat(v.lanes)
        raise Unsupported("term of " + type(v).__name__)

    # ---------------------------------------------------------------- pointers and memory
    def gep(self, st_ty, args):
        base = args[0][1]
        if not isinstance(base, P):
            if isinstance(base, Fn) or base is UNDEF:
                raise Unsupported("gep on " + type(base).__name__)
            raise Unsupported("gep base")
        off = base.off
        cur = st_ty
        for n, (t, v) in enumerate(args[1:]):
            if n == 0:
                off = off + self.idx(v) * sizeof(cur)
                continue
            if cur[0] == "struct":
                i = v.p.cval()
                off = off + field_offset(cur, i)
                cur = cur[1][i]
            elif cur[0] in ("arr", "vec"):
                cur = cur[2]
                off = off + self.idx(v) * sizeof(cur)
            else:
                raise Unsupported("gep into " + str(cur))
        return P(base.obj, off)

    def idx(self, v):
        if isinstance(v, I):
            return v.p
        if isinstance(v, D) and v.t is not None and T.is_const(v.t):
            return Poly.const(T.signed(T.cval(v.t), v.w))
        raise Unsupported("data dependent address")

    def bounds(self, st, p, n, ins, write):
        o = p.obj
        if o is None:
            self.oblige("valid-pointer", st, FALSE, ins, "access through null or integer pointer")
            raise Unsupported("access through null pointer")
        if o.kind == "slots" and p.off.is_const():
            c = p.off.cval()
            if c < 0 or c + n > o.len.cval():
                self.oblige("in-bounds " + ("store" if write else "load"), st, FALSE, ins, f"offset {c} size {n} of {o.name}")
                raise Unsupported("out of bounds local access")
            return
        off = p.off
        goal = conj([ge0(off), ge0(o.len - off - n)])
        self.oblige("in-bounds " + ("store to " if write else "load from ") + o.name, st, goal, ins, f"offset {off} size {n} length {o.len}")

    def load(self, ty, p, st, ins):
        if not isinstance(p, P):
            raise Unsupported("load through " + type(p).__name__)
        k = ty[0]
        o = p.obj
        n = sizeof(ty)
        self.bounds(st, p, n, ins, False)
        if o.kind == "data":
            if o.writable:
                raise Unsupported("read of destination " + o.name)
            if self.quiet:
                return V(self.bits(ty[2]), ty[1], None) if k == "vec" else D(self.bits(ty), None)
            bs = [T.var((o.name, p.off + j)) for j in range(n)]
            if k == "vec":
                ew = self.bits(ty[2])
                m = ew // 8
                return V(ew, ty[1], [T.cat(bs[j * m:(j + 1) * m]) for j in range(ty[1])])
            if k == "i":
                return D(ty[1], T.cat(bs))
            raise Unsupported("load of " + str(ty) + " from image")
        if o.kind == "arr":
            if not p.off.is_const():
                raise Unsupported("symbolic index into " + o.name)
            c = p.off.cval()
            return o.load(c, ty, self, st)
        if not p.off.is_const():
            return self.load_dyn(o, p.off, ty, st)
        c = p.off.cval()
        return self.load_cell(st.rd(o), c, ty, o)

    def load_dyn(self, o, off, ty, st):
        """load at a symbolic offset from a constant table: enumerate feasible entries"""
        n = sizeof(ty)
        cells = st.rd(o)
        g = off.content()
        if ty[0] == "ptr" or True:
            offs = sorted(c for c, (sz, _) in cells.items() if sz == n)
            if len(offs) > 2000:
                raise Unsupported("table too large")
            lo, hi = self.s.interval(off)
            for c in offs:
                if lo is not None and c < lo or hi is not None and c > hi:
                    continue
                f = eq0(off - c)
                d = self.decide_smt(f, st)
                if d is False:
                    continue
                if d is True:
                    return self.load_cell(cells, c, ty, o)
                raise Fork(f)
        raise Unsupported("symbolic offset into " + o.name)

    def load_cell(self, cells, c, ty, o):
        n = sizeof(ty)
        k = ty[0]
        x = cells.get(c)
        if x is not None and x[0] == n:
            v = x[1]
            return self.cast_cell(v, ty)
        if k in ("struct", "arr"):
            if k == "struct":
                return Agg([self.load_cell(cells, c + field_offset(ty, j), e, o) for j, e in enumerate(ty[1])])
            es = sizeof(ty[2])
            return Agg([self.load_cell(cells, c + j * es, ty[2], o) for j in range(ty[1])])
        # assemble from bytes
        bs = [None] * n
        opaque = False
        for c0, (sz, v) in cells.items():
            if c0 + sz <= c or c0 >= c + n:
                continue
            if v is UNDEF:
                continue
            if isinstance(v, (D, V)) and (v.t if isinstance(v, D) else v.lanes) is None:
                opaque = True
                continue
            if isinstance(v, I) and not v.p.is_const():
                # low part of a wider cell
                if c0 == c and sz > n and k == "i":
                    return I(ty[1], v.p)
            t = self.term(v, sz * 8)
            for j in range(sz):
                if c <= c0 + j < c + n:
                    bs[c0 + j - c] = T.ext(t, 8 * j, 8)
        if opaque:
            return V(self.bits(ty[2]), ty[1], None) if k == "vec" else D(self.bits(ty), None)
        bs = [b if b is not None else self.undef_term(8) for b in bs]
        t = T.cat(bs)
        if k == "vec":
            ew = self.bits(ty[2])
            return V(ew, ty[1], [T.ext(t, ew * j, ew) for j in range(ty[1])])
        if k == "i":
            if T.is_const(t):
                if ty[1] == 1:
                    return B(TRUE if T.cval(t) & 1 else FALSE)
                return I(ty[1], Poly.const(T.signed(T.cval(t) & ((1 << ty[1]) - 1), ty[1])))
            if ty[1] < 8:
                return D(ty[1], T.ext(t, 0, ty[1]))
            return D(ty[1], t)
        if k == "ptr":
            if T.is_const(t):
                return P(None, Poly.const(T.cval(t)))
            if all(T.N[b][0] == "var" and isinstance(T.N[b][2], tuple) and T.N[b][2][0] == "undef" for b in bs):
                return UNDEF
        raise Unsupported(f"load of {ty} at {c} in {o.name}")

    def cast_cell(self, v, ty):
        k = ty[0]
        if k == "i" and isinstance(v, I):
            if ty[1] == 1:
                return B(neg(eq0(v.p)))
            return I(ty[1], v.p)
        if k == "i" and isinstance(v, B):
            if ty[1] == 1:
                return v
            if v.f in (TRUE, FALSE):
                return I(ty[1], Poly.const(int(v.f == TRUE)))
            return I(ty[1], self.s.select(v.f, ONE, ZERO, "idx"))
        if k == "ptr" and isinstance(v, I):
            if v.p.is_const():
                return P(None, v.p)
            raise Unsupported("pointer from integer cell")
        if k == "i" and isinstance(v, P):
            if v.obj is None:
                return I(ty[1], v.off)
            raise Unsupported("integer from pointer cell")
        if k == "vec" and not isinstance(v, V):
            if v is UNDEF:
                return self.undef(ty)
            t = self.term(v, self.bits(ty))
            ew = self.bits(ty[2])
            return V(ew, ty[1], None if t is None else [T.ext(t, ew * j, ew) for j in range(ty[1])])
        if k == "vec":
            return self.revec(v, ty)
        if k == "i" and isinstance(v, V):
            return D(ty[1], None if v.lanes is None else T.cat(v.lanes))
        if k == "i" and isinstance(v, D) and v.t is not None and ty[1] < v.w:
            return D(ty[1], T.ext(v.t, 0, ty[1]))
        return v

    def store(self, ty, v, p, st, ins):
        if not isinstance(p, P):
            raise Unsupported("store through " + type(p).__name__)
        o = p.obj
        n = sizeof(ty)
        self.bounds(st, p, n, ins, True)
        if not o.writable:
            self.oblige("writable", st, FALSE, ins, "store to read-only " + o.name)
            raise Unsupported("store to read-only")
        if o.kind == "data":
            st.stores += 1
            if not self.quiet:
                bits = 8 * n
                if isinstance(v, V):
                    t = T.cat(v.lanes)
                else:
                    t = self.term(v, bits)
                bs = [T.ext(t, 8 * j, 8) for j in range(n)]
                self.events.append(Event(o, p.off, bs, list(st.pc), st.ks, st.inexact, st.over, self.where(ins)))
            return
        if o.kind == "arr":
            if not p.off.is_const():
                raise Unsupported("symbolic store into " + o.name)
            st.effects = st.effects + ((o, p.off.cval(), v),)
            return
        if not p.off.is_const():
            raise Unsupported("symbolic store into " + o.name)
        self.put(st, o, p.off.cval(), ty, v)

    def put(self, st, o, c, ty, v):
        n = sizeof(ty)
        cells = st.wr(o)
        self.kill(cells, c, n)
        if ty[0] in ("struct", "arr") and isinstance(v, Agg):
            self.fill(cells, ty, v, c)
        else:
            cells[c] = (n, v)

    def kill(self, cells, c, n):
        for c0 in [c0 for c0, (sz, _) in cells.items() if c0 < c + n and c < c0 + sz]:
            sz, v = cells.pop(c0)
            if c0 >= c and c0 + sz <= c + n:
                continue
            if v is UNDEF:
                parts = None
            elif isinstance(v, I) and v.p.is_const() or isinstance(v, (D, V)):
                t = self.term(v, sz * 8)
                if t is None:
                    parts = None
                else:
                    parts = t
            else:
                raise Unsupported("partial overwrite")
            for j in range(sz):
                if not (c <= c0 + j < c + n):
                    cells[c0 + j] = (1, D(8, T.ext(parts, 8 * j, 8)) if parts is not None else UNDEF)

    def memcpy(self, st, dst, src, n, ins):
        if not isinstance(n, Poly):
            raise Unsupported("memcpy size")
        do, so = dst.obj, src.obj
        if n.is_const() and n.cval() == 0:
            return
        if do is not None and do.kind == "data" or not n.is_const():
            if so is None or so.kind != "data" or do is None or do.kind != "data":
                raise Unsupported("memcpy form")
            # a byte copy loop: byte J for 0 <= J < n
            J = self.s.atom(f"J{ins.dst or ''}@{hash((self.stack, ins.text, st.ks)) & 0xffffff:x}", lo=0, hi=M64, cls="idx")
            st2 = st.copy()
            st2.assume(ge0(n - 1 - J))
            st2.ks = st.ks + (J.key()[0][0][0],)
            v = self.load(("i", 8), P(so, src.off + J), st2, ins)
            self.store(("i", 8), v, P(do, dst.off + J), st2, ins)
            st.stores += 1
            return
        n = n.cval()
        if so is None or do is None:
            raise Unsupported("memcpy null")
        self.bounds(st, src, n, ins, False)
        self.bounds(st, dst, n, ins, True)
        if do.kind != "slots" or not dst.off.is_const() or not src.off.is_const():
            raise Unsupported("memcpy form")
        d0, s0 = dst.off.cval(), src.off.cval()
        items = []
        if so.kind == "arr":
            for j in range(0, n, 8):
                items.append((j, 8, so.load(s0 + j, ("any",), self, st)))
        elif so.kind == "slots":
            cells = st.rd(so)
            for c0, (sz, v) in list(cells.items()):
                if c0 >= s0 and c0 + sz <= s0 + n:
                    items.append((c0 - s0, sz, v))
                elif c0 < s0 + n and s0 < c0 + sz:
                    for j in range(max(c0, s0), min(c0 + sz, s0 + n)):
                        items.append((j - s0, 1, self.load_cell(cells, j, ("i", 8), so)))
        else:
            raise Unsupported("memcpy from " + so.kind)
        cells = st.wr(do)
        self.kill(cells, d0, n)
        for j, sz, v in items:
            cells[d0 + j] = (sz, v)

    def memset(self, st, dst, v, n, ins):
        do = dst.obj
        if do is not None and do.kind == "data":
            J = self.s.atom(f"J@{hash((self.stack, ins.text, st.ks)) & 0xffffff:x}", lo=0, hi=M64, cls="idx")
            st2 = st.copy()
            st2.assume(ge0(n - 1 - J))
            st2.ks = st.ks + (J.key()[0][0][0],)
            self.store(("i", 8), v, P(do, dst.off + J), st2, ins)
            st.stores += 1
            return
        if not n.is_const() or not dst.off.is_const() or do is None or do.kind != "slots":
            raise Unsupported("memset form")
        n = n.cval()
        self.bounds(st, dst, n, ins, True)
        cells = st.wr(do)
        self.kill(cells, dst.off.cval(), n)
        b = self.term(v, 8)
        d0 = dst.off.cval()
        j = 0
        while j + 8 <= n and T.is_const(b):
            cells[d0 + j] = (8, I(64, Poly.const(T.signed(T.cval(b) * 0x0101010101010101, 64))))
            j += 8
        while j < n:
            cells[d0 + j] = (1, v)
            j += 1

    # ---------------------------------------------------------------- instructions
    def revec(self, v, ty):
        ew = self.bits(ty[2])
        n = ty[1]
        if ew == v.ew:
            return v
        if v.lanes is None:
            return V(ew, n, None)
        if ew > v.ew:
            m = ew // v.ew
            return V(ew, n, [T.cat(v.lanes[j * m:(j + 1) * m]) for j in range(n)])
        m = v.ew // ew
        return V(ew, n, [T.ext(v.lanes[j // m], (j % m) * ew, ew) for j in range(n)])

    def lanes2(self, op, a, b):
        if a.lanes is None or b.lanes is None:
            return None
        return [T.binop(op, x, y) for x, y in zip(a.lanes, b.lanes)]

    def binop(self, op, ty, a, b, st, ins):
        if ty[0] == "vec":
            return V(a.ew, a.n, self.lanes2(op, a, b))
        w = ty[1]
        if w == 1:
            return self.boolop(op, a, b)
        if isinstance(a, D) or isinstance(b, D):
            ta, tb = self.term(a, w), self.term(b, w)
            if ta is None or tb is None:
                return D(w, None)
            r = T.binop(op, ta, tb)
            if T.is_const(r):
                return I(w, Poly.const(T.signed(T.cval(r), w)))
            return D(w, r)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if not isinstance(a, I) or not isinstance(b, I):
            raise Unsupported(f"{op} on {type(a).__name__} {type(b).__name__}")
        p, q = a.p, b.p
        if op == "add":
            return I(w, p + q)
        if op == "sub":
            return I(w, p - q)
        if op == "mul":
            return I(w, p * q)
        if op == "shl":
            if q.is_const():
                return I(w, p.scale(1 << q.cval()))
            raise Unsupported("symbolic shift")
        if op == "lshr":
            if q.is_const():
                return I(w, self.s.floor_div(self.exact(a, st), 1 << q.cval()))
            raise Unsupported("symbolic shift")
        if op == "ashr":
            if q.is_const():
                return I(w, self.s.floor_div(self.sexact(a, st), 1 << q.cval()))
            raise Unsupported("symbolic shift")
        if op in ("udiv", "urem"):
            n, d = self.exact(a, st), self.exact(b, st)
            if d.is_const():
                if d.cval() == 0:
                    self.oblige("division", st, FALSE, ins)
                    raise Unsupported("division by zero")
                k = self.s.floor_div(n, d.cval())
                return I(w, k if op == "udiv" else n - k.scale(d.cval()))
            self.oblige("division by zero", st, ge0(d - 1), ins)
            key = ("dv", n, d)
            k = self.s.intern.get(key)
            if k is None:
                k = self.s.fresh("dv", lo=0, hi=M64)
                nm = k.key()[0][0][0]
                self.s.intern[key] = k
                self.s.intern[("divc", nm)] = (n, d)
                self.s.defs[nm] += [ge0(n - k * d), ge0((k + 1) * d - n - 1)]
            return I(w, k if op == "udiv" else n - k * d)
        if op in ("and", "or", "xor"):
            if p.is_const() and q.is_const():
                x, y = p.cval() & ((1 << w) - 1), q.cval() & ((1 << w) - 1)
                r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
                return I(w, Poly.const(T.signed(r, w)))
            if p.is_const():
                a, b, p, q = b, a, q, p
            if q.is_const():
                m = q.cval() & ((1 << w) - 1)
                if op == "and":
                    return I(w, self.mask(self.exact(a, st), m, w))
                if op == "xor" and m == (1 << w) - 1:
                    return I(w, -p - 1)
                if op == "or" and m == 0:
                    return a
                if op == "or":
                    # or with constant: p + (m & ~p) = p + m - (p & m)
                    pe = self.exact(a, st)
                    return I(w, pe + m - self.mask(pe, m, w))
                if op == "xor":
                    pe = self.exact(a, st)
                    return I(w, pe + m - self.mask(pe, m, w).scale(2))
            if op == "or" and " disjoint " in ins.text:
                return I(w, p + q)
            # or of two values: usable only through comparison with zero
            return self.bitor(op, a, b, w, st)
        raise Unsupported("integer op " + op)

    def bitor(self, op, a, b, w, st):
        pa, pb = self.exact(a, st), self.exact(b, st)
        key = (op, pa, pb)
        x = self.s.intern.get(key)
        if x is None:
            x = self.s.fresh("bo", lo=0, hi=(1 << w) - 1)
            nm = x.key()[0][0][0]
            self.s.intern[key] = x
            d = self.s.defs[nm]
            if op == "or":
                # x >= a, x >= b, x <= a+b ; in particular x == 0 <=> a == 0 and b == 0
                d += [ge0(x - pa), ge0(x - pb), ge0(pa + pb - x)]
            elif op == "and":
                d += [ge0(pa - x), ge0(pb - x)]
            else:
                d += [ge0(pa + pb - x), disj([neg(eq0(x)), eq0(pa - pb)]), disj([eq0(x), neg(eq0(pa - pb))])]
        return I(w, x)

    def mask(self, p, m, w):
        """p & m for exact p"""
        out = ZERO
        i = 0
        while i < w:
            if not m >> i & 1:
                i += 1
                continue
            j = i
            while j < w and m >> j & 1:
                j += 1
            # bits i..j-1
            hi = self.s.floor_div(p, 1 << j) if j < w else ZERO
            lo = self.s.floor_div(p, 1 << i) if i else p
            if j >= w:
                out = out + lo.scale(1 << i)
            else:
                out = out + lo.scale(1 << i) - hi.scale(1 << j)
            i = j
        return out

    def boolop(self, op, a, b):
        if isinstance(a, D) or isinstance(b, D):
            ta, tb = self.term(a, 1), self.term(b, 1)
            if ta is None or tb is None:
                return D(1, None)
            return D(1, T.binop(op, ta, tb))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        x, y = a.f, b.f
        if op == "and":
            return B(conj([x, y]))
        if op == "or":
            return B(disj([x, y]))
        if op in ("xor", "add", "sub"):
            return B(disj([conj([x, neg(y)]), conj([neg(x), y])]))
        raise Unsupported("i1 " + op)

    def icmp(self, pred, ty, a, b, st):
        if ty[0] == "vec":
            if a.lanes is None or b.lanes is None:
                return V(1, a.n, None)
            return V(1, a.n, [T.cmp(pred, x, y) for x, y in zip(a.lanes, b.lanes)])
        if ty[0] == "ptr":
            return B(self.ptrcmp(pred, a, b, st))
        w = ty[1]
        if w == 1:
            if isinstance(a, B) and isinstance(b, B):
                e = disj([conj([a.f, b.f]), conj([neg(a.f), neg(b.f)])])
                if pred == "eq":
                    return B(e)
                if pred == "ne":
                    return B(neg(e))
                x, y = a.f, b.f
                if pred == "ult":
                    return B(conj([neg(x), y]))
                if pred == "ugt":
                    return B(conj([x, neg(y)]))
                if pred == "ule":
                    return B(disj([neg(x), y]))
                if pred == "uge":
                    return B(disj([x, neg(y)]))
            raise Unsupported("i1 icmp")
        if isinstance(a, D) or isinstance(b, D):
            ta, tb = self.term(a, w), self.term(b, w)
            if ta is None or tb is None:
                return D(1, None)
            t = T.cmp(pred, ta, tb)
            if T.is_const(t):
                return B(TRUE if T.cval(t) else FALSE)
            return D(1, t)
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undef")
        if isinstance(a, P) or isinstance(b, P):
            raise Unsupported("pointer/integer comparison")
        if pred in ("eq", "ne"):
            d = a.p - b.p
            if d.is_const():
                f = TRUE if d.cval() % (1 << w) == 0 else FALSE
            else:
                lo, hi = self.s.interval(d)
                if lo is not None and hi is not None and -(1 << w) < lo and hi < (1 << w):
                    f = eq0(d)
                else:
                    f = eq0(self.exact(a, st) - self.exact(b, st))
            f = f if pred == "eq" else neg(f)
            return B(f)
        if pred[0] == "u":
            x, y = self.exact(a, st), self.exact(b, st)
        else:
            x, y = self.sexact(a, st), self.sexact(b, st)
        k = pred[1:]
        f = {"lt": y - x - 1, "le": y - x, "gt": x - y - 1, "ge": x - y}[k]
        return B(self.norm(ge0(f)))

    def ptrcmp(self, pred, a, b, st):
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                e = a.name == b.name
            elif (isinstance(a, P) and a.obj is None) or (isinstance(b, P) and b.obj is None):
                e = False
            else:
                raise Unsupported("fn compare")
            return TRUE if e == (pred == "eq") else FALSE
        if not isinstance(a, P) or not isinstance(b, P):
            raise Unsupported("ptrcmp on " + type(a).__name__)
        if a.obj is b.obj:
            d = a.off - b.off
            if pred in ("eq", "ne"):
                f = eq0(d)
                return f if pred == "eq" else neg(f)
            k = pred[1:]
            # offsets within one object do not wrap
            f = {"lt": -d - 1, "le": -d, "gt": d - 1, "ge": d}[k]
            return ge0(f)
        if pred in ("eq", "ne"):
            o, z = (a.obj, b) if a.obj is not None else (b.obj, a)
            if z.obj is None and z.off.is_const() and z.off.cval() == 0:
                nf = getattr(o, "null", None) if hasattr(o, "null") else None
                f = nf if nf is not None else FALSE  # objects are not at address 0
                return f if pred == "eq" else neg(f)
        raise Unsupported("comparison of pointers into different objects")

    def cast(self, op, fty, v, ty, st):
        if ty[0] == "vec" and op != "bitcast":
            ew = self.bits(ty[2])
            if v.lanes is None:
                return V(ew, ty[1], None)
            f = {"zext": lambda t: T.zext(t, ew), "sext": lambda t: T.sext(t, ew), "trunc": lambda t: T.ext(t, 0, ew)}[op]
            return V(ew, ty[1], [f(t) for t in v.lanes])
        if op == "bitcast":
            if ty[0] == "vec":
                if isinstance(v, V):
                    return self.revec(v, ty)
                ew = self.bits(ty[2])
                t = self.term(v, self.bits(fty))
                return V(ew, ty[1], None if t is None else [T.ext(t, ew * j, ew) for j in range(ty[1])])
            if isinstance(v, V):
                t = None if v.lanes is None else T.cat(v.lanes)
                if t is not None and T.is_const(t) and ty[1] > 1:
                    return I(ty[1], Poly.const(T.signed(T.cval(t), ty[1])))
                return D(self.bits(ty), t)
            return v
        if op in ("ptrtoint", "ptrtoaddr"):
            if isinstance(v, P) and v.obj is None:
                return I(ty[1], v.off)
            if isinstance(v, P):
                a = self.s.atom("addr:" + v.obj.name, lo=1, hi=M64 >> 1)
                return I(ty[1], a + v.off)
            raise Unsupported("ptrtoint")
        if op == "inttoptr":
            if isinstance(v, I):
                for at in v.p.atoms():
                    if at.startswith("addr:"):
                        raise Unsupported("pointer rebuilt from integer")
                return P(None, v.p)
            raise Unsupported("inttoptr")
        w = ty[1]
        if isinstance(v, D):
            if v.t is None:
                return D(w, None)
            t = {"zext": T.zext, "sext": T.sext}[op](v.t, w) if op != "trunc" else T.ext(v.t, 0, w)
            if T.is_const(t):
                if w == 1:
                    return B(TRUE if T.cval(t) else FALSE)
                return I(w, Poly.const(T.signed(T.cval(t), w)))
            return D(w, t)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, B):
            if op == "trunc":
                return v
            k = 1 if op == "zext" else -1
            if v.f in (TRUE, FALSE):
                return I(w, Poly.const(k if v.f == TRUE else 0))
            d = self.decide(v.f, st)
            if d is None:
                d = self.decide_smt(v.f, st)
            if d is None:
                raise Fork(v.f)
            return I(w, Poly.const(k if d else 0))
        if op == "zext":
            return I(w, self.exact(v, st))
        if op == "sext":
            return I(w, self.sexact(v, st))
        if w == 1:
            pe = self.exact(v, st)
            lo, hi = self.s.interval(pe)
            if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                return B(eq0(pe - 1))
            return B(eq0(self.mask(pe, 1, v.w) - 1))
        return I(w, v.p)

    def select(self, c, ty, a, b, st):
        if isinstance(c, V):
            if c.lanes is None or a.lanes is None or b.lanes is None:
                return V(a.ew, a.n, None)
            return V(a.ew, a.n, [T.ite(x, y, z) for x, y, z in zip(c.lanes, a.lanes, b.lanes)])
        if isinstance(c, D):
            if isinstance(a, V):
                if c.t is None or a.lanes is None or b.lanes is None:
                    return V(a.ew, a.n, None)
                return V(a.ew, a.n, [T.ite(c.t, y, z) for y, z in zip(a.lanes, b.lanes)])
            w = self.bits(ty)
            if c.t is None:
                if ty[0] == "ptr":
                    raise Unsupported("data dependent pointer")
                return D(w, None)
            ta, tb = self.term(a, w), self.term(b, w)
            if ta is None or tb is None:
                return D(w, None)
            return D(w, T.ite(c.t, ta, tb))
        if c is UNDEF:
            raise Unsupported("select on undef")
        d = self.decide(c.f, st)
        if d is None:
            if isinstance(a, B) and isinstance(b, B):
                return B(disj([conj([c.f, a.f]), conj([neg(c.f), b.f])]))
            d = self.decide_smt(c.f, st)
        if d is not None:
            return a if d else b
        if isinstance(a, I) and isinstance(b, I):
            if a.p == b.p:
                return a
            if not self.default_choice(c.f):
                raise Fork(c.f)
            return I(a.w, self.mksel(c.f, self.exact(a, st), self.exact(b, st)))
        if isinstance(a, P) and isinstance(b, P) and a.obj is b.obj and self.default_choice(c.f):
            return P(a.obj, self.mksel(c.f, a.off, b.off))
        raise Fork(c.f)

    def default_choice(self, f):
        """the "zero stride means default" choice stays one value; other choices become separate paths"""
        if f[0] == "not":
            f = f[1]
        if f[0] == "ge":
            lo, hi = self.s.interval(f[1])
            return lo == -1 and len(f[1].atoms()) == 1 and self.s.cls.get(list(f[1].atoms())[0]) == "stride"
        return f[0] == "eq" and len(f[1].t) == 1 and self.s.cls.get(list(f[1].atoms())[0]) == "stride"

    def mksel(self, f, a, b):
        # canonical orientation
        if f[0] == "not" or (f[0] == "ge" and fstr(f) > fstr(neg(f))):
            f, a, b = neg(f), b, a
        if f[0] == "eq":
            # value of x under x == c : orient  (x==0 ? d : x)
            pass
        return self.s.select(f, a, b, "stride" if f[0] == "eq" else "other")

    # ---------------------------------------------------------------- calls
    def call(self, info, env, st, ins):
        """-> list of (state, value)"""
        cal = info["callee"]
        if cal[0] == "asm":
            if cal[1] == '""':
                return [(st, UNDEF)]
            return self.asm(cal, info, env, st, ins)
        if cal[0] == "local":
            fv = env.get(cal[1])
            if not isinstance(fv, Fn):
                raise Unsupported("indirect call")
            name = fv.name
        elif cal[0] == "glob":
            name = cal[1]
        else:
            raise Unsupported("callee " + str(cal))
        args = [(t, self.val(t, v, env) if t[0] != "metadata" else UNDEF) for t, v in info["args"]]
        for pred, h in self.hooks.items():
            if (pred == name) if isinstance(pred, str) else pred(name):
                return h(self, name, args, st, ins)
        if name.startswith("@llvm."):
            return self.intrinsic(name, info["ret"], args, st, ins)
        fn = self.mod.funcs.get(name)
        if fn is None:
            return self.external(name, args, st, ins)
        if re.search(PANIC, name):
            self.unreachable("no-panic", st, ins)
            return []
        return self.apply(fn, [v for _, v in args], st, ins)

    def asm(self, cal, info, env, st, ins):
        raise Unsupported("inline asm " + cal[1][:40])

    def external(self, name, args, st, ins):
        if re.search(PANIC, name):
            self.unreachable("no-panic", st, ins)
            return []
        raise Unsupported("external " + name)

    def apply(self, fn, args, st, ins=None):
        if len(self.stack) > 40:
            raise Unsupported("recursion")
        fn.parse()
        self.fns_seen.add(fn.name)
        env = {}
        for (t, nm), v in zip(fn.params, args):
            env[nm] = v
        old = self.stack
        self.stack = self.stack + ((fn.name, ins.text if ins is not None else ""),)
        try:
            outs = self.region(fn, [(fn.entry, None, env, st, 0)], None)
        finally:
            self.stack = old
        res = []
        for o in outs:
            assert o[0] == "ret"
            res.append((o[3], o[1]))
        return res

    def intrinsic(self, name, ret, args, st, ins):
        n = name[6:]
        a = [v for _, v in args]
        one = lambda v: [(st, v)]
        if n.startswith(("lifetime.", "experimental.noalias", "prefetch", "dbg.", "donothing", "x86.sse.sfence", "x86.avx.vzeroupper", "x86.sse2.lfence", "x86.sse2.mfence")):
            return one(UNDEF)
        if n.startswith("assume"):
            if isinstance(a[0], B):
                self.oblige("assumption made by the code holds", st, a[0].f, ins)
                st.assume(a[0].f)
            return one(UNDEF)
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(st, a[0], a[1], self.exact(a[2], st), ins)
            return one(UNDEF)
        if n.startswith("memset"):
            self.memset(st, a[0], a[1], self.exact(a[2], st), ins)
            return one(UNDEF)
        m = re.match(r"(u|s)(mul|add|sub)\.with\.overflow\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            if isinstance(a[0], D) or isinstance(a[1], D):
                return one(self.ovf_data(m.group(1), m.group(2), w, a))
            if m.group(1) == "u":
                x, y = self.exact(a[0], st), self.exact(a[1], st)
                if m.group(2) == "mul":
                    r = x * y
                    f = ge0(r - (1 << w))
                elif m.group(2) == "add":
                    r = x + y
                    f = ge0(r - (1 << w))
                else:
                    r = x - y
                    f = ge0(-r - 1)
            else:
                x, y = self.sexact(a[0], st), self.sexact(a[1], st)
                r = {"mul": x * y, "add": x + y, "sub": x - y}[m.group(2)]
                f = disj([ge0(r - (1 << (w - 1))), ge0(-r - (1 << (w - 1)) - 1)])
            return one(Agg([I(w, r), B(f)]))
        m = re.match(r"(u|s)(add|sub)\.sat\.(i(\d+)|v(\d+)i(\d+))$", n)
        if m:
            sg, op = m.group(1), m.group(2)
            if m.group(4):
                w = int(m.group(4))
                if isinstance(a[0], I) and isinstance(a[1], I) and sg == "u":
                    x, y = self.exact(a[0], st), self.exact(a[1], st)
                    if op == "sub":
                        f = ge0(x - y)
                        d = self.decide_smt(f, st)
                        if d is True:
                            return one(I(w, x - y))
                        if d is False:
                            return one(I(w, ZERO))
                        return one(I(w, self.s.select(f, x - y, ZERO)))
                    f = ge0(Poly.const((1 << w) - 1) - x - y)
                    d = self.decide_smt(f, st)
                    if d is True:
                        return one(I(w, x + y))
                    raise Fork(f)
                ta, tb = self.term(a[0], w), self.term(a[1], w)
                return one(D(w, None if ta is None or tb is None else self.sat(sg, op, ta, tb, w)))
            ew = int(m.group(6))
            x, y = a
            if x.lanes is None or y.lanes is None:
                return one(V(ew, x.n, None))
            return one(V(ew, x.n, [self.sat(sg, op, p, q, ew) for p, q in zip(x.lanes, y.lanes)]))
        m = re.match(r"(u|s)(min|max)\.(i(\d+)|v(\d+)i(\d+))$", n)
        if m:
            sg, op = m.group(1), m.group(2)
            if isinstance(a[0], V):
                ew = a[0].ew
                if a[0].lanes is None or a[1].lanes is None:
                    return one(V(ew, a[0].n, None))
                return one(V(ew, a[0].n, [self.minmax(sg, op, p, q) for p, q in zip(a[0].lanes, a[1].lanes)]))
            w = int(m.group(4))
            if isinstance(a[0], I) and isinstance(a[1], I):
                e = self.exact if sg == "u" else self.sexact
                x, y = e(a[0], st), e(a[1], st)
                f = ge0(y - x) if op == "min" else ge0(x - y)
                d = self.decide_smt(f, st)
                if d is not None:
                    return one(I(w, x if d else y))
                raise Fork(f)
            ta, tb = self.term(a[0], w), self.term(a[1], w)
            return one(D(w, None if ta is None or tb is None else self.minmax(sg, op, ta, tb)))
        m = re.match(r"bswap\.(v\d+)?i(\d+)$", n)
        if m:
            if isinstance(a[0], V):
                return one(V(a[0].ew, a[0].n, None if a[0].lanes is None else [T.bswap(t) for t in a[0].lanes]))
            w = int(m.group(2))
            if isinstance(a[0], I) and a[0].p.is_const():
                v = (a[0].p.cval() & ((1 << w) - 1)).to_bytes(w // 8, "little")
                return one(I(w, Poly.const(T.signed(int.from_bytes(v, "big"), w))))
            t = self.term(a[0], w)
            return one(D(w, None if t is None else T.bswap(t)))
        m = re.match(r"fsh([lr])\.(v\d+)?i(\d+)$", n)
        if m:
            w = int(m.group(3))

            def fsh(x, y, z):
                if not T.is_const(z):
                    raise Unsupported("symbolic funnel shift")
                k = T.cval(z) % w
                if m.group(1) == "r":
                    k = (w - k) % w
                    if k == 0:
                        return y
                # high w bits of (x:y) << k
                return T.ext(T.cat([y, x]), w - k, w) if k else x

            if isinstance(a[0], V):
                if any(x.lanes is None for x in a[:3]):
                    return one(V(w, a[0].n, None))
                return one(V(w, a[0].n, [fsh(x, y, z) for x, y, z in zip(*[q.lanes for q in a[:3]])]))
            ts = [self.term(x, w) for x in a[:3]]
            return one(D(w, None if None in ts else fsh(*ts)))
        m = re.match(r"abs\.(v\d+)?i(\d+)$", n)
        if m and not isinstance(a[0], I):
            w = int(m.group(2))
            ab = lambda t: T.ite(T.cmp("slt", t, T.const(0, w)), T.binop("sub", T.const(0, w), t), t)
            if isinstance(a[0], V):
                return one(V(w, a[0].n, None if a[0].lanes is None else [ab(t) for t in a[0].lanes]))
            t = self.term(a[0], w)
            return one(D(w, None if t is None else ab(t)))
        if n.startswith("x86."):
            r = self.x86(n[4:], a)
            if r is not None:
                return one(r)
        if n.startswith(("trap", "ubsantrap")):
            self.unreachable("no-panic", st, ins)
            return []
        raise Unsupported("intrinsic " + n)

    def ovf_data(self, sg, op, w, a):
        ta, tb = self.term(a[0], w), self.term(a[1], w)
        if ta is None or tb is None:
            return Agg([D(w, None), D(1, None)])
        ex = T.zext if sg == "u" else T.sext
        wide = 2 * w
        r = T.binop(op, ex(ta, wide), ex(tb, wide))
        low = T.binop(op, ta, tb)
        ov = T.notb(T.cmp("eq", ex(low, wide), r))
        return Agg([D(w, low), D(1, ov)])

    def sat(self, sg, op, a, b, w):
        if sg == "s":
            return T.clamps(T.binop(op, T.sext(a, w + 2), T.sext(b, w + 2)), w)
        return T.clampu(T.binop(op, T.zext(a, w + 2), T.zext(b, w + 2)), w)

    def minmax(self, sg, op, a, b):
        c = T.cmp("slt" if sg == "s" else "ult", a, b)
        return T.ite(c, a, b) if op == "min" else T.ite(c, b, a)

    def x86(self, n, a):
        """semantics of the SSE2/SSSE3/AVX2 intrinsics that stay opaque in LLVM IR (Intel SDM)"""
        opaque = any(isinstance(v, V) and v.lanes is None for v in a)

        def packs(f, ew):
            x, y = a
            bits = x.ew * x.n
            if opaque:
                return V(ew, bits // ew, None)
            per = 128 // x.ew
            out = []
            for g in range(bits // 128):
                out += [f(t, ew) for t in x.lanes[g * per:(g + 1) * per]]
                out += [f(t, ew) for t in y.lanes[g * per:(g + 1) * per]]
            return V(ew, bits // ew, out)

        if re.match(r"(sse2|avx2)\.packuswb", n):
            return packs(T.clampu, 8)
        if re.match(r"(sse2|avx2)\.packssdw", n):
            return packs(T.clamps, 16)
        if re.match(r"(sse2|avx2)\.packsswb", n):
            return packs(T.clamps, 8)
        if re.match(r"(sse41|avx2)\.packusdw", n):
            return packs(T.clampu, 16)
        if re.match(r"(sse2|avx2)\.pmadd\.wd", n):
            x, y = a
            if opaque:
                return V(32, x.n // 2, None)
            out = []
            for j in range(0, x.n, 2):
                p = T.binop("mul", T.sext(x.lanes[j], 32), T.sext(y.lanes[j], 32))
                q = T.binop("mul", T.sext(x.lanes[j + 1], 32), T.sext(y.lanes[j + 1], 32))
                out.append(T.binop("add", p, q))
            return V(32, x.n // 2, out)
        m = re.match(r"(sse2|avx2)\.pmul(hu|h)\.w", n)
        if m:
            x, y = a
            if opaque:
                return V(16, x.n, None)
            e = T.zext if m.group(2) == "hu" else T.sext
            return V(16, x.n, [T.ext(T.binop("mul", e(p, 32), e(q, 32)), 16, 16) for p, q in zip(x.lanes, y.lanes)])
        if re.match(r"(ssse3\.pshuf\.b\.128|avx2\.pshuf\.b)", n):
            x, y = a
            if opaque:
                return V(8, x.n, None)
            out = []
            for j in range(x.n):
                if not T.is_const(y.lanes[j]):
                    raise Unsupported("symbolic pshufb")
                c = T.cval(y.lanes[j])
                out.append(T.const(0, 8) if c & 128 else x.lanes[(j & ~15) + (c & 15)])
            return V(8, x.n, out)
        if re.match(r"avx2\.permd", n):
            x, y = a
            if opaque:
                return V(32, 8, None)
            return V(32, 8, [x.lanes[T.cval(y.lanes[j]) & 7] for j in range(8)])
        m = re.match(r"(sse2|avx2)\.ps(ll|rl|ra)i?\.([wdq])", n)
        if m:
            x, k = a
            if opaque:
                return V(x.ew, x.n, None)
            if isinstance(k, V):
                kt = T.ext(T.cat(k.lanes), 0, 64)
            else:
                kt = self.term(k, 32)
            if not T.is_const(kt):
                raise Unsupported("symbolic vector shift")
            c = T.cval(kt)
            op = {"ll": T.shl, "rl": T.lshr, "ra": T.ashr}[m.group(2)]
            if c >= x.ew:
                if m.group(2) == "ra":
                    c = x.ew - 1
                else:
                    return V(x.ew, x.n, [T.const(0, x.ew)] * x.n)
            return V(x.ew, x.n, [op(t, c) for t in x.lanes])
        if re.match(r"sse2\.pavg\.b|avx2\.pavg\.b", n):
            x, y = a
            if opaque:
                return V(8, x.n, None)
            return V(8, x.n, [T.ext(T.binop("add", T.binop("add", T.zext(p, 10), T.zext(q, 10)), T.const(1, 10)), 1, 8) for p, q in zip(x.lanes, y.lanes)])
        return None

    # ---------------------------------------------------------------- blocks
    def region(self, fn, work, inside):
        outs = []
        header, blocks = inside if inside else (None, None)
        while work:
            bn, prev, env, st, idx = work.pop()
            if idx == 0 and prev is not None:
                if inside:
                    if bn not in blocks:
                        outs.append(("exit", (bn, prev), env, st))
                        continue
                    if bn == header:
                        outs.append(("back", prev, env, st))
                        continue
                if bn in fn.loops:
                    for o in self.loop(fn, bn, prev, env, st):
                        if o[0] == "exit":
                            work.append((o[1][0], o[1][1], o[2], o[3], 0))
                        else:
                            outs.append(o)
                    continue
            b = fn.blocks[bn]
            if idx == 0 and prev is not None and b.phis:
                vals = [(ph.dst, self.phi(ph, prev, env, b, st)) for ph in b.phis]
                for d, v in vals:
                    env[d] = v
            self.block(fn, b, idx, env, st, work, outs)
        return outs

    def phi(self, ph, prev, env, b, st):
        return self.val(ph.ty, ph.a[prev], env)

    def block(self, fn, b, idx, env, st, work, outs):
        n = len(b.ins)
        while idx < n:
            ins = b.ins[idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("execution budget exhausted")
            op = ins.op
            try:
                if op == "br":
                    if len(ins.a) == 1:
                        work.append((ins.a[0], b.name, env, st, 0))
                        return
                    c = self.val(("i", 1), ins.a[0], env)
                    if not isinstance(c, B):
                        raise Unsupported("data dependent branch")
                    self.branch(c.f, ins.a[1], ins.a[2], b.name, env, st, work)
                    return
                if op == "switch":
                    self.switch(ins, b.name, env, st, work)
                    return
                if op == "ret":
                    v = self.val(ins.ty, ins.a[0], env) if ins.a[0] is not None else UNDEF
                    outs.append(("ret", v, env, st))
                    return
                if op == "unreachable":
                    self.unreachable("unreachable code is not reached", st, ins)
                    return
                if op in ("call", "invoke"):
                    rs = self.call(ins.a, env, st, ins)
                    if op == "invoke":
                        for st2, v in rs:
                            e2 = dict(env) if len(rs) > 1 else env
                            if ins.dst:
                                e2[ins.dst] = v
                            work.append((ins.a["normal"], b.name, e2, st2, 0))
                        return
                    if not rs:
                        return
                    for st2, v in rs[1:]:
                        e2 = dict(env)
                        if ins.dst:
                            e2[ins.dst] = v
                        work.append((b.name, b.name, e2, st2, idx + 1))
                    st, v = rs[0]
                    if ins.dst:
                        env[ins.dst] = v
                else:
                    r = self.step(ins, env, st)
                    if ins.dst:
                        env[ins.dst] = r
            except Fork as fk:
                st2 = st.copy()
                e2 = dict(env)
                f = self.literal(fk.f, st)
                st.assume(f)
                st2.assume(neg(f))
                if self.feasible(st2):
                    work.append((b.name, b.name, e2, st2, idx) if idx else (b.name, None, e2, st2, 0))
                if self.feasible(st):
                    continue
                return
            idx += 1

    def literal(self, f, st):
        """an undecided literal of f to split on"""
        while f[0] in ("and", "or") or (f[0] == "not" and f[1][0] in ("and", "or")):
            if f[0] == "not":
                f = f[1]
            f = next((g for g in f[1] if self.decide(g, st) is None), f[1][0])
        return f

    def feasible(self, st):
        return self.s.check(st.pc)[0] != "unsat"

    def branch(self, f, a, b, bn, env, st, work):
        d = self.decide(f, st)
        if d is None:
            nf = neg(f)
            ra = self.s.check(st.pc + [f])[0] != "unsat"
            rb = (not ra) or self.s.check(st.pc + [nf])[0] != "unsat"
            if ra and rb:
                st2 = st.copy()
                st.assume(f)
                st2.assume(nf)
                work.append((b, bn, dict(env), st2, 0))
                work.append((a, bn, env, st, 0))
                return
            d = ra
            st.assume(f if d else nf)
        work.append((a if d else b, bn, env, st, 0))

    def switch(self, ins, bn, env, st, work):
        v = self.val(ins.ty, ins.a[0], env)
        if isinstance(v, B):
            v = I(1, Poly.const(int(v.f == TRUE))) if v.f in (TRUE, FALSE) else I(1, self.s.select(v.f, ONE, ZERO))
        if not isinstance(v, I):
            raise Unsupported("data dependent switch")
        p = self.exact(v, st)
        w = v.w
        cur = st
        for cv, tgt in ins.a[2]:
            f = eq0(p - (cv & ((1 << w) - 1)))
            d = self.decide_smt(f, cur)
            if d is False:
                continue
            if d is True:
                work.append((tgt, bn, env, cur, 0))
                return
            st2 = cur.copy()
            st2.assume(f)
            work.append((tgt, bn, dict(env), st2, 0))
            cur.assume(neg(f))
        work.append((ins.a[1], bn, env, cur, 0))

    def step(self, ins, env, st):
        op = ins.op
        if op in BINOPS:
            a, b = ins.a
            return self.binop(op, ins.ty, self.val(ins.ty, a, env), self.val(ins.ty, b, env), st, ins)
        if op == "icmp":
            pred, a, b = ins.a
            return self.icmp(pred, ins.ty, self.val(ins.ty, a, env), self.val(ins.ty, b, env), st)
        if op in CASTS:
            t, v = ins.a
            return self.cast(op, t, self.val(t, v, env), ins.ty, st)
        if op == "gep":
            return self.gep(ins.ty, [(t, self.val(t, v, env)) for t, v in ins.a])
        if op == "load":
            return self.load(ins.ty, self.val(("ptr",), ins.a[0], env), st, ins)
        if op == "store":
            self.store(ins.ty, self.val(ins.ty, ins.a[0], env), self.val(("ptr",), ins.a[1], env), st, ins)
            return None
        if op == "select":
            ct, c, a, b = ins.a
            return self.select(self.val(ct, c, env), ins.ty, self.val(ins.ty, a, env), self.val(ins.ty, b, env), st)
        if op == "alloca":
            key = (self.stack, ins.text, st.ks)
            o = self.allocs.get(key)
            if o is None:
                o = Obj("slots", "local" + ins.dst, Poly.const(sizeof(ins.ty)), cells={})
                self.allocs[key] = o
            st.wr(o).clear()
            return P(o, ZERO)
        if op == "extractvalue":
            v, idx = ins.a
            v = self.val(ins.ty, v, env)
            for i in idx:
                v = v.vs[i] if isinstance(v, Agg) else UNDEF
            return v
        if op == "insertvalue":
            v, t2, v2, idx = ins.a
            agg = self.val(ins.ty, v, env)
            x = self.val(t2, v2, env)
            return self.insertv(agg, idx, x)
        if op == "extractelement":
            v, it, iv = ins.a
            vec = self.val(ins.ty, v, env)
            i = self.val(it, iv, env).p.cval()
            if vec.lanes is None:
                return D(vec.ew, None)
            t = vec.lanes[i]
            if T.is_const(t) and vec.ew > 1:
                return I(vec.ew, Poly.const(T.signed(T.cval(t), vec.ew)))
            return D(vec.ew, t)
        if op == "insertelement":
            v, et, ev, it, iv = ins.a
            vec = self.val(ins.ty, v, env)
            x = self.val(et, ev, env)
            i = self.val(it, iv, env).p.cval()
            t = self.term(x, vec.ew)
            if vec.lanes is None or t is None:
                return V(vec.ew, vec.n, None)
            ls = list(vec.lanes)
            ls[i] = t
            return V(vec.ew, vec.n, ls)
        if op == "shufflevector":
            a, b, mt, m = ins.a
            x, y = self.val(ins.ty, a, env), self.val(ins.ty, b, env)
            n = mt[1]
            if x.lanes is None or y.lanes is None:
                return V(x.ew, n, None)
            src = x.lanes + y.lanes
            if m[0] == "zero":
                ix = [0] * n
            elif m[0] == "splat":
                ix = [m[2][1]] * n
            elif m[0] == "undef":
                ix = [None] * n
            else:
                ix = [None if q[0] == "undef" else q[1] for _, q in m[1]]
            return V(x.ew, n, [self.undef_term(x.ew) if i is None else src[i] for i in ix])
        if op == "freeze":
            return self.val(ins.ty, ins.a[0], env)
        raise Unsupported("instruction " + op)

    def insertv(self, agg, idx, x):
        vs = list(agg.vs)
        if len(idx) == 1:
            vs[idx[0]] = x
        else:
            vs[idx[0]] = self.insertv(vs[idx[0]], idx[1:], x)
        return Agg(vs)

    # ---------------------------------------------------------------- loops
    def loop(self, fn, header, prev, env, st):
        blocks = fn.loops[header]
        hb = fn.blocks[header]
        entry = {}
        for ph in hb.phis:
            entry[ph.dst] = self.val(ph.ty, ph.a[prev], env)
        site = (self.stack, header)
        lid = self.loopinfo.setdefault(site, len(self.loopinfo))
        base = f"K{lid}"
        n = 0
        while (base, n) in st.used:
            n += 1
        nm = base if n == 0 else f"{base}.{n}"
        st.used = st.used | {(base, n)}

        def body(phivals, extra, ks, memfix=None, over=False):
            e = dict(env)
            e.update(phivals)
            s2 = st.copy()
            s2.ks = st.ks + ks
            s2.over = st.over or over
            for f in extra:
                s2.assume(f)
            if memfix:
                for (o, c), (sz, v) in memfix.items():
                    self.put(s2, o, c, ("i", 8 * sz), v)
            return self.region(fn, [(header, None, e, s2, 0)], (header, blocks)), len(st.pc)

        # ---- exploration: fresh symbol for each loop-carried value
        self.quiet += 1
        try:
            ph0 = {}
            atoms = {}
            for ph in hb.phis:
                v = entry[ph.dst]
                a = f"{nm}{ph.dst}"
                if isinstance(v, I):
                    ph0[ph.dst] = I(v.w, self.s.atom(a, cls="other"))
                    self.s.bounds[a] = (0, (1 << v.w) - 1)
                    self.s.defs[a] = [ge0(Poly.atom(a)), ge0(Poly.const((1 << v.w) - 1) - Poly.atom(a))]
                    atoms[a] = ph.dst
                elif isinstance(v, P):
                    ph0[ph.dst] = P(v.obj, self.s.atom(a, cls="other"))
                    atoms[a] = ph.dst
                elif isinstance(v, B):
                    self.s.atom(a, 0, 1)
                    ph0[ph.dst] = B(eq0(Poly.atom(a) - 1))
                    atoms[a] = ph.dst
                elif isinstance(v, V):
                    ph0[ph.dst] = V(v.ew, v.n, None)
                elif isinstance(v, D):
                    ph0[ph.dst] = D(v.w, None)
                else:
                    ph0[ph.dst] = v
            outs, npc = body(ph0, [], ())
            concrete = self.try_unroll(hb, entry, outs, atoms, npc)
        except Unsupported:
            if all(self.is_concrete(v) for v in entry.values()):
                concrete = True
                outs = None
            else:
                raise
        finally:
            self.quiet -= 1
        if concrete:
            return self.unroll(fn, header, blocks, hb, entry, env, st)
        backs = [o for o in outs if o[0] == "back"]
        # ---- closed forms
        steps = {}
        pend = []
        latom = set(atoms)
        for ph in hb.phis:
            v0 = entry[ph.dst]
            if not isinstance(v0, (I, P)):
                continue
            a = f"{nm}{ph.dst}"
            ds = []
            for o in backs:
                x = self.val(ph.ty, ph.a[o[1]], o[2])
                if isinstance(v0, P) and isinstance(x, P) and x.obj is v0.obj:
                    xp = x.off
                elif isinstance(v0, I) and isinstance(x, I):
                    xp = x.p
                else:
                    ds = None
                    break
                ds.append(self.resolve(xp, o[3]))
            if not ds:
                continue
            d0 = ds[0] - Poly.atom(a)
            if all(x == ds[0] for x in ds) and not self.touches(d0, latom, nm):
                steps[ph.dst] = d0
            else:
                pend.append((ph, ds))
        for ph, ds in pend:
            # value of another closed-form variable on the previous iteration
            src = set()
            for x in ds:
                js = [q for q in x.atoms() if q in atoms and atoms[q] in steps]
                if len(js) == 1 and not self.touches(x - Poly.atom(js[0]), latom, nm):
                    src.add(steps[atoms[js[0]]])
                else:
                    src.add(None)
            if len(src) == 1 and None not in src:
                steps[ph.dst] = src.pop()
        # the counter is a natural number; the bound is an inductive hypothesis, discharged below
        K = self.s.atom(nm, lo=0, hi=KMAX, cls="idx")
        # memory changed by an iteration (other than image planes)
        changed = {}
        for o in backs:
            for ob, cells in o[3].mem.items():
                old = st.mem.get(ob, ob.cells or {})
                if cells is old:
                    continue
                for c, sv in cells.items():
                    if c in old and old[c] is not sv:
                        changed[(ob, c)] = sv[0]
                    elif c not in old and ob in st.mem:
                        changed[(ob, c)] = sv[0]
        havoc = set(ph.dst for ph in hb.phis if ph.dst not in steps)
        while True:
            phk, memfix, over = {}, {}, False
            for ph in hb.phis:
                v = entry[ph.dst]
                if ph.dst in steps and ph.dst not in havoc:
                    s = steps[ph.dst]
                    phk[ph.dst] = I(v.w, v.p + s * K) if isinstance(v, I) else P(v.obj, v.off + s * K)
                    continue
                over = True
                phk[ph.dst] = self.fresh_like(v, ph.ty, f"{nm}{ph.dst}!")
            for (ob, c), sz in changed.items():
                memfix[(ob, c)] = (sz, self.havoc_cell(sz, f"{nm}{ob.name}{c}!"))
                over = True
            ok = True
            inv = []
            self.quiet += 1
            try:
                for rnd in range(12):
                    w0 = self.wraps
                    outs, npc = body(phk, inv, (nm,), memfix, over)
                    bad = self.bad_phis(hb, outs, phk, steps, havoc, K)
                    new = self.houdini(st, nm, K, outs, npc, inv)
                    if set(new) == set(inv):
                        if bad:
                            havoc |= bad
                            ok = False
                        break
                    if rnd >= 2:
                        new = [f for f in inv if f in new]
                    inv = new
            finally:
                self.quiet -= 1
            if ok:
                break
        # ---- final pass with the invariant, generating obligations
        exact = not over
        if self.quiet:
            fin, npc = body(phk, inv, (nm,), memfix, over)
        else:
            s_inexact = st.inexact
            exact = exact and self.reach_exact(st, nm, K, inv, outs, npc)
            bounded = any(self.coef_neg(f, nm) for f in inv)
            if not backs or not [o for o in outs if o[0] == "back"]:
                bounded = exact = True
                inv = inv + [eq0(K)]
            self.obls.append(Obl("loop terminates", self.where() + " " + header, "valid" if bounded else "unknown",
                                 None, "no upper bound on the iteration count found" if not bounded else "", True))
            if not exact:
                st.inexact = True
            fin, npc = body(phk, inv, (nm,), memfix, over)
            st.inexact = s_inexact
            for o in fin:
                if o[0] == "back" and self.s.prove(o[3].pc, ge0(Poly.const(KMAX - 1) - K))[0] != "valid":
                    raise Unsupported("no bound on the number of iterations of " + header + " " + str([fstr(f) for f in inv]) + " PC " + str([fstr(f) for f in o[3].pc]))
            # the invariant must be inductive for the pass whose obligations were generated
            if self.bad_phis(hb, fin, phk, steps, havoc, K):
                raise Unsupported("closed form not confirmed")
            for f in inv:
                for o in fin:
                    if o[0] == "back":
                        g = self.s.resubst(f, {nm: K + 1})
                        r, m = self.s.prove(o[3].pc, g, True)
                        self.obls.append(Obl("loop invariant preserved", self.where() + " " + header, r, m, fstr(f), True))
                r, m = self.s.prove(st.pc, self.s.resubst(f, {nm: ZERO}), True)
                self.obls.append(Obl("loop invariant established", self.where() + " " + header, r, m, fstr(f), True))
        res = []
        for o in fin:
            if o[0] == "back":
                continue
            s2 = o[3]
            if o[0] == "exit" or o[0] == "ret":
                s2.ks = st.ks
                sub = self.eliminate(o, nm, K, inv, npc)
                if o[0] == "ret" and sub:
                    o = ("ret", self.vsub(o[1], sub), o[2], s2)
                res.append(o)
        return res

    def is_concrete(self, v):
        if isinstance(v, I):
            return v.p.is_const()
        if isinstance(v, P):
            return v.off.is_const()
        if isinstance(v, B):
            return v.f in (TRUE, FALSE)
        return True

    def touches(self, p, latom, nm):
        for a in p.atoms():
            if self.depends(a, latom):
                return True
        return False

    def depends(self, a, latom):
        if a in latom:
            return True
        for k in ("floor", "select", "divc"):
            d = self.s.intern.get((k, a))
            if d:
                for x in d:
                    if isinstance(x, Poly):
                        if any(self.depends(b, latom) for b in x.atoms()):
                            return True
                    elif isinstance(x, tuple):
                        if any(self.depends(b, latom) for b in fatoms(x)):
                            return True
        if a[0] in "unKsq" or a.startswith("bo"):
            for f in self.s.defs.get(a, ()):
                if any(b in latom for b in fatoms(f)):
                    return True
        return False

    def fresh_like(self, v, ty, nm):
        if isinstance(v, I):
            return I(v.w, self.s.atom(nm, lo=0, hi=(1 << v.w) - 1))
        if isinstance(v, P):
            return P(v.obj, self.s.atom(nm))
        if isinstance(v, B):
            return B(eq0(self.s.atom(nm, 0, 1) - 1))
        if isinstance(v, D):
            return D(v.w, None if self.quiet else T.var(("havoc", nm), v.w))
        if isinstance(v, V):
            return V(v.ew, v.n, [T.var(("havoc", nm, j), v.ew) for j in range(v.n)])
        if v is UNDEF and ty[0] == "i":
            return I(ty[1], self.s.atom(nm, lo=0, hi=(1 << ty[1]) - 1))
        return v

    def havoc_cell(self, sz, nm):
        return I(8 * sz, self.s.atom(nm, lo=0, hi=(1 << (8 * sz)) - 1))

    def try_unroll(self, hb, entry, outs, atoms, npc):
        ints = [v for v in entry.values() if isinstance(v, (I, P))]
        if not ints or not all(self.is_concrete(v) for v in entry.values()):
            return False
        for o in outs:
            for f in o[3].pc[npc:]:
                at = fatoms(f)
                if at and not all(a in atoms or self.depends(a, set(atoms)) for a in at):
                    # exit decided by something symbolic
                    if any(a in atoms for a in at) or True:
                        return False
        # at least one outcome must depend on the counters
        return any(o[0] == "back" for o in outs) and any(o[3].pc[npc:] for o in outs)

    def unroll(self, fn, header, blocks, hb, entry, env, st):
        res = []
        e = dict(env)
        e.update(entry)
        work = [(e, st, 0)]
        while work:
            e, s, n = work.pop()
            if n > 4096:
                raise Unsupported("unrolling too long")
            for o in self.region(fn, [(header, None, e, s, 0)], (header, blocks)):
                if o[0] == "back":
                    e2 = o[2]
                    vals = [(ph.dst, self.val(ph.ty, ph.a[o[1]], e2)) for ph in hb.phis]
                    for d, v in vals:
                        e2[d] = v
                    work.append((e2, o[3], n + 1))
                else:
                    res.append(o)
        return res

    def bad_phis(self, hb, outs, phk, steps, havoc, K):
        bad = set()
        for o in outs:
            if o[0] != "back":
                continue
            for ph in hb.phis:
                if ph.dst in havoc or ph.dst not in steps:
                    continue
                x = self.val(ph.ty, ph.a[o[1]], o[2])
                cur = phk[ph.dst]
                if isinstance(cur, I):
                    if not isinstance(x, I):
                        bad.add(ph.dst)
                        continue
                    xp, cp = x.p, cur.p
                else:
                    if not isinstance(x, P) or x.obj is not cur.obj:
                        bad.add(ph.dst)
                        continue
                    xp, cp = x.off, cur.off
                want = cp + steps[ph.dst]
                if xp == want or self.resolve(xp, o[3]) == want:
                    continue
                if isinstance(cur, I) and self.s.prove(o[3].pc, eq0(xp - want))[0] == "valid":
                    continue
                bad.add(ph.dst)
        return bad

    def houdini(self, st, nm, K, outs, npc, inv):
        cands = list(inv)
        backs = [o for o in outs if o[0] == "back"]
        for o in backs:
            for f in o[3].pc[npc:]:
                for g in self.cand_atoms(f):
                    if g in inv or not self.mentions(g, nm):
                        continue
                    for h in (self.s.resubst(g, {nm: K - 1}), g):
                        if h not in cands and h[0] == "ge":
                            cands.append(h)
        good = []
        for f in cands:
            if self.s.prove(st.pc, self.s.resubst(f, {nm: ZERO}))[0] == "valid":
                good.append(f)
        ch = True
        while ch and good:
            ch = False
            for f in list(good):
                g = self.s.resubst(f, {nm: K + 1})
                for o in backs:
                    if self.s.prove(list(o[3].pc) + good, g)[0] != "valid":
                        good.remove(f)
                        ch = True
                        break
        # drop implied ones
        out = []
        for f in good:
            rest = [g for g in good if g is not f and g in out]
            if rest and self.s.prove(st.pc + rest, f)[0] == "valid":
                continue
            out.append(f)
        fin = []
        for f in out:
            rest = [g for g in out if g != f]
            if rest and self.s.prove(rest, f)[0] == "valid":
                out = rest
                continue
        return out

    def cand_atoms(self, f):
        k = f[0]
        if k == "ge":
            return [f]
        if k == "eq":
            return []
        if k == "not" and f[1][0] == "eq":
            p = f[1][1]
            out = [ge0(p - 1), ge0(-p - 1)]
            env = {}
            for a in p.atoms():
                wr = self.s.intern.get(("wrap", a))
                if wr:
                    env[a] = wr[0]
            if env:  # candidate without the wrap-around
                p = p.subst(env)
                out += [ge0(p - 1), ge0(-p - 1)]
            return out
        if k == "and":
            return [g for x in f[1] for g in self.cand_atoms(x)]
        return []

    def mentions(self, f, nm):
        s = {nm}
        return any(self.depends(a, s) for a in fatoms(f))

    def coef_neg(self, f, nm):
        if f[0] != "ge":
            return False
        cr = f[1].coeff_of(nm)
        return cr is not None and cr[0].is_const() and cr[0].cval() < 0

    def reach_exact(self, st, nm, K, inv, outs, npc):
        """iteration K happens  <=>  invariant(K): the invariant is downward closed and excludes early exits"""
        nxt = [self.s.resubst(f, {nm: K + 1}) for f in inv]
        for f in inv:
            if self.s.prove(st.pc + nxt, f)[0] != "valid":
                return False
        for o in outs:
            if o[0] == "back":
                continue
            if self.s.check(list(o[3].pc) + nxt)[0] != "unsat":
                return False
        return True

    def eliminate(self, o, nm, K, inv, npc):
        """on exit, replace the iteration counter by its closed form when the facts determine it"""
        s2 = o[3]
        ges = [f for f in s2.pc if f[0] == "ge" and nm in f[1].atoms()]
        val = None
        for f in s2.pc:
            if f[0] == "eq" and nm in f[1].atoms():
                val = self.solve(f[1], nm)
                if val is not None:
                    break
        if val is None:
            for f in ges + [ge0(K)]:
                if ge0(-f[1]) in s2.pcs:
                    val = self.solve(f[1], nm)
                    if val is not None:
                        break
        if val is None:
            # try the invariant bound
            for f in inv:
                v = self.solve(f[1], nm) if f[0] == "ge" else None
                if v is not None and self.s.prove(s2.pc, eq0(K - v))[0] == "valid":
                    val = v
                    break
        if val is None and self.s.prove(s2.pc, eq0(K))[0] == "valid":
            val = ZERO
        if val is None:
            return
        sub = {nm: val}
        pc = [self.s.resubst(f, sub) for f in s2.pc]
        s2.pc, s2.pcs = [], set()
        for f in pc:
            s2.assume(f)
        s2.assume(ge0(val))
        env = o[2]
        for k, v in list(env.items()):
            env[k] = self.vsub(v, sub)
        mem = {}
        for ob, cells in s2.mem.items():
            new = {}
            ch = False
            for c, sv in cells.items():
                v = self.vsub(sv[1], sub)
                if v is not sv[1]:
                    ch = True
                    sv = (sv[0], v)
                new[c] = sv
            mem[ob] = new if ch else cells
        s2.mem = mem
        return sub

    def solve(self, p, nm):
        cr = p.coeff_of(nm)
        if cr is None or not cr[0].is_const():
            return None
        c = cr[0].cval()
        if c == 1:
            return -cr[1]
        if c == -1:
            return cr[1]
        return None

    def vsub(self, v, sub):
        if isinstance(v, I):
            p = self.s.psubst(v.p, sub)
            return v if p is v.p else I(v.w, p)
        if isinstance(v, P):
            p = self.s.psubst(v.off, sub)
            return v if p is v.off else P(v.obj, p)
        if isinstance(v, B):
            f = self.s.resubst(v.f, sub)
            return v if f == v.f else B(f)
        if isinstance(v, Agg):
            vs = [self.vsub(x, sub) for x in v.vs]
            return v if all(x is y for x, y in zip(vs, v.vs)) else Agg(vs)
        return v


PANIC = (r"slice_index_fail|panic|unwrap_failed|expect_failed|bounds_check|len_mismatch_fail|handle_alloc_error|"
         r"index_fail|assert_failed|const_.*fail|overflow|rust_eh_|resume_unwind")


NAMES = {}


def prime(names):
    """readable names of all symbols, by c++filt where it is there"""
    import subprocess
    names = [n.strip('@"') for n in names]
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True, timeout=60)
        for n, d in zip(names, p.stdout.splitlines()):
            if d != n:
                d = re.sub(r"\[[0-9a-f]{4,}\]", "", d)
                NAMES[n] = re.sub(r"\b(dcv_color_primitives|convert_image)::", "", d)
    except (OSError, subprocess.SubprocessError):
        pass


def demangle(n):
    n = n.strip('@"')
    if n in NAMES:
        return NAMES[n]
    if not n.startswith("_R"):
        return n
    # v0 mangling: keep the identifiers, drop crate hashes
    ids = []
    i = 2
    s = n
    out = []
    m = re.sub(r"Cs[0-9A-Za-z]+_", "", s)
    j = 2
    while j < len(m):
        if m[j].isdigit() and (j == 0 or not m[j - 1].isdigit()):
            k = j
            while k < len(m) and m[k].isdigit():
                k += 1
            ln = int(m[j:k])
            if ln == 0 or ln > len(m) - k or m[j] == "0":
                j = k
                continue
            st = k + (1 if m[k] == "_" else 0)
            w = m[st:st + ln]
            if not re.fullmatch(r"\w+", w):
                j = k
                continue
            out.append(w)
            j = st + ln
        else:
            j += 1
    tail = re.findall(r"K[jb]([0-9a-f]+)_", m)
    out = [w for w in out if w not in ("dcv_color_primitives", "convert_image")]
    return "::".join(out) + (f"<{','.join(tail)}>" if tail else "")
