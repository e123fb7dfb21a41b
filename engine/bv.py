"""Exact symbolic executor for scalar control code (format checks, dispatch, size computation, CPU
detection, the C wrappers): machine integers are SMT bit-vectors, memory is a set of objects with
explicit cells, every path is followed, loops are followed to their (constant) end.  Every access
is checked against its object, every panic must be unreachable.  Anything else is Unsupported."""
import re
import z3
from irparse import *

PANIC = r"core9panicking|slice_index_fail|panic_bounds|unwrap_failed|expect_failed|rust_panic|core6option13|panic_fmt|handle_alloc_error|capacity_overflow"


class PT:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"

    def same(self, o):
        return isinstance(o, PT) and self.obj is o.obj and isinstance(self.off, int) and self.off == o.off


class FN:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class U:
    def __repr__(self):
        return "undef"


UNDEF = U()


class Ob:
    """size: int or 64-bit term; fetch(off,size)->value gives lazily created symbolic content"""

    def __init__(self, name, size, writable=True, cells=None, fetch=None):
        self.name, self.size, self.writable, self.fetch = name, size, writable, fetch
        self.cells = cells if cells is not None else {}

    def __repr__(self):
        return self.name


class St:
    __slots__ = ("pc", "mem", "own", "log", "visits")

    def __init__(self):
        self.pc, self.mem, self.own, self.log, self.visits = [], {}, set(), [], {}

    def copy(self):
        s = St()
        s.pc, s.mem, s.log, s.visits = list(self.pc), dict(self.mem), list(self.log), dict(self.visits)
        self.own = set()
        return s

    def rd(self, o):
        return self.mem.get(o, o.cells)

    def wr(self, o):
        if o not in self.own:
            self.mem[o] = dict(self.mem.get(o, o.cells))
            self.own.add(o)
        return self.mem[o]


class Ob2:
    def __init__(self, kind, where, status, model=None, detail="", pc=None):
        self.kind, self.where, self.status, self.model, self.detail, self.pc = kind, where, status, model, detail, pc
        self.over = False

    def __repr__(self):
        return f"{self.status} {self.kind} @ {self.where} {self.detail}"


class Maybe:
    """a pointer read from caller memory that may be null"""

    def __init__(self, cond, ptr):
        self.cond, self.ptr = cond, ptr


class ForkOn(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of z3 conditions


def bvw(v, w):
    return z3.BitVecVal(v, w) if isinstance(v, int) else v


def cint(e, w):
    """collapse to a python int when constant"""
    if isinstance(e, int):
        return e & ((1 << w) - 1)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Enough(Exception):
    """many obligations of one unit are open: the rest of the unit is left out"""


class Exec:
    def __init__(self, mod, hooks=None):
        self.mod = mod
        self.hooks = hooks or []  # (predicate(name), handler(ex, name, args, st, ins) -> [(st, value)])
        self.indirect = None
        self.asm = None
        self.obls = []
        self.globs = {}
        self.mutable = set()
        self.stack = ()
        self.steps = 0
        self.max_steps = 2000000
        self.cache = {}
        self.z3_calls = 0
        self.z3_s = 0.0
        self.fns_seen = set()
        self.timeout = 20000
        self.mute = False
        self.failed = 0

    # ------------------------------------------------------------ solver
    def sat(self, fs):
        """'sat' / 'unsat' / 'unknown', model"""
        fs = [z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f) for f in fs]
        fs = [f for f in fs if not z3.is_true(f)]
        if any(z3.is_false(f) for f in fs):
            return "unsat", None
        key = frozenset(f.get_id() for f in fs)
        if key in self.cache:
            return self.cache[key][:2]
        import time

        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*fs)
        r = s.check()
        self.z3_calls += 1
        self.z3_s += time.time() - t
        res = (str(r), s.model() if r == z3.sat else None, fs)
        self.cache[key] = res
        return res[:2]

    def prove(self, pc, g):
        r, m = self.sat(list(pc) + [z3.Not(g)])
        return ("valid", None) if r == "unsat" else (r, m)

    def where(self, ins=None):
        from sym import demangle

        return "/".join(demangle(f) for f in self.stack[-2:]) + (": " + ins.text[:90] if ins is not None else "")

    def oblige(self, kind, st, g, ins=None, detail="", where=None):
        if self.mute:
            return
        r, m = self.prove(st.pc, g)
        self.obls.append(Ob2(kind, where or self.where(ins), r, m, detail, None if r == "valid" else list(st.pc)))
        if r != "valid":
            self.failed += 1
            if self.failed >= 80:
                raise Enough()

    def never(self, kind, st, ins):
        if self.mute:
            return
        r, m = self.sat(st.pc)
        self.obls.append(Ob2(kind, self.where(ins), "valid" if r == "unsat" else r, m, "reachable", None if r == "unsat" else list(st.pc)))

    # ------------------------------------------------------------ operands
    def bits(self, t):
        if t[0] == "i":
            return t[1]
        raise Unsupported("bits of " + str(t))

    def val(self, ty, d, env):
        k = d[0]
        if k == "local":
            if d[1] not in env:
                raise Unsupported("undefined local " + d[1])
            return env[d[1]]
        if k == "int":
            return d[1] & ((1 << self.bits(ty)) - 1)
        if k == "null":
            return PT(None, 0)
        if k == "undef":
            return UNDEF if ty[0] not in ("struct", "arr") else [self.val(t, d, env) for t in self.elems(ty)]
        if k == "zero":
            if ty[0] in ("struct", "arr"):
                return [self.val(t, d, env) for t in self.elems(ty)]
            return PT(None, 0) if ty[0] == "ptr" else 0
        if k == "glob":
            return self.globptr(d[1])
        if k == "agg":
            if ty[0] == "vec":
                raise Unsupported("vector")
            return [self.val(t, x, env) for t, x in d[1]]
        if k == "bytes":
            return list(d[1])
        if k == "cgep":
            return self.gep(d[1], [(t, self.val(t, x, env)) for t, x in d[2]])
        if k == "ccast" and d[1] == "inttoptr":
            return PT(None, self.val(d[2], d[3], env))
        raise Unsupported("operand " + str(d)[:80])

    def elems(self, ty):
        return list(ty[1]) if ty[0] == "struct" else [ty[2]] * ty[1]

    def globptr(self, nm):
        if nm in self.mod.funcs or nm in self.mod.decls:
            return FN(nm)
        o = self.globs.get(nm)
        if o is None:
            t, v, const = self.mod.global_init(nm)
            o = Ob(nm, sizeof(t), not const)
            self.globs[nm] = o
            if not const:
                self.mutable.add(o)
            if v is not None:
                self.fill(o.cells, t, self.val(t, v, {}), 0)
        return PT(o, 0)

    def fill(self, cells, t, v, off):
        if t[0] == "struct":
            if v is UNDEF:
                return
            for j, e in enumerate(t[1]):
                self.fill(cells, e, v[j], off + field_offset(t, j))
        elif t[0] == "arr":
            if v is UNDEF:
                return
            es = sizeof(t[2])
            for j, x in enumerate(v):
                self.fill(cells, t[2], x, off + j * es)
        else:
            cells[off] = (sizeof(t), v)

    def add64(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return (a + b) & ((1 << 64) - 1)
        return cint(z3.simplify(bvw(a, 64) + bvw(b, 64)), 64)

    def gep(self, ty, args):
        p = args[0][1]
        if not isinstance(p, PT):
            raise Unsupported("gep on " + str(p))
        off = p.off
        t = ty
        for j, (it, iv) in enumerate(args[1:]):
            if j:
                if t[0] == "struct":
                    off = self.add64(off, field_offset(t, iv))
                    t = t[1][iv]
                    continue
                t = t[2]
            sc = sizeof(t)
            w = self.bits(it)
            if isinstance(iv, int):
                off = self.add64(off, sx(iv, w) * sc & ((1 << 64) - 1))
            elif iv is UNDEF:
                raise Unsupported("undef index")
            else:
                e = iv if w == 64 else z3.SignExt(64 - w, iv)
                off = self.add64(off, e * z3.BitVecVal(sc, 64))
        return PT(p.obj, off)

    # ------------------------------------------------------------ memory
    def conc(self, off, st):
        """concrete offset, forking over the possible values"""
        if isinstance(off, int):
            return off
        vals = []
        extra = []
        while True:
            r, m = self.sat(st.pc + extra)
            if r == "unsat":
                break
            if r != "sat" or len(vals) > 40:
                raise Unsupported("symbolic address")
            v = m.eval(off, model_completion=True).as_long()
            vals.append(v)
            extra.append(off != v)
        if len(vals) == 1:
            return vals[0]
        raise ForkOn([off == v for v in vals])

    def access(self, st, p, n, ins, write):
        if not isinstance(p, PT):
            raise Unsupported("access through " + str(p))
        if p.obj is None:
            self.never("no access through an invalid pointer", st, ins)
            raise Dead()
        o = p.obj
        size = o.size
        if isinstance(p.off, int) and isinstance(size, int):
            if p.off + n > size:
                self.never("access in bounds of " + o.name, st, ins)
                raise Dead()
        else:
            off, sz = bvw(p.off, 64), bvw(size, 64)
            g = z3.And(z3.ULE(off, sz), z3.ULE(n, sz - off))
            self.oblige("access in bounds of " + o.name, st, g, ins)
            st.pc.append(g)
        if write and not o.writable:
            self.never("no write to read-only " + o.name, st, ins)
            raise Dead()
        return o, self.conc(p.off, st)

    def loadraw(self, st, o, c, n, ty):
        cells = st.rd(o)
        x = cells.get(c)
        if x is not None and x[0] == n:
            return x[1]
        if o.fetch is not None and x is None:
            return o.fetch(c, n, ty)
        if x is not None and x[0] > n and isinstance(x[1], int):
            return x[1] & ((1 << 8 * n) - 1)
        # gather bytes
        bs = []
        for i in range(c, c + n):
            b = self.byte(cells, i)
            if b is UNDEF:
                return UNDEF
            bs.append(b)
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), "little")
        return z3.simplify(z3.Concat(*[bvw(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]

    def byte(self, cells, i):
        for k in range(i, max(-1, i - 17), -1):
            x = cells.get(k)
            if x is not None:
                if k + x[0] <= i:
                    return UNDEF
                v = x[1]
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, int):
                    return v >> 8 * (i - k) & 255
                if isinstance(v, PT) and v.obj is None and isinstance(v.off, int):
                    return v.off >> 8 * (i - k) & 255
                if isinstance(v, (PT, FN, list)):
                    raise Unsupported("partial read of a pointer")
                j = 8 * (i - k)
                if v.size() < j + 8:
                    v = z3.ZeroExt(8 * x[0] - v.size(), v)
                return cint(z3.simplify(z3.Extract(j + 7, j, v)), 8)
        return UNDEF

    def load(self, ty, p, st, ins):
        n = sizeof(ty)
        o, c = self.access(st, p, n, ins, False)
        if ty[0] in ("struct", "arr"):
            out = []
            for j, t in enumerate(self.elems(ty)):
                off = field_offset(ty, j) if ty[0] == "struct" else j * sizeof(t)
                out.append(self.loadraw(st, o, c + off, sizeof(t), t))
            return out
        v = self.loadraw(st, o, c, n, ty)
        if isinstance(v, Maybe):
            y = self.sat(st.pc + [v.cond])[0] != "unsat"
            z = self.sat(st.pc + [z3.Not(v.cond)])[0] != "unsat"
            if y and z:
                raise ForkOn([v.cond, z3.Not(v.cond)])
            v = PT(None, 0) if y else v.ptr
        if ty[0] == "ptr" and isinstance(v, int):
            return PT(None, v)
        if ty[0] == "i":
            if isinstance(v, PT) and v.obj is None:
                v = v.off
            if isinstance(v, (PT, FN)):
                return v  # pointer moved through an integer register
            if not isinstance(v, (int, U)) and v.size() > ty[1]:
                v = z3.simplify(z3.Extract(ty[1] - 1, 0, v))
            if isinstance(v, int):
                v &= (1 << ty[1]) - 1
        return v

    def store(self, ty, v, p, st, ins):
        n = sizeof(ty)
        o, c = self.access(st, p, n, ins, True)
        if ty[0] in ("struct", "arr"):
            for j, t in enumerate(self.elems(ty)):
                off = field_offset(ty, j) if ty[0] == "struct" else j * sizeof(t)
                self.put(st, o, c + off, sizeof(t), v[j])
            return
        self.put(st, o, c, n, v)

    def put(self, st, o, c, n, v):
        if o in self.mutable and not self.mute:
            self.obls.append(Ob2("no write to global state", self.where() + " " + o.name, "sat", None, o.name))
        cells = st.wr(o)
        x = cells.get(c)
        if x is None or x[0] != n:
            self.clear(cells, c, n)
        cells[c] = (n, v)
        st.log.append(("write", o, c, n, v)) if o.fetch is not None else None

    def clear(self, cells, c, n):
        for k in [k for k in range(max(0, c - 16), c + n) if k in cells]:
            sz, v = cells[k]
            if k + sz <= c:
                continue
            if k >= c and k + sz <= c + n:
                del cells[k]
                continue
            tmp = {k: (sz, v)}
            bs = [(i, self.byte(tmp, i)) for i in range(k, k + sz) if not c <= i < c + n]
            del cells[k]
            for i, b in bs:
                cells[i] = (1, b)

    def memcpy(self, st, dst, src, n, ins):
        if not isinstance(n, int):
            n = self.conc(n, st)
        if n == 0:
            return
        so, sc = self.access(st, src, n, ins, False)
        do, dc = self.access(st, dst, n, ins, True)
        if so.fetch is not None:
            for i in range(0, n, 8):
                w = min(8, n - i)
                self.put(st, do, dc + i, w, self.loadraw(st, so, sc + i, w, ("i", 8 * w)))
            return
        sce = st.rd(so)
        items = []
        i = sc
        ks = [k for k in sce if sc - 16 <= k < sc + n]
        for k in sorted(ks):
            sz, v = sce[k]
            if k + sz <= sc:
                continue
            if k >= sc and k + sz <= sc + n:
                items.append((k - sc, sz, v))
            else:
                for j in range(max(k, sc), min(k + sz, sc + n)):
                    items.append((j - sc, 1, self.byte(sce, j)))
        dce = st.wr(do)
        if n > 256:
            for k in [k for k in dce if dc - 16 <= k < dc + n]:
                sz, v = dce[k]
                if k >= dc and k + sz <= dc + n:
                    del dce[k]
            self.clear(dce, dc, 1)
            self.clear(dce, dc + n - 1, 1)
        else:
            self.clear(dce, dc, n)
        for k, sz, v in items:
            dce[dc + k] = (sz, v)

    def memset(self, st, p, v, n, ins):
        n = self.conc(n, st)
        if n == 0:
            return
        o, c = self.access(st, p, n, ins, True)
        if not isinstance(v, int):
            raise Unsupported("memset value")
        i = 0
        while i < n:
            w = 8 if n - i >= 8 else 1
            self.put(st, o, c + i, w, int.from_bytes(bytes([v]) * w, "little"))
            i += w

    # ------------------------------------------------------------ expressions
    def binop(self, op, ty, a, b, st, ins):
        w = self.bits(ty)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 or b == 0) or op == "mul" and (a == 0 or b == 0):
                return 0
            return UNDEF
        if isinstance(a, PT) or isinstance(b, PT):
            return self.ptrarith(op, a, b, w)
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op in ("udiv", "urem", "sdiv", "srem") and b == 0:
                self.never("division by zero", st, ins)
                raise Dead()
            if op in ("shl", "lshr", "ashr") and b >= w:
                return UNDEF
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m
            if op == "lshr":
                return a >> b
            if op == "ashr":
                return (sx(a, w) >> b) & m
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sx(a, w), sx(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & m
        x, y = bvw(a, w), bvw(b, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige("no division by zero", st, y != 0, ins)
            st.pc.append(y != 0)
        if op in ("shl", "lshr", "ashr"):
            g = z3.ULT(y, w)
            self.oblige("shift amount in range", st, g, ins)
        e = {
            "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
            "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y),
            "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
            "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y),
        }[op]()
        return cint(z3.simplify(e), w)

    def ptrarith(self, op, a, b, w):
        if op == "sub" and isinstance(a, PT) and isinstance(b, PT) and a.obj is b.obj:
            return cint(z3.simplify(bvw(a.off, 64) - bvw(b.off, 64)), 64)
        if op == "add":
            p, x = (a, b) if isinstance(a, PT) else (b, a)
            if not isinstance(x, PT):
                return PT(p.obj, self.add64(p.off, x))
        if op == "sub" and isinstance(a, PT) and not isinstance(b, PT):
            return PT(a.obj, cint(z3.simplify(bvw(a.off, 64) - bvw(b, 64)), 64))
        raise Unsupported("pointer arithmetic")

    def icmp(self, pred, ty, a, b, st):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undef")
        if ty[0] == "ptr" or isinstance(a, (PT, FN)) or isinstance(b, (PT, FN)):
            return self.ptrcmp(pred, a, b)
        w = self.bits(ty)
        if isinstance(a, int) and isinstance(b, int):
            if pred in ("sgt", "sge", "slt", "sle"):
                a, b = sx(a, w), sx(b, w)
            p = pred[-2:]
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
        x, y = bvw(a, w), bvw(b, w)
        f = {
            "eq": lambda: x == y, "ne": lambda: x != y, "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y),
            "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y), "sgt": lambda: x > y, "sge": lambda: x >= y,
            "slt": lambda: x < y, "sle": lambda: x <= y,
        }[pred]()
        return self.b2v(f)

    def b2v(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return 1
        if z3.is_false(f):
            return 0
        return z3.If(f, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

    def ptrcmp(self, pred, a, b):
        if isinstance(a, FN) or isinstance(b, FN):
            eq = isinstance(a, FN) and isinstance(b, FN) and a.name == b.name
            if pred in ("eq", "ne"):
                return int(eq == (pred == "eq"))
            raise Unsupported("function pointer order")
        if isinstance(a, int):
            a = PT(None, a)
        if isinstance(b, int):
            b = PT(None, b)
        if a.obj is b.obj:
            return self.icmp(pred, ("i", 64), a.off, b.off, None)
        if pred in ("eq", "ne"):
            if (a.obj is None and a.off == 0) or (b.obj is None and b.off == 0) or (a.obj is not None and b.obj is not None):
                return int(pred == "ne")
        raise Unsupported("pointer comparison")

    def cond(self, c):
        return c == 1 if not isinstance(c, int) else z3.BoolVal(c == 1)

    def select(self, c, ty, a, b, st):
        if c is UNDEF:
            raise Unsupported("select on undef")
        if isinstance(c, int):
            return a if c else b
        if ty[0] == "i" and not isinstance(a, (PT, FN, U)) and not isinstance(b, (PT, FN, U)):
            w = ty[1]
            return cint(z3.simplify(z3.If(c == 1, bvw(a, w), bvw(b, w))), w)
        if a is b or (isinstance(a, PT) and a.same(b)) or (isinstance(a, FN) and isinstance(b, FN) and a.name == b.name):
            return a
        raise ForkOn([c == 1, c != 1])

    def cast(self, op, fty, v, ty):
        if v is UNDEF:
            return UNDEF
        if op in ("ptrtoint", "ptrtoaddr"):
            if isinstance(v, PT) and v.obj is None:
                return v.off
            return v
        if op == "inttoptr":
            return v if isinstance(v, PT) else PT(None, v)
        if op in ("bitcast", "addrspacecast"):
            return v
        if isinstance(v, PT):
            raise Unsupported("cast of a pointer")
        fw, w = self.bits(fty), self.bits(ty)
        if isinstance(v, int):
            if op == "sext":
                return sx(v, fw) & ((1 << w) - 1)
            return v & ((1 << w) - 1)
        if op == "zext":
            return z3.simplify(z3.ZeroExt(w - fw, v))
        if op == "sext":
            return z3.simplify(z3.SignExt(w - fw, v))
        return cint(z3.simplify(z3.Extract(w - 1, 0, v)), w)

    # ------------------------------------------------------------ calls
    def call(self, ins, env, st):
        info = ins.a
        cal = info["callee"]
        args = [self.val(t, v, env) if t[0] != "metadata" else UNDEF for t, v in info["args"]]
        if cal[0] == "asm":
            if cal[1] == '""':
                return [(st, UNDEF)]
            if self.asm is None:
                raise Unsupported("inline asm")
            return self.asm(self, cal, args, st, ins)
        if cal[0] == "local":
            fv = env.get(cal[1])
            if self.indirect is not None:
                return self.indirect(self, fv, args, st, ins)
            if not isinstance(fv, FN):
                raise Unsupported("indirect call")
            name = fv.name
        else:
            name = cal[1]
        for pred, h in self.hooks:
            if pred(name):
                return h(self, name, args, st, ins)
        if name.startswith("@llvm."):
            return [(st, self.intrinsic(name[6:], args, st, ins))]
        if re.search(PANIC, name):
            self.never("no panic", st, ins)
            return []
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported("external " + name)
        return self.run(fn, args, st)

    def intrinsic(self, n, a, st, ins):
        if n.startswith(("lifetime.", "experimental.noalias", "dbg.", "donothing", "prefetch")):
            return UNDEF
        if n.startswith("assume"):
            if a[0] is not UNDEF and not (isinstance(a[0], int) and a[0] == 1):
                f = self.cond(a[0])
                self.oblige("assumption made by the code holds", st, f, ins)
                st.pc.append(f)
            return UNDEF
        if n.startswith(("memcpy", "memmove")):
            self.memcpy(st, a[0], a[1], a[2], ins)
            return UNDEF
        if n.startswith("memset"):
            self.memset(st, a[0], a[1], a[2], ins)
            return UNDEF
        m = re.match(r"(u|s)(mul|add|sub)\.with\.overflow\.i(\d+)", n)
        if m:
            w = int(m.group(3))
            x, y = bvw(a[0], w), bvw(a[1], w)
            ext = z3.ZeroExt if m.group(1) == "u" else z3.SignExt
            op = {"mul": lambda p, q: p * q, "add": lambda p, q: p + q, "sub": lambda p, q: p - q}[m.group(2)]
            r = z3.simplify(op(x, y))
            if m.group(1) == "u" and m.group(2) == "mul":
                f = z3.Not(z3.BVMulNoOverflow(x, y, False))
            else:
                k = w + 2 if m.group(2) != "mul" else 2 * w
                f = op(ext(k - w, x), ext(k - w, y)) != ext(k - w, r)
            return [cint(r, w), self.b2v(f)]
        m = re.match(r"(u|s)(add|sub)\.sat\.i(\d+)$", n)
        if m and m.group(1) == "u":
            w = int(m.group(3))
            x, y = bvw(a[0], w), bvw(a[1], w)
            if m.group(2) == "sub":
                e = z3.If(z3.ULE(y, x), x - y, z3.BitVecVal(0, w))
            else:
                e = z3.If(z3.ULT(x + y, x), z3.BitVecVal(-1, w), x + y)
            return cint(z3.simplify(e), w)
        m = re.match(r"(u|s)(min|max)\.i(\d+)$", n)
        if m:
            w = int(m.group(3))
            x, y = bvw(a[0], w), bvw(a[1], w)
            lt = z3.ULT(x, y) if m.group(1) == "u" else x < y
            e = z3.If(lt, x, y) if m.group(2) == "min" else z3.If(lt, y, x)
            return cint(z3.simplify(e), w)
        m = re.match(r"(u|s)cmp\.i(\d+)\.i(\d+)$", n)
        if m:
            r, w = int(m.group(2)), int(m.group(3))
            x, y = bvw(a[0], w), bvw(a[1], w)
            lt = z3.ULT(x, y) if m.group(1) == "u" else x < y
            return cint(z3.simplify(z3.If(lt, z3.BitVecVal(-1, r), z3.If(x == y, z3.BitVecVal(0, r), z3.BitVecVal(1, r)))), r)
        m = re.match(r"ctpop\.i(\d+)$", n)
        if m:
            w = int(m.group(1))
            x = bvw(a[0], w)
            return cint(z3.simplify(z3.Sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)])), w)
        m = re.match(r"expect\.i\d+", n)
        if m:
            return a[0]
        raise Unsupported("intrinsic " + n)

    # ------------------------------------------------------------ execution
    def run(self, fn, args, st):
        """-> [(state, value)]"""
        if len(self.stack) > 40:
            raise Unsupported("recursion")
        fn.parse()
        self.fns_seen.add(fn.name)
        if len(args) != len(fn.params):
            raise Unsupported("argument count of " + fn.name)
        env = {nm: v for (t, nm), v in zip(fn.params, args)}
        old = self.stack
        self.stack = old + (fn.name,)
        depth = len(self.stack)
        outs = []
        work = [(fn.entry, None, env, st, 0)]
        try:
            while work:
                bn, prev, env, st, idx = work.pop()
                b = fn.blocks[bn]
                if idx == 0:
                    k = (depth, bn)
                    st.visits[k] = st.visits.get(k, 0) + 1
                    if st.visits[k] > 20000:
                        raise Unsupported("loop not finished after 20000 iterations")
                    if b.phis:
                        new = [(p.dst, self.val(p.ty, p.a[prev], env)) for p in b.phis]
                        env.update(new)
                try:
                    self.block(fn, b, max(idx, 0), env, st, work, outs)
                except Dead:
                    pass
        finally:
            self.stack = old
        for s2, _ in outs:
            for k in [k for k in s2.visits if k[0] >= depth]:
                del s2.visits[k]
        return outs

    def block(self, fn, b, idx, env, st, work, outs):
        n = len(b.ins)
        while idx < n:
            ins = b.ins[idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("execution budget exhausted")
            op = ins.op
            try:
                if op == "br":
                    if len(ins.a) == 1:
                        work.append((ins.a[0], b.name, env, st, 0))
                        return
                    c = self.val(("i", 1), ins.a[0], env)
                    if c is UNDEF:
                        raise Unsupported("branch on undef")
                    if isinstance(c, int):
                        work.append((ins.a[1] if c else ins.a[2], b.name, env, st, 0))
                        return
                    self.fork([(c == 1, ins.a[1]), (c != 1, ins.a[2])], b, env, st, work)
                    return
                if op == "switch":
                    v = self.val(ins.ty, ins.a[0], env)
                    w = self.bits(ins.ty)
                    m = (1 << w) - 1
                    if isinstance(v, int):
                        t = next((t for cv, t in ins.a[2] if cv & m == v), ins.a[1])
                        work.append((t, b.name, env, st, 0))
                        return
                    if v is UNDEF:
                        raise Unsupported("switch on undef")
                    alts = [(v == (cv & m), t) for cv, t in ins.a[2]]
                    alts.append((z3.And(*[v != (cv & m) for cv, _ in ins.a[2]]), ins.a[1]))
                    self.fork(alts, b, env, st, work)
                    return
                if op == "ret":
                    outs.append((st, self.val(ins.ty, ins.a[0], env) if ins.a[0] is not None else UNDEF))
                    return
                if op == "unreachable":
                    self.never("unreachable code is not reached", st, ins)
                    return
                if op in ("call", "invoke"):
                    rs = self.call(ins, env, st)
                    nxt = (ins.a["normal"], b.name) if op == "invoke" else None
                    for s2, v in rs[1:] if nxt is None else rs:
                        e2 = dict(env)
                        if ins.dst:
                            e2[ins.dst] = v
                        work.append((nxt[0], nxt[1], e2, s2, 0) if nxt else (b.name, b.name, e2, s2, idx + 1))
                    if nxt or not rs:
                        return
                    st, v = rs[0]
                    if ins.dst:
                        env[ins.dst] = v
                else:
                    v = self.step(ins, env, st)
                    if ins.dst:
                        env[ins.dst] = v
            except ForkOn as fk:
                for c in fk.alts:
                    if self.sat(st.pc + [c])[0] == "unsat":
                        continue
                    s2 = st.copy()
                    s2.pc.append(c)
                    work.append((b.name, b.name, dict(env), s2, idx) if idx else (b.name, b.name, dict(env), s2, -1))
                return
            idx += 1

    def fork(self, alts, b, env, st, work):
        live = [(c, t) for c, t in alts if self.sat(st.pc + [c])[0] != "unsat"]
        for i, (c, t) in enumerate(live):
            s2 = st.copy() if i < len(live) - 1 else st
            if len(live) > 1:
                s2.pc.append(z3.simplify(c))
            work.append((t, b.name, dict(env) if i < len(live) - 1 else env, s2, 0))

    def step(self, ins, env, st):
        op = ins.op
        V = lambda t, v: self.val(t, v, env)
        if op in BINOPS:
            return self.binop(op, ins.ty, V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1]), st, ins)
        if op == "icmp":
            p, a, b = ins.a
            return self.icmp(p, ins.ty, V(ins.ty, a), V(ins.ty, b), st)
        if op in CASTS:
            t, v = ins.a
            return self.cast(op, t, V(t, v), ins.ty)
        if op == "gep":
            return self.gep(ins.ty, [(t, V(t, v)) for t, v in ins.a])
        if op == "load":
            return self.load(ins.ty, V(("ptr",), ins.a[0]), st, ins)
        if op == "store":
            return self.store(ins.ty, V(ins.ty, ins.a[0]), V(("ptr",), ins.a[1]), st, ins)
        if op == "select":
            ct, c, a, b = ins.a
            return self.select(V(ct, c), ins.ty, V(ins.ty, a), V(ins.ty, b), st)
        if op == "alloca":
            return PT(Ob("local" + ins.dst, sizeof(ins.ty)), 0)
        if op == "extractvalue":
            v, idx = ins.a
            v = V(ins.ty, v)
            for i in idx:
                v = v[i] if isinstance(v, list) else UNDEF
            return v
        if op == "insertvalue":
            v, t2, v2, idx = ins.a
            agg = V(ins.ty, v)
            x = V(t2, v2)

            def ins_(a, ix):
                a = list(a)
                a[ix[0]] = x if len(ix) == 1 else ins_(a[ix[0]], ix[1:])
                return a

            return ins_(agg, idx)
        if op == "freeze":
            v = V(ins.ty, ins.a[0])
            if v is UNDEF and ins.ty[0] == "i":
                return z3.FreshConst(z3.BitVecSort(ins.ty[1]), "freeze")
            return v
        raise Unsupported("instruction " + op)


class Dead(Exception):
    pass
