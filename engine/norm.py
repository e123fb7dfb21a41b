"""Equality of data terms: canonical integer forms, complete enumeration of up to three
byte variables, or bit-vector SMT."""
import random
import time
import terms as T
from poly import *


class Norm:
    """integer normal form: polynomial over byte variables, floor atoms and clamp atoms, with ranges"""

    def __init__(self):
        self.memo = {}
        self.rng = {}  # atom -> (lo, hi)
        self.tab = {}

    def range(self, p):
        lo = hi = p.cval()
        for m, c in p.t.items():
            if not m:
                continue
            l, h = 1, 1
            for a in m:
                al, ah = self.rng[a]
                xs = (l * al, l * ah, h * al, h * ah)
                l, h = min(xs), max(xs)
            if c > 0:
                lo, hi = lo + c * l, hi + c * h
            else:
                lo, hi = lo + c * h, hi + c * l
        return lo, hi

    def floor(self, p, k):
        """floor(p / 2^k)"""
        if k == 0:
            return p
        d = 1 << k
        whole, rest = {}, {}
        for m, c in p.t.items():
            if m == ():
                q, r = divmod(c, d)
            elif c % d == 0:
                q, r = c // d, 0
            else:
                q, r = 0, c
            if q:
                whole[m] = q
            if r:
                rest[m] = r
        w, r = Poly(whole), Poly(rest)
        if not r.t:
            return w
        lo, hi = self.range(r)
        if lo // d == hi // d:
            return w + lo // d
        g = 0
        for m, c in r.t.items():
            if m:
                while g < k and c % (1 << (g + 1)) == 0:
                    g += 1
                    break
        # reduce common power of two
        j = k
        for m, c in r.t.items():
            if m:
                t = (c & -c).bit_length() - 1
                j = min(j, t)
        if j > 0:
            r2 = {m: c >> j for m, c in r.t.items() if m}
            if r.cval() >> j:
                r2[()] = r.cval() >> j
            return w + self.floor(Poly(r2), k - j)
        # floor of a single floor atom
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if c == 1 and len(m) == 1 and m[0][0] == "F":
                p0, k0 = self.tab[m[0]]
                return w + self.floor(p0, k0 + k)
        key = ("F", r, k)
        a = self.tab.get(key)
        if a is None:
            a = f"F{len(self.tab)}"
            self.tab[key] = a
            self.tab[a] = (r, k)
            self.rng[a] = (lo >> k, hi >> k)
        return w + Poly.atom(a)

    def clamp(self, p, lo, hi):
        l, h = self.range(p)
        if l >= lo and h <= hi:
            return p
        if h <= lo:
            return Poly.const(lo)
        if l >= hi:
            return Poly.const(hi)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][0] == "C":
                p0, l0, h0 = self.tab[m[0]]
                # clamp(clamp(x,l0,h0),lo,hi)
                nl, nh = max(lo, l0), min(hi, h0)
                if nl <= nh and l0 <= lo <= h0 and l0 <= hi <= h0:
                    return self.clamp(p0, lo, hi)
        if l >= lo:
            lo = max(lo, -(1 << 40))
        # one sided clamps in canonical form
        lo2 = max(lo, l) if False else lo
        key = ("C", p, lo if l < lo else None, hi if h > hi else None)
        a = self.tab.get(key)
        if a is None:
            a = f"C{len(self.tab)}"
            self.tab[key] = a
            self.tab[a] = (p, lo, hi)
            self.rng[a] = (max(l, lo), min(h, hi))
        return Poly.atom(a)

    def uval(self, t):
        p, w = self.rep(t), T.width(t)
        return self.fit(p, 0, (1 << w) - 1, w)

    def sval(self, t):
        p, w = self.rep(t), T.width(t)
        return self.fit(p, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)

    def fit(self, p, lo, hi, w):
        l, h = self.range(p)
        if l >= lo and h <= hi:
            return p
        k = (lo - l + (1 << w) - 1) >> w if l < lo else -((h - hi + (1 << w) - 1) >> w)
        if l + (k << w) >= lo and h + (k << w) <= hi:
            return p + (k << w)
        # explicit wrap
        return p - self.floor(p - lo, w).scale(1 << w)

    def rep(self, t):
        """integer polynomial congruent to t modulo 2^width"""
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            need = [y for y in T.children(T.N[x]) if y not in self.memo]
            if need:
                st.extend(need)
                continue
            self.memo[x] = self.rep1(x)
            st.pop()
        return self.memo[t]

    def rep1(self, t):
        n = T.N[t]
        op, w = n[0], n[1]
        if op == "c":
            return Poly.const(T.signed(n[2], w))
        if op == "var":
            a = f"v{t}"
            self.rng[a] = (0, (1 << w) - 1)
            return Poly.atom(a)
        if op == "cat":
            p, off = ZERO, 0
            for x in n[2][:-1]:
                p = p + self.uval(x).scale(1 << off)
                off += T.width(x)
            last = n[2][-1]
            q = self.rep(last)
            # prefer a non-negative representative when the top part is a constant zero
            return p + q.scale(1 << off)
        if op == "ext":
            p = self.rep(n[2])
            if n[3] == 0:
                return p
            return self.floor(p, n[3])
        if op == "sext":
            return self.sval(n[2])
        if op == "clampu":
            return self.clamp(self.sval(n[2]), 0, (1 << w) - 1)
        if op == "clamps":
            return self.clamp(self.sval(n[2]), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if op in ("add", "sub", "mul"):
            a, b = self.rep(n[2]), self.rep(n[3])
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            return self.reduce(r, w)
        if op == "and":
            a, b = n[2], n[3]
            if T.is_const(a):
                a, b = b, a
            if T.is_const(b):
                m = T.cval(b)
                out, i = ZERO, 0
                p = self.uval(a)
                while i < w:
                    if not m >> i & 1:
                        i += 1
                        continue
                    j = i
                    while j < w and m >> j & 1:
                        j += 1
                    out = out + self.floor(p, i).scale(1 << i) - (self.floor(p, j).scale(1 << j) if j < w else ZERO)
                    i = j
                return out
        if op == "lshr" or op == "shl" or op == "ashr":
            pass
        # opaque
        key = ("T", t)
        a = self.tab.get(key)
        if a is None:
            a = f"T{len(self.tab)}"
            self.tab[key] = a
            self.rng[a] = (0, (1 << w) - 1)
        return Poly.atom(a)

    def reduce(self, p, w):
        """balance coefficients modulo 2^w when they are out of range"""
        h = 1 << (w - 1)
        if all(-h <= c < h for c in p.t.values()):
            return p
        r = {}
        for m, c in p.t.items():
            c = (c + h) % (1 << w) - h
            if c:
                r[m] = c
        return Poly(r)


class Equal:
    """cached equality decisions, alpha-renamed"""

    def __init__(self):
        self.norm = Norm()
        self.cache = {}
        self.stats = {"identical": 0, "normal-form": 0, "enumeration": 0, "bitvector-smt": 0, "cache": 0, "refuted": 0, "unknown": 0}
        self.time = {"enumeration": 0.0, "bitvector-smt": 0.0, "search": 0.0}
        self.rand = random.Random(12345)
        self.checked = 0

    def equal(self, a, b):
        """-> (True, how) | (False, env) | (None, why); env maps variable term -> int"""
        if a == b:
            self.stats["identical"] += 1
            return True, "identical"
        key, order = T.canon((a, b))
        r = self.cache.get(key)
        if r is not None:
            self.stats["cache"] += 1
            if r[0] is False:
                inv = {i: v for v, i in order.items()}
                return False, {inv[i]: x for i, x in r[1].items()}
            return r
        r = self.decide(a, b, order)
        if r[0] is False:
            self.cache[key] = (False, {order[v]: x for v, x in r[1].items() if v in order})
        else:
            self.cache[key] = r
        return r

    def decide(self, a, b, order):
        vs = list(order)
        # quick refutation on random and extreme points
        for i in range(24):
            env = {}
            for v in vs:
                w = T.width(v)
                m = (1 << w) - 1
                env[v] = self.rand.choice((0, m, self.rand.randint(0, m), self.rand.randint(0, m)))
            if T.evaluate(a, env) != T.evaluate(b, env):
                self.stats["refuted"] += 1
                return False, env
        if T.width(a) == T.width(b) and self.norm.uval(a) == self.norm.uval(b):
            self.stats["normal-form"] += 1
            return True, "normal-form"
        if len(vs) <= 3 and all(T.width(v) == 8 for v in vs):
            t0 = time.time()
            env = enumerate_bytes(a, b, vs)
            self.time["enumeration"] += time.time() - t0
            self.stats["enumeration"] += 1
            if env is None:
                return True, "enumeration"
            self.stats["refuted"] += 1
            return False, env
        t0 = time.time()
        env = self.search(a, b, vs)
        self.time["search"] += time.time() - t0
        if env is not None:
            self.stats["refuted"] += 1
            return False, env
        t0 = time.time()
        import z3

        (x, y), zv = T.to_z3((a, b), z3)
        s = z3.SolverFor("QF_BV")
        # the first undecided equations of a unit get the full time, later ones little
        s.set("timeout", (20000, 10000, 5000)[self.stats["unknown"]] if self.stats["unknown"] < 3 else 1000)
        s.add(x != y)
        r = s.check()
        self.time["bitvector-smt"] += time.time() - t0
        self.stats["bitvector-smt"] += 1
        if r == z3.unsat:
            return True, "bitvector-smt"
        if r == z3.sat:
            m = s.model()
            env = {v: (m.eval(zv[v], model_completion=True).as_long() if v in zv else 0) for v in vs}
            self.stats["refuted"] += 1
            return False, env
        self.stats["unknown"] += 1
        return None, "no decision within the time limit"


    def search(self, a, b, vs):
        """a concrete assignment on which the terms differ, by sampling; None when none was met"""
        import numpy as np

        if any(T.width(v) > 32 for v in vs):
            return None
        order, seen = [], set()
        for t in (a, b):
            for x in T.topo(t):
                if x not in seen:
                    seen.add(x)
                    order.append(x)
        rng = np.random.default_rng(len(vs) + 1)
        n = 1 << 15
        t0 = time.time()
        for i in range(256):
            val = {}
            for v in vs:
                m = (1 << T.width(v)) - 1
                x = rng.integers(0, m, n, dtype=np.int64, endpoint=True)
                if i % 4 == 3:  # many extreme bytes
                    c = rng.integers(0, 4, n)
                    x = np.where(c == 0, 0, np.where(c == 1, m, x))
                val[v] = x
            try:
                ev = np_eval(order, dict(val), np)
            except OverflowError:
                return None
            d = np.broadcast_to(np.asarray(ev[a] != ev[b]), (n,))
            if d.any():
                j = int(np.argmax(d))
                env = {v: int(val[v][j]) for v in vs}
                if T.evaluate(a, env) != T.evaluate(b, env):
                    return env
            if time.time() - t0 > (10 if self.stats["unknown"] < 4 else 3):
                break
        return None


def enumerate_bytes(a, b, vs):
    """exhaustive comparison over all values of at most 3 byte variables; None if equal everywhere"""
    import numpy as np

    n = len(vs)
    grids = []
    if n == 3:
        outer = range(256)
        base = np.arange(65536, dtype=np.int64)
        v1, v2 = base >> 8, base & 255
    else:
        outer = [None]
        base = np.arange(256 ** n if n else 1, dtype=np.int64)
        v1, v2 = base >> 8, base & 255
    order = []
    seen = set()
    for t in (a, b):
        for x in T.topo(t):
            if x not in seen:
                seen.add(x)
                order.append(x)
    for o in outer:
        val = {}
        if n == 3:
            val[vs[0]] = np.int64(o)
            val[vs[1]], val[vs[2]] = v1, v2
        elif n == 2:
            val[vs[0]], val[vs[1]] = v1, v2
        elif n == 1:
            val[vs[0]] = v2
        ev = np_eval(order, val, np)
        d = np.asarray(ev[a] != ev[b])
        if d.any():
            i = int(np.argmax(np.broadcast_to(d, base.shape)))
            env = {}
            for v in vs:
                g = val[v]
                env[v] = int(g) if np.ndim(g) == 0 else int(g[i])
            return env
    return None


def np_eval(order, val, np):
    for x in order:
        if x in val:
            continue
        n = T.N[x]
        op, w = n[0], n[1]
        if w > 62 and op not in ("c", "cat", "ext", "var"):
            raise OverflowError("wide term")
        m = (1 << w) - 1 if w <= 62 else None

        def sg(y):
            yw = T.width(y)
            v = val[y]
            return np.where(v >> (yw - 1) & 1, v - (1 << yw), v)

        if op == "c":
            v = np.int64(n[2]) if w <= 62 else n[2]
        elif op == "cat":
            v, off = np.int64(0), 0
            if w > 62:
                raise OverflowError("wide term")
            for p in n[2]:
                v = v | (val[p] << off)
                off += T.width(p)
        elif op == "ext":
            v = val[n[2]] >> n[3] & m
        elif op == "sext":
            v = sg(n[2]) & m
        elif op == "clampu":
            v = np.clip(sg(n[2]), 0, m)
        elif op == "clamps":
            v = np.clip(sg(n[2]), -(1 << w - 1), (1 << w - 1) - 1) & m
        elif op == "not":
            v = 1 - val[n[2]]
        elif op == "ite":
            v = np.where(val[n[2]] != 0, val[n[3]], val[n[4]])
        else:
            a, b = val[n[2]], val[n[3]]
            if op == "mul":
                aw = T.width(n[2])
                # operands are below 2^w; keep the product inside 63 bits
                if aw > 31:
                    sa, sb = sg(n[2]), sg(n[3])
                    v = (sa * sb) & m
                    if aw > 32:
                        raise OverflowError("wide multiply")
                else:
                    v = (a * b) & m
            elif op == "add":
                v = (a + b) & m
            elif op == "sub":
                v = (a - b) & m
            elif op == "and":
                v = a & b
            elif op == "or":
                v = a | b
            elif op == "xor":
                v = a ^ b
            elif op == "eq":
                v = (a == b).astype(np.int64) if hasattr(a == b, "astype") else np.int64(a == b)
            elif op == "ult":
                v = np.asarray(a < b).astype(np.int64)
            elif op == "slt":
                v = np.asarray(sg(n[2]) < sg(n[3])).astype(np.int64)
            elif op == "lshr":
                v = np.where(b < w, a >> np.minimum(b, w - 1), 0)
            elif op == "shl":
                v = np.where(b < w, a << np.minimum(b, w - 1), 0) & m
            elif op == "ashr":
                v = (sg(n[2]) >> np.minimum(b, w - 1)) & m
            elif op == "udiv":
                v = np.where(b != 0, a // np.maximum(b, 1), m)
            elif op == "urem":
                v = np.where(b != 0, a % np.maximum(b, 1), a)
            else:
                raise OverflowError("op " + op)
        val[x] = v
    return val
