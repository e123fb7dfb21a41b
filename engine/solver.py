"""Discharging address-domain obligations: linear integer arithmetic (z3) over atoms and
over non-linear monomials, plus instances of the lemma  a>=0 & b>=0 -> a*b>=0.

Atoms are mathematical integers.  Every atom has a definition (facts), e.g. floor
division, machine wrap-around, or the library's "0 means default" stride selection.
"""
import time
import z3
from poly import *


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_calls = 0
        self.cache_hits = 0
        self.z3_s = 0.0


class Solver:
    def __init__(self):
        self.defs = {}  # atom -> list of formulas (definition / range facts)
        self.cls = {}  # atom -> 'idx' | 'stride' | 'len' | 'other'
        self.intern = {}
        self.n = 0
        self.zcache = {}
        self.zvars = {}
        self.cache = {}
        self.bounds = {}
        self.stats = Stats()
        self.timeout = 20000

    # ---------------------------------------------------------- atoms
    def atom(self, name, lo=None, hi=None, cls="other", facts=()):
        if name not in self.defs:
            p = Poly.atom(name)
            fs = list(facts)
            if lo is not None:
                fs.append(ge0(p - lo))
            if hi is not None:
                fs.append(ge0(Poly.const(hi) - p if isinstance(hi, int) else hi - p))
            self.defs[name] = [f for f in fs if f != TRUE]
            self.cls[name] = cls
            self.bounds[name] = (lo if isinstance(lo, int) else None, hi if isinstance(hi, int) else None)
        return Poly.atom(name)

    def fresh(self, prefix, **kw):
        self.n += 1
        return self.atom(f"{prefix}{self.n}", **kw)

    def floor_div(self, p, k):
        """floor(p / k), k > 0 constant"""
        if p.is_const():
            return Poly.const(p.cval() // k)
        whole, rest = {}, {}
        for m, c in p.t.items():
            if c % k == 0:
                whole[m] = c // k
            elif m == ():
                if c // k:
                    whole[m] = c // k
                rest[m] = c % k
            else:
                rest[m] = c
        w, r = Poly(whole), Poly(rest)
        if not r.t:
            return w
        if r.is_const():
            return w
        lo, hi = self.interval(r)
        if lo is not None and hi is not None and lo // k == hi // k:
            return w + lo // k
        g = 0
        for m, c in r.t.items():
            if m:
                g = gcd_(g, c)
        g = gcd_(g, k)
        if g > 1:  # floor((g*A + c)/(g*B)) = floor((A + floor(c/g))/B)
            r2 = {m: c // g for m, c in r.t.items() if m}
            if r.cval() // g:
                r2[()] = r.cval() // g
            return w + self.floor_div(Poly(r2), k // g)
        # floor of floor: single floor atom with coefficient 1 and no remainder
        if len(r.t) == 1:
            (m, c), = r.t.items()
            if c == 1 and len(m) == 1 and ("floor", m[0]) in self.intern:
                p0, k0 = self.intern[("floor", m[0])]
                return w + self.floor_div(p0, k0 * k)
        key = ("fl", r, k)
        if key not in self.intern:
            self.n += 1
            nm = f"q{self.n}"
            q = Poly.atom(nm)
            cls = "idx" if all(self.cls.get(a) == "idx" for a in r.atoms()) and r.degree() == 1 else "other"
            lo, hi = self.interval(r)
            self.atom(nm, None if lo is None else lo // k, None if hi is None else hi // k, cls,
                      [ge0(r - q * k), ge0(q * k + (k - 1) - r)])
            self.intern[key] = q
            self.intern[("floor", nm)] = (r, k)
        return w + self.intern[key]

    def wrap(self, p, w):
        """value of p modulo 2**w as a number in [0, 2**w)"""
        key = ("wr", p, w)
        if key not in self.intern:
            self.n += 1
            nm, qn = f"u{self.n}", f"n{self.n}"
            u, q = Poly.atom(nm), Poly.atom(qn)
            self.atom(qn)
            self.atom(nm, 0, (1 << w) - 1, "other", [eq0(p - u - q.scale(1 << w))])
            self.intern[key] = u
            self.intern[("wrap", nm)] = (p, w)
        return self.intern[key]

    def select(self, c, a, b, cls="other"):
        key = ("sel", c, a, b)
        if key not in self.intern:
            self.n += 1
            nm = f"s{self.n}"
            s = Poly.atom(nm)
            la, ha = self.interval(a)
            lb, hb = self.interval(b)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            self.atom(nm, lo, hi, cls, [disj([neg(c), eq0(s - a)]), disj([c, eq0(s - b)])])
            self.intern[key] = s
            self.intern[("select", nm)] = (c, a, b)
        return self.intern[key]

    # ---------------------------------------------------------- substitution through definitions
    def psubst(self, p, env):
        """substitute atoms in p, rebuilding the atoms (floor, select, wrap) defined from them"""
        key = (p, tuple(sorted((a, v) for a, v in env.items()))) if False else None
        e = {}
        for a in p.atoms():
            r = self.asubst(a, env)
            if r is not None:
                e[a] = r
        return p.subst(e) if e else p

    def asubst(self, a, env):
        if a in env:
            return env[a]
        fl = self.intern.get(("floor", a))
        if fl:
            q = self.psubst(fl[0], env)
            return None if q is fl[0] or q == fl[0] else self.floor_div(q, fl[1])
        sl = self.intern.get(("select", a))
        if sl:
            c, x, y = self.resubst(sl[0], env), self.psubst(sl[1], env), self.psubst(sl[2], env)
            if (c, x, y) == sl:
                return None
            if c == TRUE:
                return x
            if c == FALSE:
                return y
            return self.select(c, x, y)
        wr = self.intern.get(("wrap", a))
        if wr:
            q = self.psubst(wr[0], env)
            return None if q == wr[0] else self.wrap(q, wr[1])
        return None

    def resubst(self, f, env):
        k = f[0]
        if k in ("t", "f"):
            return f
        if k == "ge":
            q = self.psubst(f[1], env)
            return f if q is f[1] else ge0(q)
        if k == "eq":
            q = self.psubst(f[1], env)
            return f if q is f[1] else eq0(q)
        if k == "not":
            return neg(self.resubst(f[1], env))
        if k == "and":
            return conj([self.resubst(x, env) for x in f[1]])
        return disj([self.resubst(x, env) for x in f[1]])

    # ---------------------------------------------------------- interval arithmetic (fast path)
    def interval(self, p):
        lo = hi = p.cval()
        for m, c in p.t.items():
            if not m:
                continue
            l, h = 1, 1
            for a in m:
                al, ah = self.bounds.get(a, (None, None))
                if al is None or al < 0:
                    return (None, None)
                l = l * al
                h = None if (h is None or ah is None) else h * ah
            if c > 0:
                lo = None if lo is None else lo + c * l
                hi = None if (hi is None or h is None) else hi + c * h
            else:
                lo = None if (lo is None or h is None) else lo + c * h
                hi = None if hi is None else hi + c * l
        return lo, hi

    # ---------------------------------------------------------- z3
    def zvar(self, m):
        v = self.zvars.get(m)
        if v is None:
            v = z3.Int("*".join(m))
            self.zvars[m] = v
        return v

    def zpoly(self, p):
        terms = []
        for m, c in p.t.items():
            if not m:
                terms.append(z3.IntVal(c))
            elif c == 1:
                terms.append(self.zvar(m))
            else:
                terms.append(z3.IntVal(c) * self.zvar(m))
        if not terms:
            return z3.IntVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zf(self, f):
        v = self.zcache.get(f)
        if v is None:
            k = f[0]
            if k == "t":
                v = z3.BoolVal(True)
            elif k == "f":
                v = z3.BoolVal(False)
            elif k == "ge":
                v = self.zpoly(f[1]) >= 0
            elif k == "eq":
                v = self.zpoly(f[1]) == 0
            elif k == "not":
                v = z3.Not(self.zf(f[1]))
            elif k == "and":
                v = z3.And([self.zf(x) for x in f[1]])
            else:
                v = z3.Or([self.zf(x) for x in f[1]])
            self.zcache[f] = v
        return v

    def closure(self, fs):
        """add definitional facts of all atoms involved, and non-linear lemma instances"""
        out = list(dict.fromkeys(fs))
        known = set(out)
        for f in list(out):
            if f[0] == "not" and f[1][0] == "eq":
                lo, hi = self.interval(f[1][1])
                if lo == 0 or ge0(f[1][1]) in known:
                    out.append(ge0(f[1][1] - 1))
                    known.add(out[-1])
                elif hi == 0 or ge0(-f[1][1]) in known:
                    out.append(ge0(-f[1][1] - 1))
                    known.add(out[-1])
        seen_atoms = set()
        i = 0
        while i < len(out):
            for a in fatoms(out[i]):
                if a not in seen_atoms:
                    seen_atoms.add(a)
                    for d in self.defs.get(a, ()):
                        if d not in known:
                            known.add(d)
                            out.append(d)
            i += 1
        polys = []
        for f in out:
            fpolys(f, polys)
        mons = set(m for p in polys for m in p.t if len(m) >= 2)
        if not mons:
            return out
        lem = []
        # monomials of non-negative atoms are non-negative
        for m in mons:
            if all((self.bounds.get(a, (None,))[0] or -1) >= 0 or self.bounds.get(a, (None,))[0] == 0 for a in m):
                lem.append(ge0(Poly({m: 1})))
        # which atoms multiply index-like atoms
        mult = {}
        for m in mons:
            for j, a in enumerate(m):
                rest = m[:j] + m[j + 1 :]
                if self.cls.get(a) == "idx":
                    mult.setdefault(rest, set()).add(a)
        facts = []
        for f in out:
            for g in conjuncts(f):
                if g[0] in ("ge", "eq") and g[1].degree() <= 1:
                    at = g[1].atoms()
                    if at and all(self.cls.get(a) == "idx" for a in at) and len(at) <= 4:
                        facts.append((g, at))
        for rest, idxs in mult.items():
            if not all(self.bounds.get(a, (None,))[0] is not None and self.bounds[a][0] >= 0 for a in rest):
                continue
            rp = Poly({rest: 1})
            for g, at in facts:
                if at & idxs:
                    q = g[1] * rp
                    lem.append(ge0(q) if g[0] == "ge" else eq0(q))
        for l in lem:
            if l not in known and l != TRUE:
                known.add(l)
                out.append(l)
        return out

    def check(self, fs, want_model=False):
        """satisfiability of the conjunction fs -> ('unsat',None)|('sat',model)|('unknown',reason)"""
        flat = []
        for f in fs:
            if f[0] == "f":
                return ("unsat", None)
            if f[0] == "t":
                continue
            flat.extend(conjuncts(f))
        self.stats.queries += 1
        key = frozenset(flat)
        r = self.cache.get(key)
        if r is not None and not (want_model and r[0] == "sat" and r[1] is None):
            self.stats.cache_hits += 1
            return r
        for f in flat:
            if neg(f) in key:
                r = ("unsat", None)
                self.cache[key] = r
                return r
        cl = self.closure(flat)
        s = z3.Solver()
        s.set("timeout", self.timeout)
        c0, s0 = s.ctx.ref(), s.solver
        for f in cl:
            z3.Z3_solver_assert(c0, s0, self.zf(f).ast)
        t = time.time()
        c = s.check()
        self.stats.z3_s += time.time() - t
        self.stats.z3_calls += 1
        if c == z3.unsat:
            r = ("unsat", None)
        elif c == z3.sat:
            m = None
            if want_model:
                mm = s.model()
                m = {}
                for d in mm.decls():
                    try:
                        m[d.name()] = mm[d].as_long()
                    except Exception:
                        pass
            r = ("sat", m)
        else:
            r = ("unknown", s.reason_unknown())
        self.cache[key] = r
        return r

    def quick(self, f):
        """True/False/None by interval reasoning only"""
        k = f[0]
        if k == "t":
            return True
        if k == "f":
            return False
        if k == "ge":
            lo, hi = self.interval(f[1])
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if k == "eq":
            lo, hi = self.interval(f[1])
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            return None
        if k == "not":
            r = self.quick(f[1])
            return None if r is None else not r
        rs = [self.quick(x) for x in f[1]]
        if k == "and":
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if any(r is True for r in rs):
            return True
        return False if all(r is False for r in rs) else None

    def prove(self, pc, goal, want_model=False):
        """pc |= goal ?  -> ('valid',None)|('sat',model)|('unknown',why)"""
        q = self.quick(goal)
        if q is True:
            return ("valid", None)
        pcs = set()
        for f in pc:
            pcs.update(conjuncts(f))
        gs = conjuncts(goal)
        rest = [g for g in gs if g not in pcs and self.quick(g) is not True]
        if not rest:
            return ("valid", None)
        for g in rest:
            r = self.check(list(pc) + [neg(g)], want_model)
            if r[0] == "sat":
                return r
            if r[0] == "unknown":
                return r
        return ("valid", None)


def gcd_(a, b):
    from math import gcd

    return gcd(a, b)
