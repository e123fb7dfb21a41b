"""Multivariate integer polynomials over named atoms, and formulas over them.

A polynomial is an immutable mapping monomial -> coefficient, a monomial being a
sorted tuple of atom names (with repetition).  All arithmetic is exact (Z).
"""
from functools import lru_cache
from math import gcd


class Poly:
    __slots__ = ("t", "_h", "_k")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None

    # -- construction
    @staticmethod
    def const(c):
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    # -- queries
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if isinstance(o, int):
            o = Poly.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return Poly.const(o) - self

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return Poly(r)

    __rmul__ = __mul__

    def subst(self, env):
        """env: atom -> Poly"""
        if not any(a in env for m in self.t for a in m):
            return self
        r = ZERO
        for m, c in self.t.items():
            p = Poly.const(c)
            rest = []
            for a in m:
                if a in env:
                    p = p * env[a]
                else:
                    rest.append(a)
            if rest:
                p = p * Poly({tuple(rest): 1})
            r = r + p
        return r

    def coeff_of(self, atom):
        """self = atom * Q + Rest, with Rest free of atom (atom degree <= 1 or None)."""
        q, rest = {}, {}
        for m, c in self.t.items():
            n = m.count(atom)
            if n == 0:
                rest[m] = c
            elif n == 1:
                l = list(m)
                l.remove(atom)
                q[tuple(l)] = c
            else:
                return None
        return Poly(q), Poly(rest)

    def content(self):
        g = 0
        for c in self.t.values():
            g = gcd(g, c)
        return g

    def divexact(self, k):
        return Poly({m: c // k for m, c in self.t.items()})

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            if not m:
                out.append(str(c))
            else:
                s = "*".join(m)
                out.append(s if c == 1 else ("-" + s if c == -1 else f"{c}*{s}"))
        return " + ".join(out).replace("+ -", "- ")


ZERO = Poly({})
ONE = Poly({(): 1})


# ---------------------------------------------------------------- formulas
# ('t',) ('f',) ('ge',Poly)  Poly>=0 ; ('eq',Poly) Poly==0 ; ('not',F) ; ('and',(F..)) ; ('or',(F..))
TRUE = ("t",)
FALSE = ("f",)


def ge0(p):
    if p.is_const():
        return TRUE if p.cval() >= 0 else FALSE
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if g > 1:
        # integer tightening: floor the constant
        c0 = p.t.get((), 0)
        r = {m: c // g for m, c in p.t.items() if m}
        if c0 // g:
            r[()] = c0 // g
        p = Poly(r)
    return ("ge", p)


def eq0(p):
    if p.is_const():
        return TRUE if p.cval() == 0 else FALSE
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, c)
    if p.cval() % g:
        return FALSE
    if g > 1:
        p = p.divexact(g)
    # canonical sign
    if p.key()[-1][1] < 0:
        p = -p
    return ("eq", p)


def neg(f):
    k = f[0]
    if k == "t":
        return FALSE
    if k == "f":
        return TRUE
    if k == "ge":
        return ge0(-f[1] - 1)
    if k == "not":
        return f[1]
    if k == "and":
        return disj([neg(x) for x in f[1]])
    if k == "or":
        return conj([neg(x) for x in f[1]])
    return ("not", f)


def conj(fs):
    out = []
    for f in fs:
        if f[0] == "f":
            return FALSE
        if f[0] == "t":
            continue
        if f[0] == "and":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    for f in out:
        if neg(f) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def disj(fs):
    out = []
    for f in fs:
        if f[0] == "t":
            return TRUE
        if f[0] == "f":
            continue
        if f[0] == "or":
            for g in f[1]:
                if g not in out:
                    out.append(g)
        elif f not in out:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def fsubst(f, env):
    k = f[0]
    if k in ("t", "f"):
        return f
    if k == "ge":
        return ge0(f[1].subst(env))
    if k == "eq":
        return eq0(f[1].subst(env))
    if k == "not":
        return neg(fsubst(f[1], env))
    if k == "and":
        return conj([fsubst(x, env) for x in f[1]])
    return disj([fsubst(x, env) for x in f[1]])


def fatoms(f, s=None):
    if s is None:
        s = set()
    k = f[0]
    if k in ("ge", "eq"):
        for m in f[1].t:
            s.update(m)
    elif k == "not":
        fatoms(f[1], s)
    elif k in ("and", "or"):
        for x in f[1]:
            fatoms(x, s)
    return s


def fpolys(f, out):
    k = f[0]
    if k in ("ge", "eq"):
        out.append(f[1])
    elif k == "not":
        fpolys(f[1], out)
    elif k in ("and", "or"):
        for x in f[1]:
            fpolys(x, out)
    return out


def conjuncts(f):
    if f[0] == "and":
        return list(f[1])
    return [f]


def fstr(f):
    k = f[0]
    if k == "t":
        return "true"
    if k == "f":
        return "false"
    if k == "ge":
        return f"({f[1]} >= 0)"
    if k == "eq":
        return f"({f[1]} == 0)"
    if k == "not":
        return "!" + fstr(f[1])
    return "(" + (" & " if k == "and" else " | ").join(fstr(x) for x in f[1]) + ")"
