"""Hash-consed bit-vector terms for data values (bytes read from image buffers).

Term = (op, width, args...) interned to a small integer id.  Constructors do only
local, bit-exact simplifications.  Bytes read from memory are ('var', 8, name).
"""


class TermTable:
    def __init__(self):
        self.ids = {}
        self.nodes = []
        self.conc = {}

    def mk(self, node):
        i = self.ids.get(node)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(node)
            self.ids[node] = i
        return i


T = TermTable()
N = T.nodes


def reset():
    global T, N
    T = TermTable()
    N = T.nodes


def width(t):
    return T.nodes[t][1]


def const(v, w):
    return T.mk(("c", w, v & ((1 << w) - 1)))


def is_const(t):
    return T.nodes[t][0] == "c"


def cval(t):
    return T.nodes[t][2]


def var(name, w=8):
    return T.mk(("var", w, name))


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def cat(parts):
    """parts: list of terms, least significant first"""
    out = []
    for p in parts:
        n = T.nodes[p]
        sub = list(n[2]) if n[0] == "cat" else [p]
        for q in sub:
            nq = T.nodes[q]
            if out:
                no = T.nodes[out[-1]]
                if no[0] == "c" and nq[0] == "c":
                    out[-1] = const(no[2] | nq[2] << no[1], no[1] + nq[1])
                    continue
                if no[0] == "ext" and nq[0] == "ext" and no[2] == nq[2] and no[3] + no[1] == nq[3]:
                    out[-1] = ext(no[2], no[3], no[1] + nq[1])
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    # split constants to bytes? keep merged
    return T.mk(("cat", sum(width(p) for p in out), tuple(out)))


def ext(t, lo, w):
    n = T.nodes[t]
    tw = n[1]
    if lo == 0 and w == tw:
        return t
    op = n[0]
    if op == "c":
        return const(n[2] >> lo, w)
    if op == "ext":
        return ext(n[2], n[3] + lo, w)
    if op == "cat":
        out = []
        off = 0
        for p in n[2]:
            pw = width(p)
            a, b = max(lo, off), min(lo + w, off + pw)
            if a < b:
                out.append(ext(p, a - off, b - a))
            off += pw
        return cat(out)
    if op in ("and", "or", "xor"):
        return bitop(op, ext(n[2], lo, w), ext(n[3], lo, w))
    if op == "sext":
        iw = width(n[2])
        if lo + w <= iw:
            return ext(n[2], lo, w)
        if lo < iw and lo == 0:
            return sext(n[2], w)
    if op == "ite" and (is_const(n[3]) or is_const(n[4])):
        return ite(n[2], ext(n[3], lo, w), ext(n[4], lo, w))
    if lo == 0 and op in ("add", "sub", "mul") and False:
        return binop(op, ext(n[2], 0, w), ext(n[3], 0, w))
    return T.mk(("ext", w, t, lo))


def zext(t, w):
    tw = width(t)
    if tw == w:
        return t
    return cat([t, const(0, w - tw)])


def sext(t, w):
    n = T.nodes[t]
    if n[1] == w:
        return t
    if n[0] == "c":
        return const(signed(n[2], n[1]), w)
    if n[0] == "cat":
        l = T.nodes[n[2][-1]]
        if l[0] == "c" and l[2] >> (l[1] - 1) == 0:
            return zext(t, w)
    if n[0] == "sext":
        return sext(n[2], w)
    return T.mk(("sext", w, t))


def known_zero_mask(t):
    """mask of bits known to be zero"""
    n = T.nodes[t]
    w = n[1]
    full = (1 << w) - 1
    if n[0] == "c":
        return full & ~n[2]
    if n[0] == "cat":
        m, off = 0, 0
        for p in n[2]:
            m |= known_zero_mask(p) << off
            off += width(p)
        return m
    if n[0] == "and":
        return known_zero_mask(n[2]) | known_zero_mask(n[3])
    if n[0] == "or":
        return known_zero_mask(n[2]) & known_zero_mask(n[3])
    return 0


def _split_points(t):
    n = T.nodes[t]
    if n[0] == "cat":
        pts, off = [], 0
        for p in n[2]:
            pts += [x + off for x in _split_points(p)]
            off += width(p)
            pts.append(off)
        return pts[:-1]
    if n[0] == "c":
        w, v = n[1], n[2]
        pts = []
        for i in range(1, w):
            if (v >> i & 1) != (v >> (i - 1) & 1):
                pts.append(i)
        return pts
    return []


def bitop(op, a, b):
    na, nb = T.nodes[a], T.nodes[b]
    w = na[1]
    full = (1 << w) - 1
    if na[0] == "c" and nb[0] == "c":
        v = {"and": na[2] & nb[2], "or": na[2] | nb[2], "xor": na[2] ^ nb[2]}[op]
        return const(v, w)
    if na[0] == "c":
        a, b, na, nb = b, a, nb, na
    if nb[0] == "c":
        v = nb[2]
        if op == "and":
            if v == 0:
                return b
            if v == full:
                return a
        else:
            if v == 0:
                return a
            if op == "or" and v == full:
                return b
    if a == b:
        return const(0, w) if op == "xor" else a
    # piecewise when both operands decompose
    if na[0] == "cat" or nb[0] in ("cat", "c"):
        pts = sorted(set(_split_points(a) + _split_points(b)))
        if pts:
            pts = [0] + pts + [w]
            parts = []
            ok = True
            for lo, hi in zip(pts, pts[1:]):
                x, y = ext(a, lo, hi - lo), ext(b, lo, hi - lo)
                if is_const(y) and not is_const(x):
                    x, y = y, x
                if is_const(x):
                    cv, cw = cval(x), hi - lo
                    f = (1 << cw) - 1
                    if cv == 0:
                        parts.append(x if op == "and" else y)
                        continue
                    if cv == f:
                        if op == "and":
                            parts.append(y)
                            continue
                        if op == "or":
                            parts.append(x)
                            continue
                ok = False
                parts.append(None if False else T.mk((op, hi - lo) + tuple(sorted((x, y)))))
            if ok or len(parts) > 1:
                return cat(parts)
    if a > b:
        a, b = b, a
    return T.mk((op, w, a, b))


def shl(a, k):
    w = width(a)
    if k == 0:
        return a
    if k >= w:
        return const(0, w)
    return cat([const(0, k), ext(a, 0, w - k)])


def lshr(a, k):
    w = width(a)
    if k == 0:
        return a
    if k >= w:
        return const(0, w)
    return cat([ext(a, k, w - k), const(0, k)])


def ashr(a, k):
    w = width(a)
    if k == 0:
        return a
    k = min(k, w - 1)
    return sext(ext(a, k, w - k), w)


def binop(op, a, b):
    if op in ("and", "or", "xor"):
        return bitop(op, a, b)
    w = width(a)
    m = (1 << w) - 1
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        if op == "add":
            return const(x + y, w)
        if op == "sub":
            return const(x - y, w)
        if op == "mul":
            return const(x * y, w)
        if op == "udiv" and y:
            return const(x // y, w)
        if op == "urem" and y:
            return const(x % y, w)
    if op in ("shl", "lshr", "ashr"):
        if is_const(b):
            return {"shl": shl, "lshr": lshr, "ashr": ashr}[op](a, cval(b))
        return T.mk((op, w, a, b))
    if op == "add":
        if is_const(a) and cval(a) == 0:
            return b
        if is_const(b) and cval(b) == 0:
            return a
        if a > b:
            a, b = b, a
    if op == "sub":
        if is_const(b):
            return binop("add", a, const(-cval(b), w))
        if a == b:
            return const(0, w)
    if op == "mul":
        if is_const(a):
            a, b = b, a
        if is_const(b):
            v = cval(b)
            if v == 0:
                return b
            if v == 1:
                return a
        elif a > b:
            a, b = b, a
    return T.mk((op, w, a, b))


def cmp(pred, a, b):
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        w = width(a)
        if pred[0] == "s":
            x, y = signed(x, w), signed(y, w)
        r = {"eq": x == y, "ne": x != y}.get(pred)
        if r is None:
            r = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]]
        return const(int(r), 1)
    if pred == "ne":
        return notb(cmp("eq", a, b))
    if pred in ("ugt", "sgt"):
        return cmp(pred[0] + "lt", b, a)
    if pred in ("uge", "sge"):
        return notb(cmp(pred[0] + "lt", a, b))
    if pred in ("ule", "sle"):
        return notb(cmp(pred[0] + "lt", b, a))
    return T.mk((pred, 1, a, b))


def notb(a):
    n = T.nodes[a]
    if n[0] == "c":
        return const(1 - n[2], 1)
    if n[0] == "not":
        return n[2]
    return T.mk(("not", 1, a))


def ite(c, a, b):
    if is_const(c):
        return a if cval(c) else b
    if a == b:
        return a
    return T.mk(("ite", width(a), c, a, b))


def clampu(t, w):
    """signed saturation of t to an unsigned w-bit value"""
    n = T.nodes[t]
    if n[0] == "c":
        return const(max(0, min((1 << w) - 1, signed(n[2], n[1]))), w)
    return T.mk(("clampu", w, t))


def clamps(t, w):
    n = T.nodes[t]
    if n[0] == "c":
        return const(max(-(1 << w - 1), min((1 << w - 1) - 1, signed(n[2], n[1]))), w)
    return T.mk(("clamps", w, t))


def bswap(t):
    w = width(t)
    return cat([ext(t, w - 8 * (i + 1), 8) for i in range(w // 8)])


def vars_of(t, memo=None):
    memo = {} if memo is None else memo
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        n = T.nodes[x]
        if n[0] == "var":
            out.append(x)
        elif n[0] == "cat":
            st.extend(reversed(n[2]))
        elif n[0] != "c":
            for y in reversed(n[2:]):
                if n[0] == "ext" and y is n[3]:
                    continue
                st.append(y)
    return out


def children(n):
    op = n[0]
    if op in ("var", "c"):
        return ()
    if op == "cat":
        return n[2]
    if op == "ext":
        return (n[2],)
    return n[2:]


def topo(t):
    out, seen = [], set()
    st = [(t, 0)]
    while st:
        x, ph = st.pop()
        if ph:
            out.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.append((x, 1))
        for y in children(T.nodes[x]):
            if y not in seen:
                st.append((y, 0))
    return out


def rename(t, m):
    """replace variables (map of term ids)"""
    val = {}
    for x in topo(t):
        n = T.nodes[x]
        if x in m:
            val[x] = m[x]
            continue
        ch = children(n)
        if all(val[y] == y for y in ch):
            val[x] = x
        elif n[0] == "cat":
            val[x] = cat([val[y] for y in n[2]])
        elif n[0] == "ext":
            val[x] = ext(val[n[2]], n[3], n[1])
        else:
            val[x] = T.mk((n[0], n[1]) + tuple(val[y] if isinstance(y, int) else y for y in n[2:]))
    return val[t]


def canon(ts):
    """canonical alpha-renamed serialisation of a tuple of terms, plus variable order"""
    order = {}
    ser = []
    pos = {}
    for t in ts:
        for x in topo(t):
            if x in pos:
                continue
            n = T.nodes[x]
            if n[0] == "var":
                if x not in order:
                    order[x] = len(order)
                k = ("var", n[1], order[x])
            elif n[0] == "c":
                k = n
            elif n[0] == "cat":
                k = ("cat", n[1], tuple(pos[y] for y in n[2]))
            elif n[0] == "ext":
                k = ("ext", n[1], pos[n[2]], n[3])
            else:
                k = (n[0], n[1]) + tuple(pos[y] for y in n[2:])
            pos[x] = len(ser)
            ser.append(k)
    return tuple(ser) + tuple(pos[t] for t in ts), order


def evaluate(t, env):
    """concrete evaluation, env: var term id -> int"""
    val = {}
    for x in topo(t):
        n = T.nodes[x]
        op, w = n[0], n[1]
        m = (1 << w) - 1
        if op == "var":
            v = env[x]
        elif op == "c":
            v = n[2]
        elif op == "cat":
            v, off = 0, 0
            for p in n[2]:
                v |= val[p] << off
                off += width(p)
        elif op == "ext":
            v = val[n[2]] >> n[3]
        elif op == "sext":
            v = signed(val[n[2]], width(n[2]))
        elif op == "clampu":
            v = max(0, min(m, signed(val[n[2]], width(n[2]))))
        elif op == "clamps":
            v = max(-(1 << w - 1), min((1 << w - 1) - 1, signed(val[n[2]], width(n[2]))))
        elif op == "not":
            v = 1 - val[n[2]]
        elif op == "ite":
            v = val[n[3]] if val[n[2]] else val[n[4]]
        else:
            a, b = val[n[2]], val[n[3]]
            aw = width(n[2])
            sa, sb = signed(a, aw), signed(b, aw)
            if op == "add":
                v = a + b
            elif op == "sub":
                v = a - b
            elif op == "mul":
                v = a * b
            elif op == "and":
                v = a & b
            elif op == "or":
                v = a | b
            elif op == "xor":
                v = a ^ b
            elif op == "eq":
                v = int(a == b)
            elif op == "ult":
                v = int(a < b)
            elif op == "slt":
                v = int(sa < sb)
            elif op == "udiv":
                v = a // b if b else m
            elif op == "urem":
                v = a % b if b else a
            elif op == "sdiv":
                v = m if sb == 0 else int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)
            elif op == "shl":
                v = a << b if b < w else 0
            elif op == "lshr":
                v = a >> b if b < w else 0
            elif op == "ashr":
                v = sa >> min(b, w - 1)
            else:
                raise KeyError(op)
        val[x] = v & m
    return val[t]


def to_z3(ts, z3):
    val = {}
    vs = {}
    for t in ts:
        for x in topo(t):
            if x in val:
                continue
            n = T.nodes[x]
            op, w = n[0], n[1]
            if op == "var":
                v = z3.BitVec("v%d" % x, w)
                vs[x] = v
            elif op == "c":
                v = z3.BitVecVal(n[2], w)
            elif op == "cat":
                v = z3.Concat(*[val[p] for p in reversed(n[2])])
            elif op == "ext":
                v = z3.Extract(n[3] + w - 1, n[3], val[n[2]])
            elif op == "sext":
                v = z3.SignExt(w - width(n[2]), val[n[2]])
            elif op in ("clampu", "clamps"):
                a = val[n[2]]
                aw = width(n[2])
                hi = (1 << w) - 1 if op == "clampu" else (1 << w - 1) - 1
                lo = 0 if op == "clampu" else -(1 << w - 1)
                if aw < w:
                    a = z3.SignExt(w - aw + 1, a)
                    aw = w + 1
                elif aw == w and op == "clampu":
                    a = z3.SignExt(1, a)
                    aw += 1
                r = z3.If(a < z3.BitVecVal(lo, aw), z3.BitVecVal(lo, aw), z3.If(a > z3.BitVecVal(hi, aw), z3.BitVecVal(hi, aw), a))
                v = z3.Extract(w - 1, 0, r)
            elif op == "not":
                v = ~val[n[2]]
            elif op == "ite":
                v = z3.If(val[n[2]] == 1, val[n[3]], val[n[4]])
            else:
                a, b = val[n[2]], val[n[3]]
                if op in ("eq", "ult", "slt"):
                    c = {"eq": lambda: a == b, "ult": lambda: z3.ULT(a, b), "slt": lambda: a < b}[op]()
                    v = z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                else:
                    v = {
                        "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
                        "or": lambda: a | b, "xor": lambda: a ^ b, "udiv": lambda: z3.UDiv(a, b),
                        "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "shl": lambda: a << b,
                        "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
                    }[op]()
            val[x] = v
    return [val[t] for t in ts], vs
