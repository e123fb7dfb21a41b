"""The contract of a converter: what `convert_image::{x86,sse2,avx2}::<src>_<cs>_<dst>` must do.

ensures  result == true  <=>  the image is empty, or every stride/buffer array is long enough and
                              every plane fits its buffer (Suff)
ensures  result == false  ==> nothing was written
ensures  every access is inside the buffer it belongs to
ensures  every write lands on a byte of a destination row (frame) and stores exactly the specified value
ensures  every byte of every destination row is written (coverage)
"""
import terms as T
from poly import *
from sym import *
from solver import Solver

ARGB, BGRA, BGR, RGBA, RGB, I444, I422, I420, NV12 = range(9)
PF = ["argb", "bgra", "bgr", "rgba", "rgb", "i444", "i422", "i420", "nv12"]
CS = ["rgb", "bt601", "bt709", "bt601fr", "bt709fr"]
DEPTH = {ARGB: 4, BGRA: 4, RGBA: 4, BGR: 3, RGB: 3}
OFFS = {ARGB: (1, 2, 3), BGRA: (2, 1, 0), BGR: (2, 1, 0), RGBA: (0, 1, 2), RGB: (0, 1, 2)}
FWD = {1: (16829, 33039, 6416, -9714, -19071, -24103, (16 << 16) + 32768),
       2: (11966, 40254, 4064, -6596, -22189, -26145, (16 << 16) + 32768),
       3: (19595, 38470, 7471, -11058, -21709, -27439, 32768),
       4: (13933, 46871, 4732, -7508, -25259, -29763, 32768)}
BWD = {1: (19077, 26149, 13320, 6419, 33050, 14234, 8709, 17685),
       2: (19077, 29372, 8731, 3494, 34610, 15846, 4952, 18465),
       3: (16384, 22970, 11700, 5638, 29032, 11453, 8701, 14484),
       4: (16384, 25802, 7670, 3069, 30402, 12869, 5401, 15169)}


def planes_of(pf, np_):
    return 3 if pf in (I444, I422, I420) else np_ if pf == NV12 else 1


def subsampled(pf):
    return (pf in (I422, I420, NV12), pf in (I420, NV12))


class Plane:
    """rows x row bytes at base + y*stride of buffer buf; name for messages"""

    def __init__(self, name, buf, base, sidx, rows, row):
        self.name, self.buf, self.base, self.sidx, self.rows, self.row = name, buf, base, sidx, rows, row
        self.stride = None


class Image:
    def __init__(self, side, pf, np_):
        self.side, self.pf, self.np = side, pf, np_


def con(v, w=32):
    return T.const(v, w)


def mulc(t, k):
    return T.binop("mul", t, con(k))


def addt(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = T.binop("add", r, t)
    return r


class Conv:
    """one converter under one parity/plane configuration"""

    def __init__(self, spf, scs, snp, dpf, dcs, dnp):
        self.spf, self.scs, self.snp, self.dpf, self.dcs, self.dnp = spf, scs, snp, dpf, dcs, dnp

    def name(self):
        n = f"{PF[self.spf]}"
        if self.spf >= I444:
            n += "_" + CS[self.scs]
        n += "_" + PF[self.dpf]
        if self.dpf >= I444:
            n += "_" + CS[self.dcs]
        return n

    def label(self):
        x = ""
        if self.spf == NV12:
            x = f" ({self.snp} source plane{'s' if self.snp > 1 else ''})"
        if self.dpf == NV12:
            x = f" ({self.dnp} destination plane{'s' if self.dnp > 1 else ''})"
        return self.name() + x

    def setup(self, eng):
        s = eng.s
        ew = subsampled(self.spf)[0] or subsampled(self.dpf)[0]
        eh = subsampled(self.spf)[1] or subsampled(self.dpf)[1]
        self.w = s.atom("w2", 0, (1 << 31) - 1, "idx").scale(2) if ew else s.atom("w", 0, (1 << 32) - 1, "idx")
        self.h = s.atom("h2", 0, (1 << 31) - 1, "idx").scale(2) if eh else s.atom("h", 0, (1 << 32) - 1, "idx")
        self.img = {}
        for side, pf, np_ in (("src", self.spf, self.snp), ("dst", self.dpf, self.dnp)):
            im = Image(side, pf, np_)
            n = planes_of(pf, np_)
            im.n = n
            im.ns = s.atom(f"{side}_strides_count", 0, (1 << 60) - 1)
            im.nb = s.atom(f"{side}_buffers_count", 0, (1 << 59) - 1)
            im.x = [s.atom(f"{side}_stride{i}", 0, M64, "stride") for i in range(4)]
            im.len = [s.atom(f"{side}_len{i}", 0, M64 >> 1, "len") for i in range(4)]
            im.obj = [Obj("data", f"{side}{i}", im.len[i], writable=side == "dst") for i in range(4)]

            def lds(c, ty, e, st, im=im):
                if c % 8 or c // 8 >= 4:
                    raise Unsupported("stride index")
                return I(64, im.x[c // 8])

            def ldb(c, ty, e, st, im=im):
                if c % 8 or c // 16 >= 4:
                    raise Unsupported("buffer index")
                return I(64, im.len[c // 16]) if c % 16 else P(im.obj[c // 16], ZERO)

            im.sarr = Obj("arr", f"{side}_strides", im.ns.scale(8), writable=False, load=lds)
            im.barr = Obj("arr", f"{side}_buffers", im.nb.scale(16), writable=False, load=ldb)
            self.img[side] = im
            w, h = self.w, self.h
            if pf == I444:
                pl = [Plane("yuv"[i], i, ZERO, i, h, w) for i in range(3)]
            elif pf == I420:
                pl = [Plane("y", 0, ZERO, 0, h, w)] + [Plane("uv"[i], i + 1, ZERO, i + 1, half(h), half(w)) for i in range(2)]
            elif pf == NV12:
                pl = [Plane("y", 0, ZERO, 0, h, w), Plane("uv", n - 1, ZERO, n - 1, half(h), w)]
            else:
                pl = [Plane(PF[pf], 0, ZERO, 0, h, w.scale(DEPTH[pf]))]
            for p in pl:
                x = im.x[p.sidx]
                p.stride = eng.mksel(eq0(x), p.row, x)
            if pf == NV12 and n == 1:
                pl[1].base = pl[0].stride * h
            im.planes = pl
        return self

    def args(self):
        s, d = self.img["src"], self.img["dst"]
        return [I(32, self.w), I(32, self.h), I(32, Poly.const(self.snp - 1)), P(s.sarr, ZERO), I(64, s.ns), P(s.barr, ZERO), I(64, s.nb),
                I(32, Poly.const(self.dnp - 1)), P(d.sarr, ZERO), I(64, d.ns), P(d.barr, ZERO), I(64, d.nb)]

    def suff(self):
        """formula: accepted <=> (w==0 or h==0 or fits)"""
        fits = []
        for im in self.img.values():
            fits.append(ge0(im.ns - im.n))
            fits.append(ge0(im.nb - im.n))
            if im.pf == NV12 and im.np == 1:
                fits.append(ge0(im.planes[0].stride - im.planes[0].row))
            for p in im.planes:
                fits.append(ge0(im.len[p.buf] - p.base - (p.rows - 1) * p.stride - p.row))
        self.fits = conj(fits)
        return disj([eq0(self.w), eq0(self.h), self.fits])

    # ------------------------------------------------------------ value specification
    def src(self, plane, y, x, eng, st):
        """term of the source byte at row y, byte x of a source plane"""
        im = self.img["src"]
        p = im.planes[plane]
        return T.var((im.obj[p.buf].name, self.at(p, y, x, eng, st)))

    def at(self, p, y, x, eng, st):
        s = eng.resolve(p.stride, st)
        b = eng.resolve(p.base, st)
        return b + s * y + x

    def spec(self, pl, y, pos, eng, st):
        """expected value of byte pos of row y of destination plane pl"""
        fd = eng.s.floor_div
        z = lambda t: T.zext(t, 32)
        if self.spf <= RGB:
            sd = DEPTH[self.spf]
            ro = OFFS[self.spf]

            def px(x, yy):
                return [self.src(0, yy, x.scale(sd) + o, eng, st) for o in ro]

            if self.dpf <= RGB:
                dd = DEPTH[self.dpf]
                x, c = divmodc(pos, dd, fd)
                if c == 3:
                    return T.const(255, 8)
                return px(x, y)[OFFS[self.dpf].index(c)]
            k = FWD[self.dcs]
            if pl.name == "y":
                r, g, b = [z(t) for t in px(pos, y)]
                return T.ext(addt(mulc(r, k[0]), mulc(g, k[1]), mulc(b, k[2]), con(k[6])), 16, 8)
            if self.dpf == I444:
                x, cr, sh = pos, pl.name == "v", 16
                ps = [px(x, y)]
            else:
                if self.dpf == I420:
                    x, cr = pos, pl.name == "v"
                else:
                    x, c = divmodc(pos, 2, fd)
                    cr = c == 1
                sh = 18
                ps = [px(x.scale(2) + dx, y.scale(2) + dy) for dy in (0, 1) for dx in (0, 1)]
            r, g, b = [addt(*[z(q[i]) for q in ps]) for i in range(3)]
            yr, yg, zg = k[3], k[4], k[5]
            yb = -(yr + yg)
            zr, zb = yb, -(yb + zg)
            m = (zr, zg, zb) if cr else (yr, yg, yb)
            bias = (128 << sh) + (1 << (sh - 1)) - 1
            return T.ext(addt(mulc(r, m[0]), mulc(g, m[1]), mulc(b, m[2]), con(bias)), sh, 8)
        k = BWD[self.scs]
        dd = DEPTH[self.dpf]
        x, c = divmodc(pos, dd, fd)
        if c == 3:
            return T.const(255, 8)
        ch = OFFS[self.dpf].index(c)
        l = self.src(0, y, x, eng, st)
        if self.spf == I444:
            u, v = self.src(1, y, x, eng, st), self.src(2, y, x, eng, st)
        elif self.spf == I420:
            u, v = [self.src(i, fd(y, 2), fd(x, 2), eng, st) for i in (1, 2)]
        else:
            u, v = [self.src(1, fd(y, 2), fd(x, 2).scale(2) + i, eng, st) for i in (0, 1)]
        m = lambda a, kk: T.lshr(mulc(z(a), kk), 8)
        l = m(l, k[0])
        if ch == 0:
            t = addt(l, m(v, k[1]), con(-k[5]))
        elif ch == 1:
            t = T.binop("sub", T.binop("sub", addt(l, con(k[6])), m(v, k[2])), m(u, k[3]))
        else:
            t = addt(l, m(u, k[4]), con(-k[7]))
        return T.clampu(T.ashr(t, 6), 8)

    # ------------------------------------------------------------ obligations over the recorded writes
    def locate(self, ev, eng, st):
        """-> (plane, R, C) for a write at ev.off"""
        im = self.img["dst"]
        i = im.obj.index(ev.obj)
        cands = [p for p in im.planes if p.buf == i]
        if not cands:
            return None
        off = eng.resolve(ev.off, st)
        p = cands[0]
        S = eng.resolve(p.stride, st)
        rc = divpoly(off, S)
        if rc is None:
            return None
        R, C = rc
        if len(cands) == 2:  # both parts of a single plane nv12 image
            h = self.h
            if eng.s.prove(st.pc, ge0(R - h))[0] == "valid":
                return cands[1], R - h, C
            if eng.s.prove(st.pc, ge0(h - 1 - R))[0] == "valid":
                return cands[0], R, C
            return None
        return p, R, C


def half(p):
    return Poly({m: c // 2 for m, c in p.t.items()})


def divmodc(pos, k, fd):
    x = fd(pos, k)
    c = pos - x.scale(k)
    if not c.is_const():
        raise Unsupported("write position not aligned to a sample: " + str(pos))
    return x, c.cval()


def divpoly(off, S):
    """off = S*R + C for a single-term S"""
    if len(S.t) != 1:
        return None
    (m, c), = S.t.items()
    R, C = {}, {}
    for mm, cc in off.t.items():
        rest = list(mm)
        ok = True
        for a in m:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
                break
        if ok and cc % c == 0:
            R[tuple(rest)] = cc // c
        else:
            C[mm] = cc
    return Poly(R), Poly(C)


class St:
    """path facts of a recorded event, in the shape Engine.resolve expects"""

    def __init__(self, pc):
        self.pc = pc
        self.pcs = set(g for f in pc for g in conjuncts(f))


PARTS = frozenset(("result", "frame", "value", "cover"))


def verify(eng, cv, fn, eq, res, parts=PARTS):
    """run fn under contract cv; append obligations to res (list of Obl).  The memory, panic and
    assumption obligations of the execution itself are always there; parts selects the others"""
    st = State()
    cv.setup(eng)
    suff = cv.suff()
    outs = eng.apply(fn, cv.args(), st)
    s = eng.s
    obls = eng.obls
    where = cv.label()
    # ---- result
    for s2, r in outs if "result" in parts else ():
        if not isinstance(r, B):
            raise Unsupported("converter result is not a boolean")
        for val, f in ((True, r.f), (False, neg(r.f))):
            if s.quick(f) is False:
                continue
            pc = s2.pc + [f]
            if f != TRUE and s.check(pc)[0] == "unsat":
                continue
            if val:
                for g in conjuncts(suff):
                    rr, m = s.prove(pc, g, True)
                    obls.append(Obl("accepts only when buffers suffice", where, rr, m, fstr(g)[:200], s2.over, pc, g))
            else:
                rr, m = s.prove(pc, neg(suff), True)
                obls.append(Obl("rejects only when buffers do not suffice", where, rr, m, "", s2.over, pc, neg(suff)))
                if s2.stores:
                    rr, m = s.check(pc, True)
                    obls.append(Obl("nothing written on failure", where, "valid" if rr == "unsat" else rr, m, "", s2.over, pc))
    # ---- writes
    groups = {}
    for ev in eng.events if parts & {"frame", "value", "cover"} else ():
        pst = St(ev.pc)
        loc = cv.locate(ev, eng, pst)
        if loc is None:
            raise Unsupported("write position not understood: " + str(ev.off))
        pl, R, C = loc
        n = len(ev.val)
        goal = conj([ge0(R), ge0(pl.rows - 1 - R), ge0(C), ge0(pl.row - C - n)])
        groups.setdefault(pl, []).append((ev, R, C, n))
        if "frame" in parts:
            rr, m = s.prove(ev.pc, goal, True)
            obls.append(Obl("writes stay on destination pixels", ev.where, rr, m, f"row {R} byte {C} size {n} plane {pl.name}", ev.over, ev.pc, goal))
        for i in range(n) if "value" in parts else ():
            want = cv.spec(pl, R, C + i, eng, pst)
            ok, how = same(eng, eq, ev.val[i], want, pst)
            status = "valid" if ok else "sat" if ok is False else "unknown"
            if ok is False and any(isinstance(T.N[v][2][0], str) and T.N[v][2][0] == "havoc" for v in how):
                ev.over = True
            model = terms = None
            if ok is False:
                terms = [(T.N[v][2], x) for v, x in how.items()]
                model = {"bytes": {str(n): x for n, x in terms}}
            obls.append(Obl("value " + pl.name, ev.where, status, model, f"row {R} byte {C + i}" + ("" if ok is not None else " " + str(how)), ev.over, ev.pc, None, terms))
    # ---- coverage
    for pl in cv.img["dst"].planes if "cover" in parts else ():
        rr, m, why = coverage(eng, cv, pl, groups.get(pl, []))
        obls.append(Obl("every destination byte is written", where + " plane " + pl.name, rr, m, why, True))
    res.extend(obls)


def same(eng, eq, got, want, pst):
    """equality of terms, after identifying bytes whose addresses the path facts make equal"""
    ok, how = eq.equal(got, want)
    if ok is not False:
        return ok, how
    gv, wv = T.vars_of(got), T.vars_of(want)
    m = {}
    pool = {}

    def canon(v):
        n = T.N[v]
        nm = n[2]
        if not (isinstance(nm, tuple) and len(nm) == 2 and isinstance(nm[1], Poly)):
            return v
        p = eng.resolve(nm[1], pst)
        for q in pool.setdefault(nm[0], []):
            if q == p or eng.s.prove(pst.pc, eq0(q - p))[0] == "valid":
                return T.var((nm[0], q), n[1])
        pool[nm[0]].append(p)
        return T.var((nm[0], p), n[1])

    for v in gv + wv:
        if v not in m:
            c = canon(v)
            if c != v:
                m[v] = c
    if not m:
        return ok, how
    return eq.equal(T.rename(got, m), T.rename(want, m))


def coverage(eng, cv, pl, evs):
    s = eng.s
    y = s.atom("Y", 0, (1 << 32) - 1, "idx")
    x = s.atom("X", 0, (1 << 34) - 1, "idx")
    pre = [cv.fits, ge0(cv.w - 1), ge0(cv.h - 1), ge0(pl.rows - 1 - y), ge0(pl.row - 1 - x)]
    strips = {}
    for ev, R, C, n in evs:
        if ev.inexact or ev.over:
            continue
        ks = set(ev.ks)
        rk = split(R, ks)
        ck = split(C, ks)
        if rk is None or ck is None:
            continue
        rconst, ccons = rk[1].cval(), ck[1].cval()
        key = (tuple(ev.pc), ev.ks, tuple(rk[0]), rk[1] - rconst, tuple(ck[0]), ck[1] - ccons)
        strips.setdefault(key, []).append((rconst, ccons, n))
    conds = []
    for (pc, ks, rk, rb, ck, cb), items in strips.items():
        if set(a for a, _ in rk) & set(a for a, _ in ck):
            continue
        rows = {}
        for r0, c0, n in items:
            rows.setdefault(r0, []).append((c0, c0 + n))
        # complete row groups
        per = [c for _, c in rk]
        r1 = min(per) if per else 1
        r0s = sorted(rows)
        for r0 in r0s:
            if r1 and all(r0 + j in rows for j in range(r1 if per else 1)):
                iv = None
                for j in range(r1 if per else 1):
                    m = merge(rows[r0 + j])
                    iv = m if iv is None else inter(iv, m)
                for lo, hi in iv:
                    conds.append(strip(s, pc, ks, rk, rb + r0, (r1 if per else 1), ck, cb + lo, hi - lo, y, x))
    goal = disj([c for c in conds if c is not None])
    r, m = s.check(pre + [neg(goal)], True)
    return ({"unsat": "valid", "sat": "sat", "unknown": "unknown"}[r], m, f"{len(conds)} strips")


def split(p, ks):
    """p = sum c_k * k + base  -> ([(k,c)] by decreasing c, base)"""
    cs, base = [], {}
    for m, c in p.t.items():
        if any(a in ks for a in m):
            if len(m) != 1 or c <= 0:
                return None
            cs.append((m[0], c))
        else:
            base[m] = c
    cs.sort(key=lambda t: -t[1])
    return cs, Poly(base)


def merge(iv):
    out = []
    for lo, hi in sorted(iv):
        if out and lo <= out[-1][1]:
            out[-1][1] = max(out[-1][1], hi)
        else:
            out.append([lo, hi])
    return out


def inter(a, b):
    out = []
    for l, h in a:
        for l2, h2 in b:
            lo, hi = max(l, l2), min(h, h2)
            if lo < hi:
                out.append([lo, hi])
    return out


def strip(s, pc, ks, rk, rb, rn, ck, cb, cn, y, x):
    """condition under which the strip of writes covers (y, x)"""
    env = {}
    extra = []

    def wit(target, cs, base, n):
        rem = target - base
        for a, c in cs:
            k = s.floor_div(rem, c)
            env[a] = k
            extra.append(ge0(k))
            rem = rem - k.scale(c)
        extra.append(ge0(rem))
        extra.append(ge0(Poly.const(n - 1) - rem))

    wit(y, rk, rb, rn)
    wit(x, ck, cb, cn)
    # bounds of substituted expressions may still mention loop counters
    for a in ks:
        if a not in env:
            env[a] = ZERO
    pc2 = []
    for f in pc:
        g = s.resubst(f, env)
        pc2.append(g)
    return conj(pc2 + [s.resubst(e, env) for e in extra])
