"""From a failed converter obligation to concrete requests for the replay runner."""
from poly import *
import terms as T

DIMS = [(2, 2), (4, 2), (8, 2), (16, 2), (18, 4), (32, 2), (34, 4), (64, 2), (66, 4), (98, 2), (6, 6), (1, 1), (3, 1), (17, 3), (33, 1), (35, 3), (65, 2), (16, 1), (2, 0), (0, 2), (130, 4)]


def atom1(p):
    """(atom, coefficient) of a single-atom polynomial"""
    (m, c), = p.t.items()
    return m[0], c


def geval(p, env):
    v = 0
    for m, c in p.t.items():
        x = c
        for a in m:
            x *= env[a]
        v += x
    return v


def rows_of(cv, im, w, h):
    """[(buffer, stride index, rows, row bytes, second part of a single buffer image)]"""
    aw, cw = atom1(cv.w)
    ah, ch = atom1(cv.h)
    env = {aw: w // cw, ah: h // ch}
    return [(p.buf, p.sidx, geval(p.rows, env), geval(p.row, env), i > 0 and p.buf == im.planes[0].buf) for i, p in enumerate(im.planes)]


def need(cv, im, w, h, strides):
    n = {}
    for buf, si, rows, row, second in rows_of(cv, im, w, h):
        s = strides[si] or row
        base = s * h if second else 0
        l = 0 if not w or not h else base + max(rows - 1, 0) * s + row
        n[buf] = max(n.get(buf, 0), l)
    return n


def case(cv, setn, w, h, S, L, counts, pokes=(), fill=0, seed=1):
    out = [setn, str(w), str(h)]
    for side, pf, cs, np_ in (("src", cv.spf, cv.scs, cv.snp), ("dst", cv.dpf, cv.dcs, cv.dnp)):
        ns, nb = counts[side]
        j = lambda v: ",".join(map(str, v)) if v else "[]"
        out += [f"{pf},{cs},{np_}", j(S[side][:ns]), j(L[side][:nb])]
    f = str(fill) + ("!" + ",".join(f"{b}:{o}:{v}" for b, o, v in pokes) if pokes else "")
    return ";".join(out + [f, str(seed), "1"])


def concretise(eng, cv, setn, o, limit=40):
    """-> list of runner cases in which obligation o should fail (consistent with the path facts)"""
    s = eng.s
    if o.pc is None:
        return []
    old = s.timeout
    s.timeout = 3000
    F = list(o.pc) + ([neg(o.goal)] if o.goal is not None else [])
    aw, cw = atom1(cv.w)
    ah, ch = atom1(cv.h)
    dims = []
    m = o.model or {}
    if aw in m and ah in m:
        dims.append((m[aw] * cw, m[ah] * ch))
    dims += [(w // cw * cw, h // ch * ch) for w, h in DIMS]
    res = []
    try:
        tried = set()
        for w, h in dims:
            if (w, h) in tried:
                continue
            tried.add((w, h))
            for smode in ("auto", "natural", "pad", "model", "wide"):
                env = {aw: Poly.const(w // cw), ah: Poly.const(h // ch)}
                S = {}
                for side, im in cv.img.items():
                    st = [0] * 4
                    for buf, si, rows, row, second in rows_of(cv, im, w, h):
                        st[si] = {"auto": 0, "natural": row, "pad": row + 3 + si, "wide": row + (1 << 31), "model": m.get(f"{side}_stride{si}", row)}[smode]
                    S[side] = st
                    for i in range(4):
                        env[f"{side}_stride{i}"] = Poly.const(st[i])
                for lmode in ("exact", "free"):
                    e = dict(env)
                    if lmode == "exact":
                        for side, im in cv.img.items():
                            nn = need(cv, im, w, h, S[side])
                            for i in range(4):
                                e[f"{side}_len{i}"] = Poly.const(nn.get(i, 0))
                        for side in ("src", "dst"):
                            e[f"{side}_strides_count"] = Poly.const(cv.img[side].n)
                            e[f"{side}_buffers_count"] = Poly.const(cv.img[side].n)
                    G = [s.resubst(f, e) for f in F]
                    if any(g == FALSE for g in G):
                        continue
                    r, mm = s.check(G, True)
                    if r != "sat" or mm is None:
                        continue
                    val = {a: v.cval() for a, v in e.items()}
                    for a in mm:
                        val.setdefault(a, mm[a])
                    L, cnt = {}, {}
                    for side, im in cv.img.items():
                        nn = need(cv, im, w, h, S[side])
                        L[side] = [val.get(f"{side}_len{i}", nn.get(i, 0)) for i in range(4)]
                        cnt[side] = (min(val.get(f"{side}_strides_count", im.n), 4), min(val.get(f"{side}_buffers_count", im.n), 4))
                    pokes = []
                    for nm, x in o.terms or ():
                        if isinstance(nm, tuple) and len(nm) == 2 and isinstance(nm[1], Poly) and str(nm[0]).startswith("src"):
                            p = s.psubst(nm[1], {a: Poly.const(v) for a, v in val.items()})
                            if p.is_const():
                                pokes.append((int(nm[0][3:]), p.cval(), x))
                    res.append(case(cv, setn, w, h, S, L, cnt, pokes))
                    if len(res) >= limit:
                        return res
                    break
    finally:
        s.timeout = old
    return res
