"""Contracts of the control code: CPU detection and table construction, convert_image,
get_buffers_size, describe_acceleration and the C entry points."""
import re
import sys
import z3
from bv import *
from irparse import *

ARGB, BGRA, BGR, RGBA, RGB, I444, I422, I420, NV12 = range(9)
PF = ["argb", "bgra", "bgr", "rgba", "rgb", "i444", "i422", "i420", "nv12"]
CS = ["rgb", "bt601", "bt709", "bt601fr", "bt709fr"]


def supported(spf, scs, dpf, dcs):
    """the conversion matrix of the documentation"""
    if spf <= RGB and dpf <= RGB:
        return (spf, dpf) in ((BGR, RGB), (BGRA, RGB), (RGB, BGRA))
    if spf <= RGB:
        return spf in (ARGB, BGRA, BGR) and dpf in (I420, I444, NV12)
    if dpf <= RGB:
        return (spf in (I420, I444, NV12) and dpf in (BGRA, RGBA)) or (spf == NV12 and dpf == RGB)
    return False


def pairs():
    return [(s, a, d, b) for s in range(9) for a in range(5) for d in range(9) for b in range(5)]


def valid_pair(s, a, d, b):
    return (s <= RGB) == (a == 0) and (d <= RGB) == (b == 0)


def find(mod, sub, extra=lambda n: True):
    r = [n for n in mod.funcs if re.search(sub, n) and extra(n)]
    if len(r) != 1:
        raise Unsupported(f"public function {sub} not found ({len(r)})")
    return mod.funcs[r[0]]


def public(mod, name):
    return find(mod, r"^@_RNvCs\w+?_20dcv_color_primitives%d%s$" % (len(name), name))


# ------------------------------------------------------------------ CPU model
def cpuid_var(leaf, sub, reg):
    return z3.BitVec(f"cpuid_{leaf:x}_{sub:x}_{reg}", 32)


XCR0 = z3.BitVec("xcr0", 64)


def bit(v, i):
    return z3.Extract(i, i, v) == 1


SSE2_OK = bit(cpuid_var(1, 0, "edx"), 26)
OS_YMM = z3.And(bit(cpuid_var(1, 0, "ecx"), 27), bit(cpuid_var(1, 0, "ecx"), 28), XCR0 & 6 == 6)
MAXLEAF = cpuid_var(0, 0, "eax")
AVX2_OK = z3.And(z3.UGE(MAXLEAF, 7), OS_YMM, bit(cpuid_var(7, 0, "ebx"), 5))


def asm_cpuid(ex, cal, args, st, ins):
    txt, cons = cal[1], cal[2]
    if "xgetbv" in txt:
        return xgetbv(ex, args, st, ins)
    if "cpuid" not in txt:
        raise Unsupported("inline asm " + txt[:40])
    leaf, sub = args[0], args[1] if len(args) > 1 else 0
    if not isinstance(leaf, int) or not isinstance(sub, int):
        raise Unsupported("cpuid with computed leaf")
    outs = []
    for c in cons.strip('"').split(","):
        if not c.startswith("="):
            continue
        m = re.search(r"\{(\w+)\}", c)
        r = {"ax": "eax", "eax": "eax", "cx": "ecx", "ecx": "ecx", "dx": "edx", "edx": "edx"}.get(m.group(1)) if m else "ebx"
        outs.append(cpuid_var(leaf, sub, r))
    return [(st, outs)]


def xgetbv(ex, args, st, ins):
    ex.oblige("xgetbv only where the OS enabled it", st, bit(cpuid_var(1, 0, "ecx"), 27), ins)
    return [(st, XCR0)]


class Stop(Exception):
    pass


def init_paths(mod, ex):
    """run the context initialiser symbolically; -> [(pc, INSTANCE object, cells)]"""
    found = []

    def once(ex, name, args, st, ins):
        # std's Once::call runs the closure exactly once with its data pointer, then marks completion
        data = args[2]
        vt = args[3]
        f = ex.load(("ptr",), PT(vt.obj, ex.add64(vt.off, 32)), st, ins)
        if not isinstance(f, FN):
            raise Unsupported("once closure")
        state = Ob("once_state", 16, fetch=lambda c, n, ty: z3.BitVec(f"once_state{c}", 8 * n))
        for s2, _ in ex.run(mod.funcs[f.name], [data, PT(state, 0)], st):
            found.append((s2, args[0].obj))
        return []

    ex.hooks = [(lambda n: "4once" in n and "4Once" in n and n.endswith("4call"), once), (lambda n: n.startswith("@llvm.x86.xgetbv"), lambda e, n, a, s, i: xgetbv(e, a, s, i))]
    ex.asm = asm_cpuid
    fn = public(mod, "convert_image")
    st = St()
    args, objs = image_args(ARGB, 0, BGRA and I420, 1, 1, 3)
    ex.run(fn, args, st)
    ex.hooks = []
    if not found:
        raise Unsupported("the dispatch table initialiser was not reached")
    return [(s.pc, o, s.rd(o)) for s, o in found]


W, H = z3.BitVec("width", 32), z3.BitVec("height", 32)


def fmt_obj(side, pf, cs, np_):
    o = Ob(side + "_format", 12, False)
    o.cells = {0: (4, pf), 4: (4, cs), 8: (4, np_)}
    return o


def stride_arr(name):
    n = z3.BitVec(name + "_count", 64)

    def fetch(c, k, ty):
        if k != 8 or c % 8:
            raise Unsupported("partial stride access")
        return z3.BitVec(f"{name}{c // 8}", 64)

    o = Ob(name, n * 8, False, fetch=fetch)
    return o, n, z3.ULE(n, z3.BitVecVal(1 << 60, 64) - 1)


def image_args(spf, scs, dpf, dcs, snp, dnp, sst=True, dst=True):
    objs = {}
    pre = []
    a = [W, H]
    for side, pf, cs, np_, has in (("src", spf, scs, snp, sst), ("dst", dpf, dcs, dnp, dst)):
        f = fmt_obj(side, pf, cs, np_)
        a.append(PT(f, 0))
        if has:
            o, n, c = stride_arr(side + "_stride")
            pre.append(c)
            a += [PT(o, 0), n]
        else:
            a += [PT(None, 0), z3.BitVec(side + "_nostride", 64)]
            o = None
        bn = z3.BitVec(side + "_buffers_count", 64)
        pre.append(z3.ULE(bn, z3.BitVecVal(1 << 59, 64) - 1))
        bo = Ob(side + "_buffers", bn * 16, side == "dst")
        a += [PT(bo, 0), bn]
        objs[side] = (f, o, bo, bn)
    return a, (objs, pre)


def once_installed(inst, cells):
    def once(ex, name, args, st, ins):
        st.mem[inst] = cells
        st.own.discard(inst)
        return [(st, UNDEF)]

    return (lambda n: "4once" in n and "4Once" in n and n.endswith("4call"), once)


SUBX = {I422: True, I420: True, NV12: True}
SUBY = {I420: True, NV12: True}


def np_ok(pf, np_):
    if pf == NV12:
        return z3.Or(np_ == 1, np_ == 2)
    return np_ == (1 if pf <= RGB else 3)


def parity_ok(pf, w, h):
    c = []
    if pf in SUBX:
        c.append(z3.Extract(0, 0, w) == 0)
    if pf in SUBY:
        c.append(z3.Extract(0, 0, h) == 0)
    return z3.And(*c) if c else z3.BoolVal(True)


def default_strides(ex, st, p, n, need):
    """the array handed over when the caller gave no strides: at least `need` zeros"""
    if not isinstance(p, PT) or p.obj is None or not isinstance(p.off, int) or not isinstance(n, int) or n < need:
        return False
    for i in range(need):
        try:
            v = ex.loadraw(st, p.obj, p.off + 8 * i, 8, ("i", 64))
        except Unsupported:
            return False
        if v != 0:
            return False
    return True


def same_int(ex, st, a, b, w):
    if a is UNDEF or isinstance(a, (PT, FN)):
        return False
    return ex.prove(st.pc, bvw(a, w) == bvw(b, w))[0] == "valid"


class ConvRes:
    """what convert_image does for one pair: the converter it runs, if any"""

    def __init__(self):
        self.fn = None


def check_pair(mod, ex, inst, cells, pair, sst, dst, res):
    """convert_image's contract for one (pixel format, colour space) pair; appends to ex.obls"""
    spf, scs, dpf, dcs = pair
    snp, dnp = z3.BitVec("src_planes", 32), z3.BitVec("dst_planes", 32)
    args, (objs, pre) = image_args(spf, scs, dpf, dcs, snp, dnp, sst, dst)
    fn = public(mod, "convert_image")
    called = []

    def indirect(ex, fv, a, st, ins):
        if not isinstance(fv, FN):
            raise Unsupported("indirect call through " + str(fv))
        r = z3.BitVec(f"converted{len(called)}", 1)
        st.log.append(("conv", fv.name, a, r))
        called.append(fv.name)
        return [(st, r)]

    ex.indirect = indirect
    ex.hooks = [once_installed(inst, cells)]
    st = St()
    st.pc = list(pre)
    label = f"{PF[spf]}/{CS[scs]} -> {PF[dpf]}/{CS[dcs]}"
    try:
        outs = ex.run(fn, args, st)
    finally:
        ex.indirect = None
        ex.hooks = []
    okfmt = z3.And(np_ok(spf, snp), np_ok(dpf, dnp), parity_ok(spf, W, H), parity_ok(dpf, W, H)) if valid_pair(*pair) else z3.BoolVal(False)
    sup = supported(*pair)
    for s, r in outs:
        convs = [e for e in s.log if e[0] == "conv"]
        wr = [e for e in s.log if e[0] == "write"]
        good = len(convs) <= 1 and not wr
        if convs:
            ex.oblige("a converter runs only for a valid, supported request", s, z3.And(okfmt, z3.BoolVal(sup)), where=label)
            _, name, a, rv = convs[0]
            if len(a) != 12:
                raise Unsupported("converter signature")
            if res.fn is None:
                res.fn = name
            g = name == res.fn
            g = g and same_int(ex, s, a[0], W, 32) and same_int(ex, s, a[1], H, 32)
            for side, k, np_, has, pf in (("src", 2, snp, sst, spf), ("dst", 7, dnp, dst, dpf)):
                f, so, bo, bn = objs[side]
                g = g and same_int(ex, s, a[k], np_ - 1, 32)
                if has:
                    g = g and isinstance(a[k + 1], PT) and a[k + 1].same(PT(so, 0)) and same_int(ex, s, a[k + 2], z3.BitVec(f"{side}_stride_count", 64), 64)
                else:
                    g = g and default_strides(ex, s, a[k + 1], a[k + 2], 3 if pf >= I444 else 1)
                g = g and isinstance(a[k + 3], PT) and a[k + 3].same(PT(bo, 0)) and same_int(ex, s, a[k + 4], bn, 64)
            if not g:
                raise Unsupported("converter called with arguments outside its contract: " + label)
            want = z3.If(rv == 1, z3.BitVecVal(-1, 32), z3.BitVecVal(2, 32))
            ex.oblige("Ok exactly when the buffers suffice, else NotEnoughData", s, z3.If(okfmt, bvw(r, 32) == want, bvw(r, 32) == 0), where=label)
        elif sup:
            ex.oblige("a supported, valid request is converted; anything else is InvalidValue", s, z3.And(z3.Not(okfmt), bvw(r, 32) == 0), where=label)
        else:
            ex.oblige("InvalidValue for malformed formats, InvalidOperation for unsupported pairs", s, bvw(r, 32) == z3.If(okfmt, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), where=label)
        if not good:
            raise Unsupported("convert_image calls several converters or writes: " + label)
    if not outs:
        raise Unsupported("no path through convert_image for " + label)


# ------------------------------------------------------------------ get_buffers_size
DEPTH = {ARGB: 4, BGRA: 4, RGBA: 4, BGR: 3, RGB: 3}
NPL = z3.BitVec("planes", 32)


def zx(v, w=64):
    return z3.ZeroExt(w - v.size(), v)


def size_spec(pf, np_, w, h, stride):
    """documented size of every plane buffer: rows x stride (stride: i -> term, default applied)"""
    w, h = zx(w), zx(h)
    w2, h2 = z3.LShR(w, 1), z3.LShR(h, 1)
    S = lambda i, d: z3.If(stride(i) == 0, d, stride(i))
    if pf <= RGB:
        return [S(0, w * DEPTH[pf]) * h]
    if pf == I444:
        return [S(i, w) * h for i in range(3)]
    if pf == I422:
        return [S(0, w) * h, S(1, w2) * h, S(2, w2) * h]
    if pf == I420:
        return [S(0, w) * h, S(1, w2) * h2, S(2, w2) * h2]
    if np_ == 1:
        return [S(0, w) * (h + h2)]
    return [S(0, w) * h, S(1, w) * h2]


def out_array(n):
    o = Ob("sizes", n * 8, True, fetch=lambda c, k, ty: z3.BitVec(f"old_size{c}_{k}", 8 * k))
    return o


def resolve(ex, e, pc):
    """cases [(pc, term)] of e without if-then-else"""
    work, out = [(list(pc), e)], []
    while work:
        pc, e = work.pop()
        c = first_ite(e)
        if c is None:
            out.append((pc, e))
            continue
        for g in (c.arg(0), z3.Not(c.arg(0))):
            if ex.sat(pc + [g])[0] != "unsat":
                work.append((pc + [g], z3.simplify(z3.substitute(e, (c, c.arg(1) if g is c.arg(0) or g.eq(c.arg(0)) else c.arg(2))))))
    return out


def first_ite(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bv(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
            return x
        st.extend(x.children())
    return None


def mpoly(e, w, atoms):
    """polynomial normal form over bit-vector atoms, modulo 2^w: {sorted atom tuple: coefficient}"""
    M = (1 << w) - 1
    if z3.is_bv_value(e):
        return {(): e.as_long()} if e.as_long() else {}
    k = e.decl().kind()
    ch = [mpoly(c, w, atoms) for c in e.children()] if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG) else None
    if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB:
        r = dict(ch[0])
        for c in ch[1:]:
            for m, v in c.items():
                r[m] = r.get(m, 0) + (v if k == z3.Z3_OP_BADD else -v) & M
    elif k == z3.Z3_OP_BNEG:
        r = {m: -v & M for m, v in ch[0].items()}
    elif k == z3.Z3_OP_BMUL:
        r = ch[0]
        for c in ch[1:]:
            n = {}
            for m1, v1 in r.items():
                for m2, v2 in c.items():
                    m = tuple(sorted(m1 + m2))
                    n[m] = n.get(m, 0) + v1 * v2 & M
            r = n
    elif k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        r = {m: (v << e.arg(1).as_long()) & M for m, v in mpoly(e.arg(0), w, atoms).items()}
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(e.num_args() - 1)) and e.arg(e.num_args() - 1).as_long() == 0:
        # zero low bits: a shifted (zero extended) value
        low = e.arg(e.num_args() - 1).size()
        rest = [e.arg(i) for i in range(e.num_args() - 1)]
        x = rest[0] if len(rest) == 1 else z3.Concat(*rest)
        x = z3.simplify(z3.ZeroExt(w - x.size(), x))
        r = {m: (v << low) & M for m, v in mpoly(x, w, atoms).items()}
    else:
        atoms[e.get_id()] = e
        r = {(e.get_id(),): 1}
    return {m: v for m, v in r.items() if v}


def equal64(ex, st, v, spec, kind, label):
    """v == spec under st.pc: by polynomial normal form case by case, z3 for what is left"""
    d = z3.simplify(v - spec)
    bad = []
    for pc, t in resolve(ex, d, st.pc):
        if mpoly(t, 64, {}):
            bad.append((pc, t))
    if not bad:
        ex.obls.append(Ob2(kind, label, "valid"))
        return
    for pc, t in bad:
        # a small counterexample first
        small = [z3.ULE(W, 64), z3.ULE(H, 64)] + [z3.ULE(z3.BitVec(f"stride{i}", 64), 300) for i in range(4)]
        r, m = ex.sat(pc + small + [t != 0])
        if r != "sat":
            r, m = ex.sat(pc + [t != 0])
        if r != "unsat":
            ex.obls.append(Ob2(kind, label, r, m, "", pc))
            return
    ex.obls.append(Ob2(kind, label, "valid"))


def check_sizes(mod, ex, pf, has):
    """get_buffers_size's contract for one pixel format, any colour space, any number of planes"""
    fn = public(mod, "get_buffers_size")
    f = fmt_obj("fmt", pf, z3.BitVec("color_space", 32), NPL)
    so, sn, c = stride_arr("stride")
    on = z3.BitVec("sizes_count", 64)
    oo = out_array(on)
    st = St()
    st.pc = [c, z3.ULE(on, z3.BitVecVal(1 << 60, 64) - 1), z3.ULT(z3.BitVec("color_space", 32), 5)]
    args = [W, H, PT(f, 0)] + ([PT(so, 0), sn] if has else [PT(None, 0), z3.BitVec("nostride", 64)]) + [PT(oo, 0), on]
    label = PF[pf] + (" with strides" if has else " with default strides")
    ok = z3.And(np_ok(pf, NPL), parity_ok(pf, W, H))
    n64 = zx(NPL)
    enough = z3.And(z3.UGE(on, n64), z3.UGE(sn, n64) if has else z3.BoolVal(True))
    outs = ex.run(fn, args, st)
    if not outs:
        raise Unsupported("no path through get_buffers_size")
    for s, r in outs:
        want = z3.If(ok, z3.If(enough, z3.BitVecVal(-1, 32), z3.BitVecVal(2, 32)), z3.BitVecVal(0, 32))
        ex.oblige("result code", s, bvw(r, 32) == want, where=label)
        writes = {}
        for e in s.log:
            if e[0] == "write":
                if e[3] != 8 or e[2] % 8:
                    raise Unsupported("partial size write")
                writes[e[2] // 8] = e[4]
        if ex.sat(s.pc + [bvw(r, 32) != -1])[0] != "unsat" and writes:
            ex.oblige("nothing written on failure", s, bvw(r, 32) == -1, where=label)
        for np_ in (1, 2) if pf == NV12 else (1,) if pf <= RGB else (3,):
            pc = s.pc + [NPL == np_, ok, enough]
            if ex.sat(pc)[0] == "unsat":
                continue
            x = St()
            x.pc = pc
            spec = size_spec(pf, np_, W, H, (lambda i: z3.BitVec(f"stride{i}", 64)) if has else (lambda i: z3.BitVecVal(0, 64)))
            for i in range(np_):
                if i not in writes or writes[i] is UNDEF:
                    ex.oblige(f"size {i} is written", x, z3.BoolVal(False), where=label)
                else:
                    v = bvw(writes[i], 64)
                    equal64(ex, x, v, spec[i], f"size {i} equals rows x stride", label)
            for i in writes:
                if i >= np_:
                    ex.oblige("entries beyond the planes are untouched", x, z3.BoolVal(False), where=label)


# ------------------------------------------------------------------ describe_acceleration
def describe(mod, ex, inst, cells, pc=()):
    """-> [(pc, [strings printed for the arguments])]"""
    fn = public(mod, "describe_acceleration")
    res = []
    cap = []

    def fmt(ex, name, args, st, ins):
        if len(args) < 3 or not isinstance(args[2], PT):
            raise Unsupported("format arguments")
        n = 2
        sts = [(st, [])]
        for i in range(n):
            nxt = []
            for s, got in sts:
                p = ex.load(("ptr",), PT(args[2].obj, ex.add64(args[2].off, 16 * i)), s, ins)
                f = ex.load(("ptr",), PT(args[2].obj, ex.add64(args[2].off, 16 * i + 8)), s, ins)
                if not isinstance(f, FN):
                    raise Unsupported("format argument")
                for s2, txt in run_fmt(ex, f, p, s):
                    nxt.append((s2, got + [txt]))
            sts = nxt
        for s, got in sts:
            res.append((s.pc, got))
        return []

    ex.hooks = [once_installed(inst, cells), (lambda n: "format_inner" in n, fmt)]
    st = St()
    st.pc = list(pc)
    ex.run(fn, [PT(Ob("ret", 24), 0)], st)
    ex.hooks = []
    return res


def run_fmt(ex, f, p, st):
    out = []

    def wstr(ex, name, args, st, ins):
        n = ex.conc(args[2], st)
        bs = []
        for i in range(n):
            bs.append(ex.load(("i", 8), PT(args[1].obj, ex.add64(args[1].off, i)), st, ins))
        st.log.append(("str", bytes(bs).decode()))
        return [(st, 0)]

    old = ex.hooks
    ex.hooks = [(lambda n: "Formatter9write_str" in n, wstr)] + old
    try:
        for s, _ in ex.run(ex.mod.funcs[f.name], [p, PT(Ob("formatter", 64), 0)], st):
            txt = "".join(e[1] for e in s.log if e[0] == "str")
            s.log = [e for e in s.log if e[0] != "str"]
            out.append((s, txt))
    finally:
        ex.hooks = old
    return out


# ------------------------------------------------------------------ target features
BASE = {"x87", "fxsr", "sse", "sse2", "mmx", "cx8", "cmov", "64bit"}
NEED = {"avx2", "avx", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "crc32"}


def features(mod, text, name, cache):
    """target features of a function and everything it calls"""
    if name in cache:
        return cache[name]
    cache[name] = set()
    fn = mod.funcs.get(name)
    if fn is None:
        return set()
    fs = set()
    for m in re.finditer(r"#(\d+)", fn.header):
        a = mod.attrs.get(m.group(1), "")
        mm = re.search(r'"target-features"="([^"]*)"', a)
        if mm:
            fs |= {x[1:] for x in mm.group(1).split(",") if x.startswith("+")}
    for ln in fn.body:
        for m in re.finditer(r'@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)', ln):
            if m.group(0) in mod.funcs and m.group(0) != name:
                fs |= features(mod, text, m.group(0), cache)
    cache[name] = fs
    return fs


# ------------------------------------------------------------------ C entry points
def c_format(side):
    """a caller supplied format: every field is an arbitrary 32-bit value"""
    v = [z3.BitVec(f"{side}_{x}", 32) for x in ("pf", "cs", "planes")]
    o = Ob(side + "_format", 12, False)
    o.cells = {4 * i: (4, v[i]) for i in range(3)}
    return o, v


def c_planes(side, np_):
    """the caller's array of plane pointers: one entry per plane, each possibly null"""
    planes, nulls = {}, {}

    def fetch(c, k, ty):
        if k != 8 or c % 8:
            raise Unsupported("partial read of a plane pointer")
        i = c // 8
        if i not in planes:
            planes[i] = Ob(f"{side}_plane{i}", z3.BitVec(f"{side}_plane{i}_size", 64))
        return Maybe(null(i), PT(planes[i], 0))

    def null(i):
        return z3.Bool(f"{side}_plane{i}_null")

    return Ob(side + "_planes", zx(np_) * 8, False, fetch=fetch), planes, null


def sym_np_ok(pf, n):
    return z3.Or(z3.And(z3.ULE(pf, RGB), n == 1), z3.And(z3.UGE(pf, I444), z3.ULE(pf, I420), n == 3), z3.And(pf == NV12, z3.Or(n == 1, n == 2)))


def sym_parity(pf, w, h):
    return z3.And(z3.Implies(z3.Or(pf == I422, pf == I420, pf == NV12), z3.Extract(0, 0, w) == 0), z3.Implies(z3.Or(pf == I420, pf == NV12), z3.Extract(0, 0, h) == 0))


def sym_mode(pf, cs):
    return z3.ULE(pf, RGB) == (cs == 0)


def c_error(has):
    return Ob("error", 4, True, fetch=lambda c, k, ty: z3.BitVec("old_error", 8 * k)) if has else None


def c_outcome(ex, s, err, r, want, label):
    """want: term of the library result (-1 Ok, else error code)"""
    e = [x for x in s.log if x[0] == "write" and x[1] is err] if err is not None else []
    ex.oblige("the C result says whether the call succeeded", s, bvw(r, 32) == z3.If(want == -1, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), where=label)
    if err is None:
        return
    if len(e) > 1 or any(x[2] != 0 or x[3] != 4 for x in e):
        raise Unsupported("error code written piecewise")
    v = bvw(e[0][4], 32) if e else z3.BitVec("old_error", 32)
    ex.oblige("the error code is stored exactly on failure", s, z3.If(want == -1, z3.BoolVal(not e), v == want if e else z3.BoolVal(False)), where=label)


def c_slices(ex, s, p, n, planes, null, side, np_):
    """the slice of slices passed on covers the caller's planes -> formula, or None when malformed"""
    g = []
    for i in range(3):
        need = z3.UGT(np_, i)
        if ex.sat(s.pc + [need, sym_np_ok(z3.BitVec(side + "_pf", 32), np_)])[0] == "unsat":
            continue
        if i not in planes:
            return z3.BoolVal(False)
        try:
            a = ex.loadraw(s, p.obj, p.off + 16 * i, 8, ("ptr",))
            l = ex.loadraw(s, p.obj, p.off + 16 * i + 8, 8, ("i", 64))
        except Unsupported:
            a, l = None, UNDEF
        if isinstance(a, Maybe):
            a = a.ptr
        if not isinstance(a, PT) or not a.same(PT(planes[i], 0)) or l is UNDEF:
            return z3.Implies(sym_np_ok(z3.BitVec(side + "_pf", 32), np_), z3.Not(need))
        l = bvw(l, 64)
        g.append(z3.Implies(need, z3.And(z3.Not(null(i)), z3.UGE(l, z3.BitVecVal(1 << 62, 64)), z3.ULT(l, z3.BitVecVal(1 << 63, 64)), z3.UGT(bvw(n, 64), i))))
    return z3.And(*g) if g else z3.BoolVal(True)


def check_c_convert(mod, ex, nulls, sst, dst, haserr):
    """dcp_convert_image; nulls: which of (src_format, src_buffers, dst_format, dst_buffers) are null"""
    fn = mod.funcs.get("@dcp_convert_image")
    if fn is None:
        raise Unsupported("dcp_convert_image not found")
    target = public(mod, "convert_image").name
    a = [W, H]
    pre = []
    S = {}
    for side, has, nf, nb in (("src", sst, nulls[0], nulls[1]), ("dst", dst, nulls[2], nulls[3])):
        fo, (pf, cs, np_) = c_format(side)
        so = Ob(side + "_stride", zx(np_) * 8, False, fetch=lambda c, k, ty, side=side: z3.BitVec(f"{side}_stride{c // 8}", 64)) if has else None
        bo, planes, null = c_planes(side, np_)
        a += [PT(None if nf else fo, 0), PT(so, 0), PT(None if nb else bo, 0)]
        S[side] = (fo, pf, cs, np_, so, planes, null)
    err = c_error(haserr)
    a.append(PT(err, 0))

    def conv(ex, name, args, st, ins):
        r = z3.BitVec(f"converted{len(st.log)}", 32)
        st.log.append(("call", args, r))
        x = st.copy()
        x.pc.append(z3.Or(r == -1, r == 0, r == 1, r == 2))
        return [(x, r)]

    ex.hooks = [(lambda n: n == target, conv)]
    st = St()
    try:
        outs = ex.run(fn, a, st)
    finally:
        ex.hooks = []
    label = "dcp_convert_image" + ("" if not any(nulls) else " null:" + ",".join(n for n, x in zip(("src_format", "src_buffers", "dst_format", "dst_buffers"), nulls) if x)) + f" strides:{int(sst)}{int(dst)} error:{int(haserr)}"
    if not outs:
        raise Unsupported("no path through " + label)
    for s, r in outs:
        calls = [e for e in s.log if e[0] == "call"]
        bad = [e for e in s.log if e[0] == "write" and e[1] is not err]
        if bad or len(calls) > 1:
            raise Unsupported("dcp_convert_image writes to caller memory or converts twice")
        enums, rest = [], []
        for side in ("src", "dst"):
            fo, pf, cs, np_, so, planes, null = S[side]
            enums += [z3.ULT(pf, 9), z3.ULT(cs, 5)]
            rest += [sym_np_ok(pf, np_)] + [z3.Implies(z3.UGT(np_, i), z3.Not(null(i))) for i in range(3)]
        good = z3.And(z3.BoolVal(not any(nulls)), *enums, *rest)
        if not calls:
            img = z3.And(good, *[z3.And(sym_mode(S[x][1], S[x][2]), sym_parity(S[x][1], W, H)) for x in S])
            ex.oblige("a well formed request reaches the library", s, z3.Not(img), where=label)
            c_outcome(ex, s, err, r, z3.BitVecVal(0, 32), label)
            continue
        _, c, rv = calls[0]
        if any(nulls):
            ex.oblige("no conversion with a null pointer", s, z3.BoolVal(False), where=label)
            continue
        ex.oblige("enumerations are validated before use", s, z3.And(*enums), where=label)
        ex.oblige("no conversion with a null plane", s, z3.Or(good, z3.Not(z3.And(*[sym_np_ok(S[x][1], S[x][3]) for x in S]))), where=label)
        if len(c) != 12:
            raise Unsupported("convert_image signature")
        g = [bvw(c[0], 32) == W, bvw(c[1], 32) == H]
        for side, k, has in (("src", 2, sst), ("dst", 7, dst)):
            fo, pf, cs, np_, so, planes, null = S[side]
            f = c[k]
            if not isinstance(f, PT) or f.obj is None:
                raise Unsupported("format argument")
            for i, v in enumerate((pf, cs, np_)):
                x = ex.loadraw(s, f.obj, f.off + 4 * i, 4, ("i", 32))
                g.append(z3.BoolVal(False) if x is UNDEF else bvw(x, 32) == v)
            if has:
                g.append(z3.BoolVal(isinstance(c[k + 1], PT) and c[k + 1].same(PT(so, 0))))
                g.append(bvw(c[k + 2], 64) == zx(np_))
            else:
                g.append(z3.BoolVal(isinstance(c[k + 1], PT) and c[k + 1].obj is None))
            p = c[k + 3]
            if not isinstance(p, PT) or p.obj is None or not isinstance(p.off, int):
                raise Unsupported("buffer argument")
            g.append(c_slices(ex, s, p, c[k + 4], planes, null, side, np_))
        ex.oblige("the library sees the caller's request unchanged", s, z3.And(*g), where=label)
        c_outcome(ex, s, err, r, rv, label)


def check_c_sizes(mod, ex, nulls, has, haserr):
    """dcp_get_buffers_size end to end; nulls: which of (format, buffers_size) are null"""
    fn = mod.funcs.get("@dcp_get_buffers_size")
    if fn is None:
        raise Unsupported("dcp_get_buffers_size not found")
    fo, (pf, cs, np_) = c_format("fmt")
    so = Ob("stride", zx(np_) * 8, False, fetch=lambda c, k, ty: z3.BitVec(f"stride{c // 8}", 64)) if has else None
    oo = out_array(zx(np_))
    err = c_error(haserr)
    st = St()
    st.pc = [z3.ULT(cs, 5)]
    args = [W, H, PT(None if nulls[0] else fo, 0), PT(so, 0), PT(None if nulls[1] else oo, 0), PT(err, 0)]
    label = "dcp_get_buffers_size" + (" null:" + ",".join(n for n, x in zip(("format", "buffers_size"), nulls) if x) if any(nulls) else "") + f" strides:{int(has)} error:{int(haserr)}"
    outs = ex.run(fn, args, st)
    if not outs:
        raise Unsupported("no path through " + label)
    ok = z3.And(z3.BoolVal(not any(nulls)), z3.ULT(pf, 9), sym_np_ok(pf, np_), sym_parity(pf, W, H))
    for s, r in outs:
        c_outcome(ex, s, err, r, z3.If(ok, z3.BitVecVal(-1, 32), z3.BitVecVal(0, 32)), label)
        writes = {}
        for e in s.log:
            if e[0] == "write" and e[1] is oo:
                if e[3] != 8 or e[2] % 8:
                    raise Unsupported("partial size write")
                writes[e[2] // 8] = e[4]
        if writes:
            ex.oblige("nothing written on failure", s, ok, where=label)
        if ex.sat(s.pc + [ok])[0] == "unsat":
            continue
        for p in range(9):
            for n in (1, 2) if p == NV12 else (1,) if p <= RGB else (3,):
                pc = s.pc + [np_ == n, pf == p, ok]
                if ex.sat(pc)[0] == "unsat":
                    continue
                x = St()
                x.pc = pc
                spec = size_spec(p, n, W, H, (lambda i: z3.BitVec(f"stride{i}", 64)) if has else (lambda i: z3.BitVecVal(0, 64)))
                for i in range(n):
                    if i not in writes or writes[i] is UNDEF:
                        ex.oblige(f"size {i} is written", x, z3.BoolVal(False), where=label)
                    else:
                        equal64(ex, x, bvw(writes[i], 64), spec[i], f"size {i} equals rows x stride", f"{label} {PF[p]}")
                if any(i >= n for i in writes):
                    ex.oblige("entries beyond the planes are untouched", x, z3.BoolVal(False), where=label)
