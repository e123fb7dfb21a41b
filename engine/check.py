"""Driver: python3-vt engine/check.py <property id>

Emits the IR of /repo's current source, generates and discharges the obligations of the contracts the
property depends on, replays what fails against the real code, writes evidence/<id>.json."""
import collections
import itertools
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

import z3
import control as K
import contract as C
import replay as R
from bv import Enough, Exec, FN, Ob2
from irparse import Module, Unsupported
from sym import prime
from norm import Equal
from solver import Solver
from sym import Engine

BUILD = os.path.join(ROOT, ".build")
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "800"))
MOD = None
TABLES = []  # [(set name, inst, cells)]
JOB_LIMIT = 400


def left():
    return LIMIT - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ obligation classes
def klass(kind):
    if re.search(r"panic|division|unreachable code|shift amount|terminates", kind):
        return "panic"
    if re.search(r"global state|hidden state", kind):
        return "state"
    if re.search(r"in-bounds|in bounds|pointer|read-only|writable|assumption|xgetbv", kind):
        return "memory"
    if kind.startswith("loop invariant"):
        return "invariant"
    if kind.startswith("value"):
        return "value"
    if kind.startswith("every destination"):
        return "cover"
    if kind.startswith("writes stay") or kind.startswith("nothing written"):
        return "frame"
    if kind.startswith("accepts"):
        return "accept"
    if kind.startswith("rejects"):
        return "reject"
    return "control"


FWD = lambda p: p[0] <= K.RGB and p[2] > K.RGB
BWD = lambda p: p[0] > K.RGB
PACK = lambda p: p[0] <= K.RGB and p[2] <= K.RGB
ALL = lambda p: True


class Prop:
    def __init__(self, conv=None, parts=(), classes=(), pairs=False, sizes=False, capi=False, cpu=False, tags=(), mode="sweep", kind=1, state=False):
        self.conv, self.parts, self.classes = conv, frozenset(parts), set(classes) | {"invariant"}
        self.pairs, self.sizes, self.capi, self.cpu = pairs, sizes, capi, cpu
        self.tags, self.mode, self.kind, self.state = set(tags), mode, kind, state


PROPS = {
    "C01": Prop(ALL, (), {"memory"}, pairs=True, sizes=True, tags={"crash", "outside"}),
    "C02": Prop(FWD, ("value", "cover"), {"value", "cover"}, tags={"value"}, kind=0),
    "C03": Prop(BWD, ("value", "cover"), {"value", "cover"}, tags={"value"}, kind=0),
    "C04": Prop(PACK, ("value", "cover"), {"value", "cover"}, tags={"value"}, kind=0),
    "C05": Prop(ALL, ("value", "cover", "result"), {"value", "cover", "accept", "reject"}, tags={"differ"}, mode="xsweep"),
    "C06": Prop(ALL, ("frame", "result"), {"frame"}, tags={"frame", "failwrite", "srcmod", "outside"}),
    "C07": Prop(ALL, ("result",), {"accept", "reject", "control"}, pairs=True, tags={"result"}),
    "C08": Prop(sizes=True, classes={"control", "frame", "memory", "panic"}, tags={"size"}),
    "C09": Prop(ALL, ("result",), {"reject"}, sizes=True, tags={"fit", "crash"}, mode="fsweep"),
    "C10": Prop(lambda p: not PACK(p), ("value", "cover"), {"value", "cover"}, tags={"neutral"}, mode="nsweep"),
    "C11": Prop(capi=True, classes={"control", "frame", "memory", "panic"}, tags={"capi"}),
    "C12": Prop(cpu=True, classes={"control", "memory"}, tags=set()),
    "C13": Prop(ALL, (), {"panic"}, pairs=True, sizes=True, tags={"panic", "hang"}),
    "C14": Prop(pairs=True, sizes=True, state=True, classes={"state"}, tags={"history"}, mode="hsweep"),
}


# ------------------------------------------------------------------ jobs (run in worker processes)
class TooLong(Exception):
    pass


def on_alarm(*_):
    raise TooLong()


def z3model(m):
    if m is None:
        return None
    if isinstance(m, dict):
        return m
    d = {}
    for v in m.decls():
        x = m[v]
        try:
            d[v.name()] = x.as_long()
        except Exception:
            d[v.name()] = z3.is_true(x)
    return d


def summary(obls):
    cnt = collections.Counter()
    bad = []
    for o in obls:
        cnt[(klass(o.kind), o.status == "valid")] += 1
        if o.status != "valid":
            bad.append({"kind": o.kind, "class": klass(o.kind), "where": o.where[:300], "status": o.status, "detail": str(o.detail)[:400], "over": bool(o.over), "model": z3model(o.model)})
    return cnt, bad


def conv_job(a):
    ti, p, cfg, parts, classes = a
    setn = TABLES[ti][0]
    cv = C.Conv(*cfg)
    s = Solver()
    eng = Engine(MOD, s)
    eq = Equal()
    res = []
    err = None
    fname = ""
    try:
        fname = find_converter(ti, p)
        C.verify(eng, cv, MOD.funcs[fname], eq, res, parts)
    except Unsupported as e:
        err = str(e)[:500]
        res = list(eng.obls)
    cands = []
    n = 0
    for o in res:
        if o.status != "valid" and klass(o.kind) in classes and n < 6:
            n += 1
            try:
                cands += R.concretise(eng, cv, setn, o, 24)
            except (Unsupported, KeyError, ValueError):
                pass
    cnt, bad = summary(res)
    return {"cnt": cnt, "bad": bad, "err": err, "cands": cands, "fns": sorted(eng.fns_seen) or [fname], "z3": (s.stats.z3_calls, s.stats.z3_s), "eq": getattr(eq, "stats", None)}


def bv_job(f):
    ex = mkexec()
    err = None
    try:
        f(ex)
    except Enough:
        pass
    except Unsupported as e:
        err = str(e)[:500]
    cnt, bad = summary(ex.obls)
    return {"cnt": cnt, "bad": bad, "err": err, "cands": [], "fns": sorted(ex.fns_seen), "z3": (ex.z3_calls, ex.z3_s)}


def pairs_job(a):
    ti, ps, modes = a
    _, inst, cells = TABLES[ti]

    def f(ex):
        errs = []
        for p in ps:
            for sst, dst in modes:
                try:
                    n = len(ex.obls)
                    K.check_pair(MOD, ex, inst, cells, p, sst, dst, K.ConvRes())
                except Unsupported as e:
                    errs.append(f"{p} {e}")
                for o in ex.obls[n:]:
                    o.pair = (p, sst, dst)
        if errs:
            raise Unsupported("; ".join(errs[:4]))

    ex = mkexec()
    err = None
    try:
        f(ex)
    except Enough:
        pass
    except Unsupported as e:
        err = str(e)[:500]
    cnt, bad = summary(ex.obls)
    cands = []
    for o in [o for o in ex.obls if o.status == "sat"][:24]:
        cands += pair_cases(TABLES[ti][0], o.pair, z3model(o.model) or {})
    return {"cnt": cnt, "bad": bad, "err": err, "cands": cands, "fns": sorted(ex.fns_seen), "z3": (ex.z3_calls, ex.z3_s)}


def pair_cases(setn, pm, m):
    (spf, scs, dpf, dcs), sst, dst = pm
    out = []
    dims = [(m.get("width", 2), m.get("height", 2))]
    dims += [(w + (dims[0][0] & 1), h + (dims[0][1] & 1)) for w, h in ((2, 2), (16, 4), (64, 2))] + [(2, 2), (3, 3), (2, 3), (3, 2)]
    for w, h in dims:
        if w * h > 1 << 22:
            continue
        im = []
        for side, pf, cs in (("src", spf, scs), ("dst", dpf, dcs)):
            np_ = m.get(side + "_planes", 1)
            n = 2 * (w + 1) * (h + 1) * 4
            im += [f"{pf},{cs},{np_}", "none", ",".join([str(n)] * 4)]
        out.append(";".join([setn, str(w), str(h)] + im + ["0", "1", "1"]))
    return out


def sizes_job(a):
    pf, has = a
    return bv_job(lambda ex: K.check_sizes(MOD, ex, pf, has))


def csizes_job(a):
    return bv_job(lambda ex: K.check_c_sizes(MOD, ex, *a))


def cconv_job(a):
    return bv_job(lambda ex: K.check_c_convert(MOD, ex, *a))


def run_job(j):
    kind, a = j
    t = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(JOB_LIMIT)
    try:
        r = {"conv": conv_job, "pairs": pairs_job, "sizes": sizes_job, "csizes": csizes_job, "cconv": cconv_job}[kind](a)
    except TooLong:
        r = {"cnt": {}, "bad": [], "err": "time limit", "cands": [], "fns": [], "z3": (0, 0)}
    except MemoryError:
        r = {"cnt": {}, "bad": [], "err": "memory", "cands": [], "fns": [], "z3": (0, 0)}
    except Exception as e:  # an engine limitation is never an alarm
        r = {"cnt": {}, "bad": [], "err": "engine: " + traceback.format_exc()[-400:], "cands": [], "fns": [], "z3": (0, 0)}
    finally:
        signal.alarm(0)
    r["t"] = time.time() - t
    return j, r


# ------------------------------------------------------------------ replay
class Runner:
    def __init__(self):
        self.bin = {}

    def get(self, capi=False):
        if capi not in self.bin:
            d = os.path.join(BUILD, f"runner{'c' if capi else ''}-{os.getpid()}")
            subprocess.run(["bash", os.path.join(ROOT, "build_runner.sh"), "release", d, " " if capi else "--features sets"], check=True, stdout=subprocess.DEVNULL, timeout=max(60, left()))
            self.bin[capi] = os.path.join(d, "release", "vrunner")
        return self.bin[capi]

    def close(self):
        for b in self.bin.values():
            shutil.rmtree(os.path.dirname(os.path.dirname(b)), ignore_errors=True)

    def run(self, args, stdin="", capi=False, timeout=60):
        """-> [(case, exp, [(tag, message)])], hang?"""
        try:
            p = subprocess.run([self.get(capi)] + [str(x) for x in args], input=stdin, capture_output=True, text=True, timeout=timeout, errors="replace")
            out, hang = p.stdout, False
        except subprocess.TimeoutExpired as e:
            out, hang = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), True
        res = []
        for ln in out.splitlines():
            if ln.startswith("FAIL "):
                c, _, m = ln[5:].partition(" :: ")
                exp = None
                x = re.search(r" exp=(-?\d+)$", c)
                if x:
                    exp, c = int(x.group(1)), c[: x.start()]
                res.append((c.strip(), exp, [tuple(q.strip().partition(": ")[::2]) for q in m.split(" | ")]))
        return res, hang, out

    def cases(self, mode, lines, capi=False):
        res = []
        i = 0
        while i < len(lines) and left() > 5:
            r, hang, out = self.run([mode], "\n".join(lines[i:]) + "\n", capi, 30)
            res += r
            if "DONE" in out:
                break
            # crashed or hung on one line: continue after it
            done = [k for k in range(i, len(lines)) if r and lines[k].strip() == r[-1][0]]
            if hang:
                res.append((lines[i], None, [("hang", "no answer within 30 s")]))
            i = (done[0] if done else i) + 1
        return res


def matches(prop, exp, tags):
    got = {t for t, _ in tags}
    if got & prop.tags:
        return True
    # crashing where an error had to be returned is a wrong result
    return "result" in prop.tags and "crash" in got and exp not in (None, -1)


# ------------------------------------------------------------------ main
def emit():
    d = os.path.join(BUILD, f"ir-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["bash", os.path.join(HERE, "emit.sh"), d] + sys.argv[2:], capture_output=True, text=True)
    if p.returncode:
        log(p.stderr[-3000:])
        log("the crate does not build")
        sys.exit(2)
    txt = open(os.path.join(d, "crate.ll")).read()
    shutil.rmtree(d, ignore_errors=True)
    return txt


GLOBS = {}


def mkexec():
    ex = Exec(MOD)
    ex.globs = GLOBS  # one identity per global object, the dispatch table included
    return ex


def tables():
    """the dispatch tables the initialiser can install -> [(pc, inst, cells, strings)], distinct tables"""
    ex = mkexec()
    paths = K.init_paths(MOD, ex)
    full = []
    seen = {}
    for pc, o, cells in paths:
        key = tuple(sorted((n, v.name) for n, (sz, v) in cells.items() if isinstance(v, FN)))
        try:
            strs = K.describe(MOD, mkexec(), o, cells, pc)
        except Unsupported:
            strs = []
        full.append((pc, o, cells, strs, key))
        if key not in seen:
            seen[key] = (o, cells, [])
        seen[key][2].append(strs)
    tabs = []
    for key, (o, cells, ss) in seen.items():
        n = {x[1][-1].lower() for strs in ss for x in strs if x[1]}
        tabs.append((n.pop() if len(n) == 1 else "", o, cells))
    # names the runner knows; else decide by the converters' symbols
    out = []
    for n, o, cells in tabs:
        if n not in ("x86", "sse2", "avx2"):
            syms = " ".join(v.name for sz, v in cells.values() if isinstance(v, FN))
            n = max(("x86", "sse2", "avx2"), key=lambda x: syms.count(f"{len(x)}{x}"))
        out.append((n, o, cells))
    return full, out, ex


FOUND = {}


def find_converter(ti, p):
    """the function the dispatch table of this set holds for a format pair, found by running convert_image"""
    if (ti, p) not in FOUND:
        n, inst, cells = TABLES[ti]
        cr = K.ConvRes()
        ex = mkexec()
        ex.mute = True
        K.check_pair(MOD, ex, inst, cells, p, True, True, cr)
        if cr.fn is None or cr.fn not in MOD.funcs:
            raise Unsupported("converter not found through the dispatch table")
        FOUND[(ti, p)] = cr.fn
    return FOUND[(ti, p)]


def configs(p):
    return [(p[0], p[1], a, p[2], p[3], b) for a in ((1, 2) if p[0] == K.NV12 else (1,)) for b in ((1, 2) if p[2] == K.NV12 else (1,))]


def cost(j):
    kind, a = j
    if kind == "conv":
        c = a[2]
        return (60 if PACK((c[0], 0, c[3])) else 5) * (1 if TABLES[a[0]][0] == "x86" else 2.5)
    return 30 if kind == "cconv" and not any(a[0]) else 3


def size_lines(m, rnd, n):
    out = []
    if m is not None:
        pf = m["pf"]
        np_ = m.get("planes", 1)
        for w, h in ((m.get("width", 2), m.get("height", 2)), (2, 2), (64, 4)):
            sn = min(m.get("stride_count", np_), 4)
            st = ",".join(str(m.get(f"stride{i}", 0)) for i in range(sn)) or "[]"
            for cnt in {min(m.get("sizes_count", np_), 8), np_ if np_ < 8 else 0}:
                out.append(f"{pf};{np_};{w};{h};{st if m.get('has') else 'none'};{cnt}")
    for _ in range(n):
        pf = rnd.randrange(9)
        np_ = rnd.choice([1, 2, 3, 3, 3, 0, 4]) if rnd.random() < 0.3 else (1 if pf < 5 else 3 if pf < 8 else rnd.choice([1, 2]))
        dim = lambda: rnd.choice([0, 1, 2, 3, 4, rnd.randrange(100), rnd.randrange(1 << 16), rnd.randrange(1 << 32), (1 << 32) - 1, (1 << 31) + 2, 1 << 31])
        w, h = dim(), dim()
        if rnd.random() < 0.8:
            w, h = w & ~1, h & ~1
        if rnd.random() < 0.4:
            st = "none"
        else:
            k = np_ if rnd.random() < 0.8 else rnd.randrange(6)
            st = ",".join(str(rnd.choice([0, 0, rnd.randrange(1 << 10), rnd.randrange(1 << 31)])) for _ in range(k)) or "[]"
        out.append(f"{pf};{np_};{w};{h};{st};{np_ if rnd.random() < 0.8 else rnd.randrange(6)}")
    return out


def c_line(kind, a, m):
    """C request for the runner from a counterexample of a C entry point"""
    n = m.get
    if kind == "csizes":
        nulls, has, err = a
        st = ",".join(str(n(f"stride{i}", 0)) for i in range(min(n("fmt_planes", 1), 3))) or "[]"
        im = f"{n('fmt_pf', 0)},{n('fmt_cs', 0)},{n('fmt_planes', 1)};{nulls[0] + 2 * nulls[1]};{st if has else 'none'}"
        return f"size;{n('width', 2)};{n('height', 2)};{im};0,0,1;0;none;{int(err)};1"
    nulls, sst, dst, err = a
    im = []
    for side, nf, nb, has in (("src", nulls[0], nulls[1], sst), ("dst", nulls[2], nulls[3], dst)):
        pl = n(side + "_planes", 1)
        mask = nf + 2 * nb + sum(4 << i for i in range(3) if n(f"{side}_plane{i}_null", False))
        st = ",".join(["0"] * min(pl, 8)) or "[]"
        im.append(f"{n(side + '_pf', 0)},{n(side + '_cs', 0)},{pl};{mask};{st if has else 'none'}")
    return ";".join(["conv", str(n("width", 2)), str(n("height", 2))] + im + [str(int(err)), "1"])


def known(pid):
    f = os.path.join(ROOT, "known-findings.txt")
    out = []
    if os.path.exists(f):
        for ln in open(f):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    global MOD, TABLES
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[pid]
    import random

    rnd = random.Random(seed)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    MOD = Module(emit())
    prime(MOD.funcs)
    log(f"[{pid}] IR of /repo emitted, {len(MOD.funcs)} functions, {time.time() - T0:.0f}s")
    jobs, unsupported = [], []  # unsupported: (what, reason, pair or None)
    total = collections.Counter()
    bads, fns, z3n, z3s = [], set(), 0, 0.0
    full, ex0 = [], None
    if prop.conv or prop.pairs or prop.cpu or prop.state:
        try:
            full, TABLES, ex0 = tables()
            # the initialiser's frame is the dispatch table itself: its stores to it are no hidden state
            cnt, bad = summary([o for o in ex0.obls if klass(o.kind) != "state"])
            absorb(prop, total, cnt, pid in ("C01", "C12", "C13"))
            bads += [(("init", None), b, []) for b in bad if b["class"] in prop.classes]
            fns |= ex0.fns_seen
            z3n, z3s = z3n + ex0.z3_calls, z3s + ex0.z3_s
        except Unsupported as e:
            unsupported.append(("table construction", str(e), None))
    if prop.conv:
        wanted = [p for p in K.pairs() if K.valid_pair(*p) and K.supported(*p) and prop.conv(p)]
        for ti in range(len(TABLES)):
            for p in wanted:
                for c in configs(p):
                    jobs.append(("conv", (ti, p, c, prop.parts, frozenset(prop.classes))))
        if not TABLES:
            unsupported += [(f"{p}", "no dispatch table", p) for p in wanted]
    if prop.pairs:
        ps = K.pairs()
        modes = list(itertools.product((True, False), repeat=2))
        for ti in range(len(TABLES)):
            jobs += [("pairs", (ti, ps[i::8], modes)) for i in range(8)]
    if prop.sizes:
        jobs += [("sizes", (pf, has)) for pf in range(9) for has in (True, False)]
    if prop.capi:
        jobs += [("csizes", (n, h, e)) for n in itertools.product((False, True), repeat=2) for h in (True, False) for e in (True, False)]
        jobs += [("cconv", (n, a, b, e)) for n in itertools.product((False, True), repeat=4) for a in (True, False) for b in (True, False) for e in (True, False)]
    jobs.sort(key=cost, reverse=True)
    log(f"[{pid}] {len(jobs)} verification units, tables: {[t[0] for t in TABLES]}, {time.time() - T0:.0f}s")
    done = 0
    violation = None
    runner = Runner()
    early = Early(pid, prop, runner)
    if jobs:
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 8)) as pool:
            it = pool.imap_unordered(run_job, jobs)
            pending = set(range(len(jobs)))
            while done < len(jobs):
                try:
                    j, r = it.next(timeout=max(1, left() - 260))
                except mp.TimeoutError:
                    unsupported.append((f"{len(jobs) - done} units", "time budget", None))
                    pool.terminate()
                    break
                done += 1
                absorb(prop, total, r["cnt"], True)
                fns |= set(r["fns"])
                z3n, z3s = z3n + r["z3"][0], z3s + r["z3"][1]
                p = (j[1][2][0], j[1][2][1], j[1][2][3], j[1][2][4]) if j[0] == "conv" else None
                if r["err"]:
                    unsupported.append((label(j), r["err"], p, j))
                mine = [b for b in r["bad"] if b["class"] in prop.classes]
                for b in mine:
                    bads.append((j, b, r["cands"]))
                violation = early(j, mine, r["cands"], bads)
                if violation:
                    log(f"[{pid}] {len(jobs) - done} units left out after an observed failure")
                    pool.terminate()
                    break
    if prop.state:
        state_obligations(full, total, bads, fns, unsupported)
    if prop.cpu:
        cpu_obligations(full, total, bads, fns, unsupported)
    if pid == "C10":
        lemma_neutral(total, bads)
    if pid in ("C02", "C03"):
        lemma_documented(total, bads, pid == "C03")
    if pid == "C09":
        lemma_fit(total, bads)
    nob = sum(v for k, v in total.items())
    ok = sum(v for k, v in total.items() if k[1])
    log(f"[{pid}] obligations {nob}, discharged {ok}, units not decided {len(unsupported)}, {time.time() - T0:.0f}s")
    # ---- what was not discharged
    stand = []
    try:
        if violation:
            pass
        elif bads or unsupported:
            violation, stand = investigate(pid, prop, bads, unsupported, runner, rnd, seed)
        elif tier == "thorough":
            thorough(pid, prop, runner, rnd, seed, stand)
            violation = stand.pop() if stand and isinstance(stand[-1], tuple) else None
        for case, what in known(pid):
            log(f"KNOWN-FINDING: property={pid} {what}")
    finally:
        runner.close()
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": ok,
            "checker_cmd": f"python3-vt engine/check.py {pid}",
            "trusted_base": TRUSTED,
            "functions_under_contract": len(fns),
            "functions": sorted(short(f) for f in fns),
            "verification_units": len(jobs),
            "by_class": {f"{k[0]} {'discharged' if k[1] else 'open'}": v for k, v in sorted(total.items())},
            "back_ends": {"z3 queries": z3n, "other": "interval reasoning, polynomial and bit-level normal forms (engine/norm.py, engine/poly.py)"},
            "solver_s": round(z3s, 1),
            "open_obligations": [b for _, b, _ in bads][:40],
            "bounded_stand_ins": [s for s in stand if not isinstance(s, tuple)][:80],
            "samples": [label(j) for j in jobs[:5]],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if violation:
        path, tail = violation
        log(f"VIOLATION property={pid} replay={path}{tail}")
        sys.exit(1)
    log(f"[{pid}] held: {ok}/{nob} obligations discharged, {len(stand)} bounded stand-ins, {time.time() - T0:.0f}s")
    sys.exit(0)


def absorb(prop, total, cnt, take):
    if take:
        for k, v in cnt.items():
            if k[0] in prop.classes:
                total[k] += v


def label(j):
    kind, a = j
    if kind == "conv":
        return f"{TABLES[a[0]][0]} {C.Conv(*a[2]).label()}"
    if kind == "pairs":
        return f"{TABLES[a[0]][0]} dispatch of {len(a[1])} format pairs"
    return f"{kind} {a}"


def short(f):
    from sym import demangle

    return demangle(f)[:90]


# ------------------------------------------------------------------ CPU selection
def cpu_obligations(full, total, bads, fns, unsupported):
    cache = {}
    ex = mkexec()
    for n, (pc, o, cells, strs, key) in enumerate(full):
        fs = set()
        for sz, v in cells.values():
            if isinstance(v, FN):
                fs |= K.features(MOD, None, v.name, cache)
                fns.add(v.name)
        extra = fs - K.BASE
        where = f"initialiser path {n}, {len(key)} converters"
        goal = K.AVX2_OK if extra else z3.BoolVal(True)
        r, m = ex.prove(pc, goal)
        k = "control"
        total[(k, r == "valid")] += 1
        if r != "valid":
            bads.append((("cpu", n), {"kind": "converters using " + ",".join(sorted(extra)) + " are installed only if the CPU and the OS support them", "class": k, "where": where, "status": r, "detail": "", "over": False, "model": z3model(m)}, []))
        if extra - K.NEED:
            unsupported.append((where, "instruction extensions without a detection model: " + ",".join(sorted(extra - K.NEED)), None))
        if not strs:
            unsupported.append((where, "description not executed", None))
        for pc2, s in strs:
            okk = bool(s) and (s[-1].lower() == "avx2") == bool(extra)
            r, m = ex.sat(pc2)
            if r == "unsat":
                continue
            total[(k, okk)] += 1
            if not okk:
                bads.append((("cpu", n), {"kind": f"the reported instruction set '{s[-1] if s else ''}' is the one in use", "class": k, "where": where, "status": "sat", "detail": str(s), "over": False, "model": z3model(m)}, []))


# ------------------------------------------------------------------ hidden state
PURE_EXTERN = r"^@(llvm\.(lifetime|experimental\.noalias|assume|mem(cpy|move|set)|u?s?(add|sub|mul)\.(with\.overflow|sat)|[us](min|max|cmp)|ct|vector|x86\.(sse|avx|ssse|bmi)|abs|fsh|expect|bswap|bitreverse|masked|objectsize|donothing|prefetch|is\.constant))|panicking|slice_index|option|result13unwrap|rust_eh_personality|memcmp|bcmp|memcpy|memset|memmove"
STATE_ROOTS = ("convert_image", "get_buffers_size")


def state_obligations(full, total, bads, fns, unsupported):
    """frame of every function a conversion or size request can run: no mutable global, no hidden input"""
    inst = {o.name for _, o, _, _, _ in full}
    work = [K.public(MOD, n).name for n in STATE_ROOTS] + [n for n in ("@dcp_convert_image", "@dcp_get_buffers_size") if n in MOD.funcs]
    for _, o, cells, _, _ in full:
        work += [v.name for sz, v in cells.values() if isinstance(v, FN)]
    seen = set()
    mutable = {g for g in MOD.globals if not MOD.global_is_const(g)} - inst
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        fn = MOD.funcs.get(n)
        if fn is None:
            if not re.search(PURE_EXTERN, n) and not ("4once" in n and "4Once" in n):
                total[("state", False)] += 1
                bads.append((("state", n), {"kind": "no hidden state: external function", "class": "state", "where": n, "status": "unknown", "detail": "", "over": True, "model": None}, []))
            continue
        fns.add(n)
        why = []
        for ln in fn.body:
            for m in re.finditer(r'@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)', ln):
                g = m.group(0)
                if g in MOD.funcs or g in MOD.decls:
                    # the initialiser runs inside Once: its frame is the dispatch table
                    if g not in seen and not (("4once" in g.lower() and "closure" in g) or "vtable" in g):
                        work.append(g)
                elif g in mutable:
                    why.append("mutable global " + g)
            if re.search(r"\b(atomicrmw|cmpxchg|fence)\b|threadlocal|\basm\b(?! sideeffect inteldialect \"\")|readcyclecounter|rdtsc|rdrand|rdpmc", ln) and '""' not in ln:
                why.append(ln.strip()[:80])
        good = not why
        total[("state", good)] += 1
        if not good:
            bads.append((("state", n), {"kind": "no hidden state", "class": "state", "where": short(n), "status": "unknown", "detail": "; ".join(why[:3]), "over": True, "model": None}, []))


# ------------------------------------------------------------------ lemmas over the contracts
def lemma_neutral(total, bads):
    """over the value contract: neutral colours stay neutral and limited range outputs stay nominal"""
    def ob(name, good):
        total[("value", bool(good))] += 1
        if not good:
            bads.append((("lemma", name), {"kind": "value lemma " + name, "class": "value", "where": "specification", "status": "sat", "detail": "", "over": True, "model": None}, []))

    for cs, k in C.FWD.items():
        lum = lambda r, g, b: (k[0] * r + k[1] * g + k[2] * b + k[6]) >> 16
        lo, hi = lum(0, 0, 0), lum(255, 255, 255)  # all weights are positive: extremes at the corners
        ob(f"{C.CS[cs]} luma weights positive", min(k[:3]) > 0)
        ob(f"{C.CS[cs]} luma range", (lo, hi) == ((16, 235) if cs <= 2 else (0, 255)))
        yr, yg, zg = k[3], k[4], k[5]
        for nm, (a, b, c) in (("cb", (yr, yg, -(yr + yg))), ("cr", (-(yr + yg), zg, (yr + yg) - zg))):
            ob(f"{C.CS[cs]} {nm} weights sum to zero", a + b + c == 0)
            for sh in (16, 18):
                n = 1 << (sh - 16)
                bias = (128 << sh) + (1 << (sh - 1)) - 1
                ob(f"{C.CS[cs]} {nm} neutral is 128", bias >> sh == 128)
                mx = sum(x for x in (a, b, c) if x > 0) * 255 * n
                mn = sum(x for x in (a, b, c) if x < 0) * 255 * n
                l, h = (mn + bias) >> sh, (mx + bias) >> sh
                ob(f"{C.CS[cs]} {nm} range", 0 <= l and h <= 255 and (cs > 2 or (l >= 16 and h <= 240)))
    for cs, k in C.BWD.items():
        r = (128 * k[1] >> 8) - k[5]
        g = k[6] - (128 * k[2] >> 8) - (128 * k[3] >> 8)
        b = (128 * k[4] >> 8) - k[7]
        ob(f"{C.CS[cs]} neutral chroma gives equal channels", r == g == b)


# the real formulas of convert_image's documentation
DOC_FWD = {1: ((257, 504, 98, 16000), (-148, -291, 439), (439, -368, -71)),
           2: ((183, 614, 62, 16000), (-101, -339, 439), (439, -399, -40)),
           3: ((299, 587, 114, 0), (-169, -331, 500), (500, -419, -81)),
           4: ((213, 715, 72, 0), (-115, -385, 500), (500, -454, -46))}
DOC_BWD = {1: (1164, 16, 1596, 813, 392, 2017), 2: (1164, 16, 1793, 534, 213, 2115),
           3: (1000, 0, 1402, 714, 344, 1772), 4: (1000, 0, 1575, 468, 187, 1856)}


def lemma_documented(total, bads, back):
    """over the value contract: the integer formula is within 1 of the documented real formula everywhere.
    code - documented is affine in the samples plus floor losses, so its extremes are at the corners of the cube"""
    from fractions import Fraction as F

    def ob(name, lo, hi):
        good = -1 < lo and hi < 1
        total[("value", good)] += 1
        if not good:
            bads.append((("lemma", name), {"kind": "value lemma " + name, "class": "value", "where": "specification", "status": "sat", "detail": f"{float(lo)} {float(hi)}", "over": True, "model": None}, []))

    cube = list(itertools.product((0, 255), repeat=3))
    if back:
        for cs, k in C.BWD.items():
            d = [F(x, 1000) for x in DOC_BWD[cs]]
            d[1] *= 1000
            for ch in range(3):
                t = 2 if ch == 1 else 1  # chroma terms, each floored once; the luma term is floored as well
                e = []
                for y, u, v in cube:
                    doc = d[0] * (y - d[1]) + [d[2] * (v - 128), -d[3] * (v - 128) - d[4] * (u - 128), d[5] * (u - 128)][ch]
                    code = F(k[0] * y, 256) + [F(k[1] * v, 256) - k[5], k[6] - F(k[2] * v, 256) - F(k[3] * u, 256), F(k[4] * u, 256) - k[7]][ch]
                    e += [(code - (1 if ch == 1 else 2)) / 64 - F(63, 64) - doc, (code + (2 if ch == 1 else 0)) / 64 - doc]
                ob(f"{C.CS[cs]} {'rgb'[ch]} is within 1 of the documented formula", min(e), max(e))
        return
    for cs, k in C.FWD.items():
        yr, yg, zg = k[3], k[4], k[5]
        for nm, w, bias, doc in (("y", k[:3], F(k[6], 65536), DOC_FWD[cs][0]),
                                 ("cb", (yr, yg, -(yr + yg)), F((128 << 16) + 32767, 65536), DOC_FWD[cs][1] + (128000,)),
                                 ("cr", (-(yr + yg), zg, (yr + yg) - zg), F((128 << 16) + 32767, 65536), DOC_FWD[cs][2] + (128000,))):
            e = []
            for c in cube:
                x = sum(F(a * b, 65536) for a, b in zip(w, c)) + bias - sum(F(a * b, 1000) for a, b in zip(doc, c)) - F(doc[3], 1000)
                e += [x - 1, x]
            ob(f"{C.CS[cs]} {nm} is within 1 of the documented formula", min(e), max(e))


def lemma_fit(total, bads):
    """S >= row, rows >= 1: rows*S covers the last row: base + (rows-1)*S + row <= rows*S (+ base)"""
    S, n, r = z3.Ints("S n r")
    s = z3.Solver()
    # rows*S - ((rows-1)*S + row) == S - row, written without the product
    s.add(S >= r, z3.Not(S - r >= 0))
    ok = s.check() == z3.unsat
    total[("reject", ok)] += 1


# ------------------------------------------------------------------ failures
def write_replay(pid, what, bads):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.txt")
    with open(p, "w") as f:
        f.write(what + "\n\nfailed obligations:\n")
        for j, b, _ in bads[:20]:
            f.write(json.dumps(b, default=str) + "\n")
    return p


def replay_cmd(mode, case, capi=False):
    return ("bash /verif/build_runner.sh release /verif/.build/rr '" + (" " if capi else "--features sets") + "' && echo '" + case + f"' | /verif/.build/rr/release/vrunner {mode}")


MODE = {"sweep": "cases", "xsweep": "xcases", "fsweep": "fcases", "nsweep": "ncases", "hsweep": "hcases"}


def observed(pid, prop, bads, res, mode, capi=False):
    kn = [c for c, _ in known(pid)]
    for case, exp, tags in res:
        if matches(prop, exp, tags) and case not in kn:
            msg = " | ".join(f"{t}: {m}" for t, m in tags)
            p = write_replay(pid, f"property {pid}\nfailing input: {case}\nobserved: {msg}\nreplay: {replay_cmd(mode, case, capi)}", bads)
            for j, b, _ in bads[:4]:
                log(f"[{pid}] open: {b['status']} {b['kind']} @ {label(j) if j[0] in ('conv', 'pairs', 'sizes', 'csizes', 'cconv') else j} {b['where'][:120]} {b['detail'][:160]}")
            log(f"[{pid}] failing input {case} :: {msg}")
            return (p, "")
    return None


class Early:
    """replays counterexamples while other units are still being verified: one observed failure settles the run"""

    def __init__(self, pid, prop, runner):
        self.pid, self.prop, self.runner = pid, prop, runner
        self.tried, self.fresh, self.last, self.n = set(), [], time.time(), 0

    def __call__(self, j, mine, cands, bads):
        if mine and j[0] in ("csizes", "cconv"):
            cands = [c_line(j[0], j[1], b["model"]) for b in mine[:40] if b["model"]]
        for x in cands if mine else ():
            if x not in self.tried and len(self.fresh) < 400:
                self.tried.add(x)
                self.fresh.append(x)
        if not self.fresh or self.n >= 8 or time.time() - self.last < 8 * self.n or left() < 300:
            return None
        self.n += 1
        capi = j[0] in ("csizes", "cconv")
        mode = "ccases" if capi else MODE[self.prop.mode]
        lines, self.fresh = self.fresh, []
        try:
            res = self.runner.cases(mode, lines, capi)
        except (OSError, subprocess.SubprocessError):
            return None
        self.last = time.time()
        return observed(self.pid, self.prop, bads, res, mode, capi)


def investigate(pid, prop, bads, unsupported, runner, rnd, seed):
    """-> (violation or None, list of bounded stand-ins)"""
    def hit(res, mode, capi=False):
        return observed(pid, prop, bads, res, mode, capi)

    for j, b, _ in bads[:8]:
        log(f"[{pid}] open: {b['status']} {b['kind']} @ {label(j) if j[0] in ('conv', 'pairs', 'sizes', 'csizes', 'cconv') else j} {b['where'][:120]} {b['detail'][:160]}")
    for u in unsupported[:8]:
        log(f"[{pid}] not decided: {u[0]}: {u[1][:200]}")
    mode = MODE[prop.mode]
    stand = []
    # 1. counterexamples of converter and dispatch obligations
    lines = []
    for j, b, c in bads:
        for x in c:
            if x not in lines:
                lines.append(x)
    if lines:
        v = hit(runner.cases(mode, lines[:600]), mode)
        if v:
            return v, stand
    # 2. size and C entry point counterexamples
    if any(j[0] == "sizes" for j, _, _ in bads) or any(len(u) > 3 and u[3][0] == "sizes" for u in unsupported):
        ls = []
        for j, b, _ in bads:
            if j[0] == "sizes" and b["model"]:
                ls += size_lines(dict(b["model"], pf=j[1][0], has=j[1][1]), rnd, 0)
        ls += size_lines(None, rnd, 200000)
        v = hit([(c, e, size_tags(t)) for c, e, t in runner.cases("sizes", ls)], "sizes")
        if v:
            return v, stand
        stand.append("get_buffers_size: 200000 random requests against the executable specification")
    if prop.capi:
        ls = [c_line(j[0], j[1], b["model"]) for j, b, _ in bads if j[0] in ("csizes", "cconv") and b["model"]]
        v = hit(runner.cases("ccases", ls, True), "ccases", True) if ls else None
        if not v:
            r, hang, out = runner.run(["csweep", 3000000, seed, 3, 60000], capi=True, timeout=120)
            v = hit(r, "ccases", True)
        if v:
            return v, stand
        stand.append("C entry points: up to 3000000 random requests in 60 s")
    # 3. bounded sweeps of the converters concerned
    targets = []
    for j, b, _ in bads:
        if j[0] == "conv":
            c = j[1][2]
            t = ((c[0], c[1], c[3], c[4]), TABLES[j[1][0]][0])
            if t not in targets:
                targets.append(t)
    for u in unsupported:
        if u[2] is not None:
            st = u[3][1][0] if len(u) > 3 else None
            for n in [TABLES[st][0]] if st is not None else ["x86", "sse2", "avx2"]:
                t = (u[2], n)
                if t not in targets:
                    targets.append(t)
    if prop.state:
        ps = [p for p in K.pairs() if K.valid_pair(*p) and K.supported(*p)]
        targets = [(p, n) for p in (ps if len(bads) > 40 else rnd.sample(ps, 24)) for n in ("x86", "sse2", "avx2")]
    if any(u[2] is None for u in unsupported) and prop.conv:
        wanted = [p for p in K.pairs() if K.valid_pair(*p) and K.supported(*p) and prop.conv(p)]
        targets += [(p, n) for p in wanted for n in ("x86", "sse2", "avx2") if (p, n) not in targets]
    if prop.pairs and any(j[0] in ("pairs",) for j, _, _ in bads) or any(len(u) > 3 and u[3][0] == "pairs" for u in unsupported):
        allp = [(p, "x86,sse2,avx2") for p in K.pairs()]
        targets += rnd.sample(allp, 400)
    if targets and prop.tags:
        from concurrent.futures import ThreadPoolExecutor

        budget = min(240, max(20, left() - 60))
        per = max(0.25, min(12, budget * 8 / len(targets)))
        runner.get()

        def sweep(t):
            p, n = t
            if left() < 20:
                return t, [], False
            r, hang, out = runner.run([prop.mode, n, *p, prop.kind, 10**9, seed, 2, int(per * 1000)], timeout=per + 30)
            if hang:
                r.append(("hang in sweep " + str(t), None, [("hang", "no answer")]))
            return t, r, out

        with ThreadPoolExecutor(8) as tp:
            for t, r, out in tp.map(sweep, targets):
                v = hit(r, mode)
                if v:
                    return v, stand
                d = re.search(r"DONE (.*)", out or "")
                stand.append(f"bounded: {t[1]} {t[0]}: {d.group(1) if d else 'no summary'} in {per:.1f} s (images up to 140 x 40, strides row..row+70)")
    # 4. definite violations that cannot be replayed
    for j, b, c in bads:
        if b["status"] == "sat" and not b["over"] and j[0] in ("cpu", "init"):
            p = write_replay(pid, f"property {pid}\nfailed obligation: {b['kind']} @ {b['where']}\nverifier counterexample: {b['model']}\nno replay: it needs a CPU with these cpuid answers", bads)
            return (p, " no-failing-input-found"), stand
    for j, b, c in bads:
        if b["status"] == "sat" and not b["over"] and j[0] in ("pairs", "csizes", "cconv", "sizes") and b["class"] in ("control", "frame"):
            p = write_replay(pid, f"property {pid}\nfailed obligation: {b['kind']} @ {b['where']}\nverifier counterexample: {b['model']}", bads)
            return (p, " no-failing-input-found"), stand
    stand += [f"open obligation, no failing input in the bounded search: {b['kind']} @ {label(j) if j[0] == 'conv' else j[0]}" for j, b, _ in bads[:20]]
    return None, stand


def size_tags(tags):
    return [("panic" if t == "panic" or "panic" in m else "size", t + m) for t, m in tags]


def thorough(pid, prop, runner, rnd, seed, stand):
    """extra: the bounded search over every converter as well (never counted as proved)"""
    if prop.sizes and "size" in prop.tags:
        r = [(c, e, size_tags(t)) for c, e, t in runner.cases("sizes", size_lines(None, rnd, 400000))]
        for case, exp, tags in r:
            stand.append((write_replay(pid, f"failing input: {case} {tags}", []), ""))
            return
    if prop.capi:
        r, _, _ = runner.run(["csweep", 10**9, seed, 1, 200000], capi=True, timeout=300)
        if r:
            stand.append((write_replay(pid, f"failing input: {r[0]}", []), ""))
            return
        stand.append("C entry points: 200 s of random requests")
    if prop.conv and prop.tags:
        from concurrent.futures import ThreadPoolExecutor

        runner.get()
        wanted = [p for p in K.pairs() if K.valid_pair(*p) and K.supported(*p) and prop.conv(p)]
        per = max(1, (left() - 120) * 8 / len(wanted))

        def sweep(p):
            r, hang, out = runner.run([prop.mode, "x86,sse2,avx2", *p, prop.kind, 10**9, seed, 2, int(per * 1000)], timeout=per + 30)
            return p, r, out

        with ThreadPoolExecutor(8) as tp:
            for p, r, out in tp.map(sweep, wanted):
                for case, exp, tags in r:
                    if matches(prop, exp, tags):
                        stand.append((write_replay(pid, f"failing input: {case} {tags}", []), ""))
                        return
                d = re.search(r"DONE (.*)", out or "")
                stand.append(f"extra bounded search: {p}: {d.group(1) if d else ''}")


TRUSTED = [
    "rustc and LLVM's O1 pipeline preserve the meaning of the source (the obligations are generated from the optimised IR of /repo; inlining, SROA and GVN only, no unrolling or vectorisation)",
    "engine/*.py: IR parser, symbolic executors, obligation generator, normal forms (this framework)",
    "z3 4.x (python binding)",
    "semantics of the x86 SIMD intrinsics as written in engine/sym.py (cross-checked against hardware by the replay runner)",
    "std::sync::Once runs its closure at most once and publishes its writes; std formatting and allocation",
]
ASSUME = [
    "source and destination buffers do not overlap (guaranteed by &/&mut in Rust, a caller obligation in C)",
    "slices are at most isize::MAX bytes (guaranteed by Rust)",
    "x86-64 build; the aarch64 (NEON) code is not compiled here and not covered",
    "the wasm/test-only feature code is not covered",
]

if __name__ == "__main__":
    main()
