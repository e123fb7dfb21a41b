"""Parser for the textual LLVM IR that rustc/opt emit (the subset this crate produces).

Functions are parsed lazily: only the ones the verifier reaches are turned into
instruction objects.  Anything not understood raises Unsupported, never a guess.
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(
    r'\s*(?:(c?"(?:[^"\\]|\\.)*")|([%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|(0x[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)'
    r'|([A-Za-z_][\w.]*)|(![\w.]*)|(#\d+)|(\.\.\.)|([<>\[\]{}(),=*:|]))'
)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("tokenize: " + s[i : i + 60])
        out.append(m.group(0).strip())
        i = m.end()
        r = s[i:].lstrip()
        if r.startswith(";"):
            break
    return out


# types: ('i',n) ('ptr',) ('arr',n,t) ('struct',(t,..),packed) ('vec',n,t) ('void',) ('fp',name) ('label',) ('metadata',)
ATTRS = {
    "noundef", "nonnull", "noalias", "nofree", "readonly", "writeonly", "readnone", "zeroext", "signext", "inreg",
    "nocapture", "returned", "immarg", "dead_on_return", "dead_on_unwind", "writable", "swiftself", "nest",
    "inbounds", "nuw", "nsw", "nusw", "exact", "disjoint", "nneg", "samesign", "fastcc", "coldcc", "ccc", "tail",
    "musttail", "notail", "volatile", "unnamed_addr", "local_unnamed_addr", "internal", "private", "dso_local",
    "external", "hidden", "protected", "constant", "global", "weak", "linkonce_odr", "weak_odr", "available_externally",
    "common", "noinline", "nounwind", "allocptr", "noext", "thread_local", "fast", "nnan", "ninf", "nsz",
    "preallocated", "allocalign", "swiftasync", "swifterror", "nobuiltin", "builtin", "cold", "linkonce", "default",
}
ATTRS_PAREN = {
    "captures", "range", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "initializes", "nofpclass",
    "memory", "elementtype", "byref", "inalloca", "align", "addrspace", "inrange", "allockind", "thread_local",
    "dead_on_return",
}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"}


class Toks:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise Unsupported("unexpected end: " + " ".join(self.t))
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported(f"expected {x} got {self.peek()} in {' '.join(self.t)[:200]}")

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p is None:
                return
            if p in ATTRS_PAREN:
                self.next()
                if p == "align" and self.peek() != "(":
                    self.next()
                elif self.peek() == "(":
                    self.skip_paren()
            elif p in ATTRS:
                self.next()
            elif p.startswith("#") and p[1:].isdigit():
                self.next()
            elif p.startswith('"'):
                self.next()
                if self.eat("="):
                    self.next()
            else:
                return

    def type(self):
        p = self.next()
        if p == "ptr":
            t = ("ptr",)
            if self.peek() == "addrspace":
                self.next()
                self.skip_paren()
        elif p == "void":
            t = ("void",)
        elif re.fullmatch(r"i\d+", p):
            t = ("i", int(p[1:]))
        elif p in ("float", "double", "half", "bfloat", "fp128", "x86_fp80"):
            t = ("fp", p)
        elif p == "label":
            t = ("label",)
        elif p == "metadata":
            t = ("metadata",)
        elif p == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif p == "{":
            ts = []
            while not self.eat("}"):
                ts.append(self.type())
                self.eat(",")
            t = ("struct", tuple(ts), False)
        elif p == "<":
            if self.peek() == "{":
                self.next()
                ts = []
                while not self.eat("}"):
                    ts.append(self.type())
                    self.eat(",")
                self.expect(">")
                t = ("struct", tuple(ts), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif p.startswith("%"):
            t = self.mod.named_type(p)
        else:
            raise Unsupported("type " + p)
        while self.peek() == "*":
            self.next()
            t = ("ptr",)
        if self.peek() == "(" and t[0] in ("void", "i", "ptr", "struct") and self._looks_fn_type():
            # function type (call of varargs): skip
            self.skip_paren()
        return t

    def _looks_fn_type(self):
        return False

    def value(self, ty):
        """operand of type ty -> value descriptor"""
        p = self.next()
        if p.startswith("%"):
            return ("local", p)
        if p.startswith("@"):
            return ("glob", p)
        if re.fullmatch(r"-?\d+", p):
            if ty[0] == "fp":
                return ("undef",)
            return ("int", int(p))
        if p == "true":
            return ("int", 1)
        if p == "false":
            return ("int", 0)
        if p == "null":
            return ("null",)
        if p in ("poison", "undef"):
            return ("undef",)
        if p == "zeroinitializer":
            return ("zero",)
        if p == "none":
            return ("undef",)
        if p == "splat":
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect(")")
            return ("splat", t, v)
        if p.startswith('c"'):
            return ("bytes", unescape(p[2:-1]))
        if p == "<" and self.peek() == "{":
            self.next()
            vs = []
            while not self.eat("}"):
                t = self.type()
                vs.append((t, self.value(t)))
                self.eat(",")
            self.expect(">")
            return ("agg", vs)
        if p in ("<", "[", "{"):
            close = {"<": ">", "[": "]", "{": "}"}[p]
            vs = []
            while not self.eat(close):
                t = self.type()
                vs.append((t, self.value(t)))
                self.eat(",")
            return ("agg", vs)
        if p == "getelementptr":
            self.skip_attrs()
            self.expect("(")
            st = self.type()
            self.expect(",")
            args = []
            while not self.eat(")"):
                self.skip_attrs()
                t = self.type()
                self.skip_attrs()
                args.append((t, self.value(t)))
                self.eat(",")
            return ("cgep", st, args)
        if p in CASTS:
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", p, t, v, t2)
        if p in BINOPS:
            self.skip_attrs()
            self.expect("(")
            t = self.type()
            a = self.value(t)
            self.expect(",")
            t2 = self.type()
            b = self.value(t2)
            self.expect(")")
            return ("cbin", p, t, a, b)
        if p == "asm":
            self.skip_attrs()
            while self.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                self.next()
            s = self.next()
            self.expect(",")
            c = self.next()
            return ("asm", s, c)
        if p == "dso_local_equivalent" or p == "no_cfi":
            return self.value(ty)
        raise Unsupported("value " + p)

    def tvalue(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "text")

    def __init__(self, op, dst, ty, a, text):
        self.op, self.dst, self.ty, self.a, self.text = op, dst, ty, a, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "phis", "ins", "succ")

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self._parsed = False

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        tk = Toks(tokenize(h), self.mod)
        # find '@name' then '('
        while tk.peek() != self.name:
            tk.next()
        # return type: parse backwards is awkward; reparse from start
        tk2 = Toks(tokenize(h), self.mod)
        tk2.expect("define")
        tk2.skip_attrs()
        self.ret = tk2.type()
        tk.next()
        tk.expect("(")
        self.params = []
        n = 0
        while not tk.eat(")"):
            if tk.eat("..."):
                continue
            t = tk.type()
            tk.skip_attrs()
            nm = None
            if tk.peek() and tk.peek().startswith("%"):
                nm = tk.next()
            else:
                nm = f"%{n}"
            self.params.append((t, nm))
            n += 1
            tk.eat(",")
        self.blocks = {}
        self.order = []
        cur = None
        i = 0
        lines = self.body
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(";") or s.startswith("#dbg"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):(\s|$)', ln)
            if m:
                cur = Block("%" + m.group(1))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%0") if not self.params else Block("%" + str(self._entry_label()))
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
            # multi-line: switch, invoke, landingpad
            if s.startswith("switch") and not s.rstrip().endswith("]"):
                while not lines[i - 1].strip().endswith("]") and "]" not in lines[i - 1]:
                    s += " " + lines[i].strip()
                    i += 1
            if " invoke " in " " + s and i < len(lines) and lines[i].strip().startswith("to label"):
                s += " " + lines[i].strip()
                i += 1
            if " landingpad " in " " + s:
                while i < len(lines) and lines[i].strip().split(" ")[0] in ("cleanup", "catch", "filter"):
                    s += " " + lines[i].strip()
                    i += 1
            ins = parse_instr(s, self.mod)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == "invoke":
                b.succ = [t.a["normal"]]
            else:
                b.succ = []
        self.entry = self.order[0]
        self._loops()
        return self

    def _entry_label(self):
        n = 0
        for _, nm in self.params:
            if nm[1:].isdigit():
                n = max(n, int(nm[1:]) + 1)
        return n

    def _loops(self):
        """natural loops: header -> set of blocks"""
        order = []
        seen = set()

        def dfs(s):
            st = [(s, iter(self.blocks[s].succ))]
            seen.add(s)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(self.blocks[x].succ)))
                        break
                else:
                    order.append(b)
                    st.pop()

        dfs(self.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.blocks[b].succ:
                if s in preds:
                    preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]

        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif s in idx and idx[s] <= idx[b]:
                    raise Unsupported("irreducible control flow in " + self.name)


def parse_instr(s, mod):
    s = re.sub(r", ![a-zA-Z.]+ ![0-9]+", "", s)
    dst = None
    tk = Toks(tokenize(s), mod)
    if tk.peek().startswith("%") and tk.peek(1) == "=":
        dst = tk.next()
        tk.next()
    op = tk.next()
    if op in ("tail", "musttail", "notail"):
        op = tk.next()
    if op in BINOPS:
        tk.skip_attrs()
        t = tk.type()
        a = tk.value(t)
        tk.expect(",")
        b = tk.value(t)
        return Instr(op, dst, t, (a, b), s)
    if op == "icmp":
        tk.skip_attrs()
        pred = tk.next()
        t = tk.type()
        a = tk.value(t)
        tk.expect(",")
        b = tk.value(t)
        return Instr("icmp", dst, t, (pred, a, b), s)
    if op in CASTS:
        tk.skip_attrs()
        t = tk.type()
        a = tk.value(t)
        tk.expect("to")
        t2 = tk.type()
        return Instr(op, dst, t2, (t, a), s)
    if op == "freeze":
        t = tk.type()
        return Instr("freeze", dst, t, (tk.value(t),), s)
    if op == "select":
        tk.skip_attrs()
        ct = tk.type()
        c = tk.value(ct)
        tk.expect(",")
        t = tk.type()
        a = tk.value(t)
        tk.expect(",")
        t2 = tk.type()
        b = tk.value(t2)
        return Instr("select", dst, t, (ct, c, a, b), s)
    if op == "phi":
        tk.skip_attrs()
        t = tk.type()
        inc = {}
        while True:
            tk.expect("[")
            v = tk.value(t)
            tk.expect(",")
            b = tk.next()
            tk.expect("]")
            inc[b] = v
            if not tk.eat(","):
                break
            if tk.peek() != "[":
                break
        return Instr("phi", dst, t, inc, s)
    if op == "br":
        if tk.peek() == "label":
            tk.next()
            return Instr("br", None, None, (tk.next(),), s)
        t = tk.type()
        c = tk.value(t)
        tk.expect(",")
        tk.expect("label")
        a = tk.next()
        tk.expect(",")
        tk.expect("label")
        b = tk.next()
        return Instr("br", None, None, (c, a, b), s)
    if op == "switch":
        t = tk.type()
        v = tk.value(t)
        tk.expect(",")
        tk.expect("label")
        d = tk.next()
        tk.expect("[")
        cases = []
        while not tk.eat("]"):
            ct = tk.type()
            cv = tk.value(ct)
            tk.expect(",")
            tk.expect("label")
            cases.append((cv[1], tk.next()))
        return Instr("switch", None, t, (v, d, cases), s)
    if op == "ret":
        t = tk.type()
        if t[0] == "void":
            return Instr("ret", None, t, (None,), s)
        return Instr("ret", None, t, (tk.value(t),), s)
    if op == "unreachable":
        return Instr("unreachable", None, None, (), s)
    if op == "alloca":
        tk.skip_attrs()
        t = tk.type()
        return Instr("alloca", dst, t, (), s)
    if op == "load":
        if tk.peek() == "atomic":
            tk.next()
        tk.skip_attrs()
        t = tk.type()
        tk.expect(",")
        pt = tk.type()
        return Instr("load", dst, t, (tk.value(pt),), s)
    if op == "store":
        if tk.peek() == "atomic":
            tk.next()
        tk.skip_attrs()
        t = tk.type()
        v = tk.value(t)
        tk.expect(",")
        pt = tk.type()
        return Instr("store", None, t, (v, tk.value(pt)), s)
    if op == "getelementptr":
        tk.skip_attrs()
        st = tk.type()
        args = []
        while tk.eat(","):
            if tk.peek() is None or tk.peek().startswith("!"):
                break
            args.append(tk.tvalue())
        return Instr("gep", dst, st, args, s)
    if op == "extractvalue":
        t, v = tk.tvalue()
        idx = []
        while tk.eat(","):
            idx.append(int(tk.next()))
        return Instr("extractvalue", dst, t, (v, idx), s)
    if op == "insertvalue":
        t, v = tk.tvalue()
        tk.expect(",")
        t2, v2 = tk.tvalue()
        idx = []
        while tk.eat(","):
            idx.append(int(tk.next()))
        return Instr("insertvalue", dst, t, (v, t2, v2, idx), s)
    if op == "extractelement":
        t, v = tk.tvalue()
        tk.expect(",")
        it, iv = tk.tvalue()
        return Instr("extractelement", dst, t, (v, it, iv), s)
    if op == "insertelement":
        t, v = tk.tvalue()
        tk.expect(",")
        et, ev = tk.tvalue()
        tk.expect(",")
        it, iv = tk.tvalue()
        return Instr("insertelement", dst, t, (v, et, ev, it, iv), s)
    if op == "shufflevector":
        t, a = tk.tvalue()
        tk.expect(",")
        t2, b = tk.tvalue()
        tk.expect(",")
        mt, m = tk.tvalue()
        return Instr("shufflevector", dst, t, (a, b, mt, m), s)
    if op in ("call", "invoke"):
        tk.skip_attrs()
        rt = tk.type()
        if tk.peek() == "(":  # explicit function type
            tk.skip_paren()
        tk.skip_attrs()
        callee = tk.value(("ptr",))
        tk.expect("(")
        args = []
        while not tk.eat(")"):
            t = tk.type()
            if t[0] == "metadata":
                d = 0
                while not (d == 0 and tk.peek() in (",", ")")):
                    x = tk.next()
                    if x in "([{":
                        d += 1
                    elif x in ")]}":
                        d -= 1
                tk.eat(",")
                args.append((t, ("undef",)))
                continue
            tk.skip_attrs()
            args.append((t, tk.value(t)))
            tk.eat(",")
        info = {"ret": rt, "callee": callee, "args": args}
        if op == "invoke":
            while tk.peek() != "to":
                tk.next()
            tk.next()
            tk.expect("label")
            info["normal"] = tk.next()
        return Instr(op, dst, rt, info, s)
    if op in ("landingpad", "resume", "cleanupret", "catchpad", "cleanuppad"):
        return Instr("eh", dst, None, (), s)
    if op == "fence":
        return None
    return Instr("?" + op, dst, None, (), s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.attrs = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define"):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(', ln)
                name = m.group(1)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                hdr = ln[: ln.rindex("{")]
                self.funcs[name] = Function(self, name, hdr, lines[i + 1 : j])
                i = j
            elif ln.startswith("declare"):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))\(', ln)
                if m:
                    self.decls.add(m.group(1))
            elif ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                self.types[nm.strip()] = rest
            elif ln.startswith("attributes #"):
                m = re.match(r"attributes #(\d+) = (.*)", ln)
                self.attrs[m.group(1)] = m.group(2)
            elif ln.startswith("@"):
                nm, rest = ln.split(" = ", 1)
                self.globals[nm.strip()] = rest
            i += 1
        self._gcache = {}

    def named_type(self, nm):
        t = self.types.get(nm)
        if t is None:
            raise Unsupported("named type " + nm)
        if isinstance(t, str):
            t = Toks(tokenize(t), self).type()
            self.types[nm] = t
        return t

    def global_is_const(self, nm):
        m = re.search(r"\b(global|constant|alias|ifunc)\b", re.sub(r'"[^"]*"', "", self.globals[nm]))
        return m is not None and m.group(1) != "global"

    def global_init(self, nm):
        """(type, value descriptor or None, constant?)"""
        if nm in self._gcache:
            return self._gcache[nm]
        rest = self.globals[nm]
        rest = re.sub(r", ![a-zA-Z.]+ ![0-9]+", "", rest)
        tk = Toks(tokenize(rest), self)
        const = False
        ext = False
        while tk.peek() not in ("global", "constant"):
            if tk.peek() in ("external", "available_externally"):
                ext = True
            if tk.peek() in ("alias", "ifunc"):
                raise Unsupported("alias " + nm)
            x = tk.next()
            if tk.peek() == "(":
                tk.skip_paren()
        const = tk.next() == "constant"
        t = tk.type()
        v = None if ext else tk.value(t)
        self._gcache[nm] = (t, v, const)
        return self._gcache[nm]


def align_up(x, a):
    return (x + a - 1) // a * a


def sizeof(t):
    k = t[0]
    if k == "i":
        return max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length()) if t[1] > 8 else 1
    if k == "ptr":
        return 8
    if k == "arr":
        return t[1] * sizeof(t[2])
    if k == "vec":
        bits = t[1] * (t[2][1] if t[2][0] == "i" else 8 * sizeof(t[2]))
        return (bits + 7) // 8
    if k == "struct":
        off = 0
        al = 1
        for e in t[1]:
            a = 1 if t[2] else alignof(e)
            al = max(al, a)
            off = align_up(off, a) + sizeof(e)
        return align_up(off, al)
    if k == "fp":
        return {"float": 4, "double": 8, "half": 2}.get(t[1], 16)
    raise Unsupported("sizeof " + str(t))


def alignof(t):
    k = t[0]
    if k == "i":
        return min(16, sizeof(t))
    if k == "ptr":
        return 8
    if k == "arr":
        return alignof(t[2])
    if k == "vec":
        return sizeof(t)
    if k == "struct":
        return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    if k == "fp":
        return sizeof(t)
    return 1


def field_offset(t, i):
    off = 0
    for j, e in enumerate(t[1]):
        a = 1 if t[2] else alignof(e)
        off = align_up(off, a)
        if j == i:
            return off
        off += sizeof(e)
    raise Unsupported("field index")
