"""Parser for textual LLVM IR (the subset rustc emits, one instruction per line)."""
import re
import struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*"           # byte string
  | [%@!\#$]?"(?:[^"\\]|\\.)*"    # quoted names
  | [%@][-a-zA-Z$._0-9]+
  | ![-a-zA-Z$._0-9]*
  | \#[0-9]+
  | \.\.\.
  | -?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?
  | 0x[KLMHR]?[0-9A-Fa-f]+
  | f0x[0-9A-Fa-f]+
  | -?[0-9]+
  | [a-zA-Z_$.][-a-zA-Z$._0-9]*
  | [(){}\[\]<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ("k", "w", "n", "e", "packed", "_sz", "_al", "_offs")

    def __init__(self, k, w=0, n=0, e=None, packed=False):
        self.k, self.w, self.n, self.e, self.packed = k, w, n, e, packed
        self._sz = self._al = self._offs = None

    def __repr__(self):
        return {"i": "i%d" % self.w, "ptr": "ptr", "arr": "[%d x %r]" % (self.n, self.e), "vec": "<%d x %r>" % (self.n, self.e),
                "struct": "%r" % (self.e,)}.get(self.k, self.k)

    def align(self):
        if self._al is None:
            k = self.k
            if k == "i":
                b = max(1, (self.w + 7) // 8)
                a = 1
                while a < b and a < 16:
                    a *= 2
                self._al = a
            elif k in ("ptr", "double"):
                self._al = 8
            elif k == "float":
                self._al = 4
            elif k == "arr":
                self._al = self.e.align()
            elif k == "vec":
                s = self.bits() // 8
                a = 1
                while a < s:
                    a *= 2
                self._al = max(a, 1)
            elif k == "struct":
                self._al = 1 if self.packed else max([t.align() for t in self.e] or [1])
            else:
                raise Unsupported("align of " + k)
        return self._al

    def bits(self):
        k = self.k
        if k == "i":
            return self.w
        if k in ("ptr", "double"):
            return 64
        if k == "float":
            return 32
        if k == "vec":
            return self.n * self.e.bits()
        return self.size() * 8

    def size(self):
        """alloc size in bytes"""
        if self._sz is None:
            k = self.k
            if k in ("i", "ptr", "double", "float", "vec"):
                s = (self.bits() + 7) // 8
                a = self.align()
                self._sz = (s + a - 1) // a * a
            elif k == "arr":
                self._sz = self.n * self.e.size()
            elif k == "struct":
                o = 0
                offs = []
                for t in self.e:
                    if not self.packed:
                        a = t.align()
                        o = (o + a - 1) // a * a
                    offs.append(o)
                    o += t.size()
                if not self.packed:
                    a = self.align()
                    o = (o + a - 1) // a * a
                self._offs = offs
                self._sz = o
            elif k == "void":
                self._sz = 0
            else:
                raise Unsupported("size of " + k)
        return self._sz

    def offs(self):
        self.size()
        return self._offs


_int = {}


def I(w):
    t = _int.get(w)
    if t is None:
        t = _int[w] = Ty("i", w)
    return t


PTR = Ty("ptr")
VOID = Ty("void")
DOUBLE = Ty("double")
FLOAT = Ty("float")
LABEL = Ty("label")
META = Ty("metadata")


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"

    def __deepcopy__(self, m):
        return self


UNDEF = Undef()


class GlobalRef:
    """address of a global or function plus a constant byte offset"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "@%s+%d" % (self.name, self.off)


class Fn:
    __slots__ = ("name", "ret", "params", "ptys", "blocks", "order", "vararg", "ipdom", "live", "loops", "heads", "idx", "attrs")


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "text")

    def __init__(self, op, res=None, ty=None, a=(), x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
        self.text = None


class Block:
    __slots__ = ("name", "phis", "ins", "succ")


def unq(s):
    """%"foo" -> foo"""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


PARAM_ATTRS = {
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "inreg", "returned",
    "immarg", "nofree", "nest", "noext", "swiftself", "dead_on_unwind", "writable", "dead_on_return", "allocalign", "allocptr", "nofpclass",
}
PARAM_ATTRS_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures", "initializes", "elementtype", "nofpclass", "memory", "alignstack", "inalloca", "preallocated", "dead_on_return"}


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise Unsupported("expected %r at %r in %r" % (s, self.t[self.i:self.i + 6], " ".join(self.t[:60])))

    def ty(self):
        t = self.next()
        if t[0] == "i" and t[1:].isdigit():
            return I(int(t[1:]))
        if t == "ptr":
            if self.accept("addrspace"):
                self.expect("(")
                self.next()
                self.expect(")")
            return PTR
        if t == "void":
            return VOID
        if t == "double":
            return DOUBLE
        if t == "float":
            return FLOAT
        if t == "label":
            return LABEL
        if t == "metadata":
            return META
        if t == "[":
            n = int(self.next())
            self.expect("x")
            e = self.ty()
            self.expect("]")
            return Ty("arr", n=n, e=e)
        if t == "<":
            if self.accept("{"):
                es = self.tylist("}")
                self.expect(">")
                return Ty("struct", e=es, packed=True)
            n = int(self.next())
            self.expect("x")
            e = self.ty()
            self.expect(">")
            return Ty("vec", n=n, e=e)
        if t == "{":
            return Ty("struct", e=self.tylist("}"))
        if t[0] == "%":
            n = unq(t)
            if n not in self.m.types:
                raise Unsupported("type " + t)
            return self.m.types[n]
        raise Unsupported("type token %r in %r" % (t, " ".join(self.t[:40])))

    def tylist(self, close):
        es = []
        if self.accept(close):
            return es
        while True:
            es.append(self.ty())
            if self.accept(close):
                return es
            self.expect(",")

    def skip_attrs(self):
        while True:
            t = self.peek()
            if t is None:
                return
            if t in PARAM_ATTRS_PAREN:
                self.next()
                if self.accept("("):
                    d = 1
                    while d:
                        x = self.next()
                        if x == "(":
                            d += 1
                        elif x == ")":
                            d -= 1
                elif t == "align":
                    self.next()
                continue
            if t in PARAM_ATTRS:
                self.next()
                continue
            if t.startswith('"') and not t.startswith('%'):
                self.next()
                if self.accept("="):
                    self.next()
                continue
            if t[0] == "#":
                self.next()
                continue
            return

    def const(self, ty):
        """constant or register operand of the given type"""
        t = self.next()
        if t[0] == "%":
            return unq(t)          # register: plain str
        if t[0] == "@":
            return GlobalRef(unq(t))
        k = ty.k
        if t == "undef" or t == "poison":
            return self.agg_undef(ty)
        if t == "zeroinitializer":
            return self.zero(ty)
        if t == "null":
            return 0
        if t == "true":
            return 1
        if t == "false":
            return 0
        if t == "none":
            return UNDEF
        if t == "splat":
            self.expect("(")
            et = self.ty()
            v = self.const(et)
            self.expect(")")
            return tuple([v] * ty.n)
        if k == "i":
            if t[0] in "-0123456789":
                if t.startswith("0x"):
                    return int(t, 16)
                return int(t) & ((1 << ty.w) - 1)
        if k in ("double", "float"):
            if t.startswith("f0x"):
                b = bytes.fromhex(t[3:].rjust(16 if k == "double" else 8, "0"))
                return struct.unpack(">d" if k == "double" else ">f", b)[0]
            if t.startswith("0x"):
                return struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
            return float(t)
        if t.startswith('c"'):
            return self.bytestr(t)
        if t in ("[", "<", "{"):
            packed = False
            close = {"[": "]", "<": ">", "{": "}"}[t]
            if t == "<" and self.peek() == "{":
                self.next()
                packed = True
                close = "}"
            vals = []
            if not self.accept(close):
                while True:
                    et = self.ty()
                    vals.append(self.const(et))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return tuple(vals)
        if t == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                self.next()
                if self.peek() == "(" and self.t[self.i - 1] == "inrange":
                    while self.next() != ")":
                        pass
            self.expect("(")
            et = self.ty()
            self.expect(",")
            self.ty()
            base = self.const(PTR)
            idx = []
            while self.accept(","):
                it = self.ty()
                idx.append((it, self.const(it)))
            self.expect(")")
            off = 0
            cur = et
            for n, (it, v) in enumerate(idx):
                if not isinstance(v, int):
                    raise Unsupported("const gep")
                sv = v - (1 << it.w) if v >> (it.w - 1) else v
                if n == 0:
                    off += sv * cur.size()
                elif cur.k == "struct":
                    off += cur.offs()[sv]
                    cur = cur.e[sv]
                else:
                    off += sv * cur.e.size()
                    cur = cur.e
            if isinstance(base, GlobalRef):
                return GlobalRef(base.name, base.off + off)
            return base + off
        if t in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "ptrtoaddr"):
            self.expect("(")
            st = self.ty()
            v = self.const(st)
            self.expect("to")
            self.ty()
            self.expect(")")
            return v
        if t in ("add", "sub", "xor"):
            while self.peek() in ("nuw", "nsw"):
                self.next()
            self.expect("(")
            st = self.ty()
            v = self.const(st)
            self.expect(",")
            self.ty()
            v2 = self.const(st)
            self.expect(")")
            if isinstance(v, int) and isinstance(v2, int):
                m = (1 << st.w) - 1
                return ((v + v2) if t == "add" else (v - v2) if t == "sub" else (v ^ v2)) & m
            raise Unsupported("const expr")
        raise Unsupported("constant %r of %r in %r" % (t, ty, " ".join(self.t[:50])))

    def agg_undef(self, ty):
        if ty.k in ("struct",):
            return tuple(self.agg_undef(t) for t in ty.e)
        if ty.k in ("arr", "vec") and ty.n <= 4096:
            return tuple([self.agg_undef(ty.e)] * ty.n)
        return UNDEF

    def zero(self, ty):
        if ty.k == "struct":
            return tuple(self.zero(t) for t in ty.e)
        if ty.k in ("arr", "vec"):
            return tuple([self.zero(ty.e)] * ty.n)
        if ty.k in ("double", "float"):
            return 0.0
        return 0

    def bytestr(self, t):
        s = t[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == "\\":
                if s[i + 1] == "\\":
                    out.append(92)
                    i += 2
                else:
                    out.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                out += s[i].encode("latin1")
                i += 1
        return tuple(out)

    def tv(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.const(t)


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc", "addrspacecast", "ptrtoaddr"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile"}
CC = {"fastcc", "coldcc", "ccc", "cc", "tail", "musttail", "notail", "preserve_mostcc", "preserve_allcc"}


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> (ty, init or None, align)
        self.fns = {}
        self.decls = {}       # name -> attrs text
        self.attrs = {}
        self.aliases = {}

    @staticmethod
    def load(path):
        m = Module()
        lines = open(path, encoding="latin1").read().split("\n")
        m.parse(lines)
        return m

    def parse(self, lines):
        n = len(lines)
        # named types first
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                name, rest = ln.split(" = type ", 1)
                if rest.startswith("opaque"):
                    continue
                self.types[unq(name)] = P(self, TOK.findall(rest)).ty()
            elif ln.startswith("attributes #"):
                k = ln.split("=", 1)
                self.attrs[k[0].split()[1]] = k[1]
        i = 0
        while i < n:
            ln = lines[i]
            if ln.startswith("@"):
                self.parse_global(ln)
            elif ln.startswith("declare "):
                self.parse_decl(ln)
            elif ln.startswith("define "):
                j = i
                while lines[j] != "}":
                    j += 1
                self.parse_fn(lines[i:j])
                i = j
            i += 1

    def parse_decl(self, ln):
        t = TOK.findall(ln)
        for x in t:
            if x[0] == "@":
                tail = ln[ln.rindex(")"):]
                a = " ".join(self.attrs.get(y, y) for y in re.findall(r"#\d+", ln))
                self.decls[unq(x)] = a + tail
                return

    def parse_global(self, ln):
        p = P(self, TOK.findall(ln))
        name = unq(p.next())
        p.expect("=")
        ext = False
        while True:
            t = p.peek()
            if t in ("global", "constant"):
                p.next()
                break
            if t == "alias":
                p.next()
                p.ty()
                p.expect(",")
                p.ty()
                self.aliases[name] = p.const(PTR)
                return
            if t in ("external", "extern_weak"):
                ext = True
            if t == "thread_local" :
                pass
            p.next()
        const = p.t[p.i - 1] == "constant"
        try:
            ty = p.ty()
        except Unsupported:
            self.globals[name] = (None, None, 1, const)
            return
        init = None
        if not ext:
            try:
                init = p.const(ty)
            except Unsupported:
                init = None
        al = ty.align() if ty.k != "struct" or ty.e else 1
        for a, b in zip(p.t, p.t[1:]):
            if a == "align" and b.isdigit():
                al = int(b)
        self.globals[name] = (ty, init, al, const)

    def parse_fn(self, lines):
        head = lines[0]
        p = P(self, TOK.findall(head))
        f = Fn()
        p.expect("define")
        # linkage, attributes ... up to return type: find the @name token, then step back
        at = next(i for i, x in enumerate(p.t) if x[0] == "@")
        f.name = unq(p.t[at])
        p.i = at + 1
        p.expect("(")
        f.params, f.ptys = [], []
        f.vararg = False
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    f.vararg = True
                    p.expect(")")
                    break
                t = p.ty()
                p.skip_attrs()
                f.params.append(unq(p.next()))
                f.ptys.append(t)
                if p.accept(")"):
                    break
                p.expect(",")
        f.attrs = " ".join(self.attrs.get(x, "") for x in p.t[p.i:] if x[0] == "#")
        f.blocks = {}
        f.order = []
        f.ipdom = f.live = f.loops = None
        f.heads = {}
        cur = None
        i = 1
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ";":
                continue
            if not ln.startswith(" "):
                lab = ln.split(";")[0].strip()
                lab = lab[:lab.rindex(":")]
                if lab.startswith('"'):
                    lab = lab[1:-1]
                cur = self.new_block(f, lab)
                continue
            if cur is None:
                cur = self.new_block(f, "start" if True else "")
                cur.name = "%entry%"
                del f.blocks["start"]
                f.blocks["%entry%"] = cur
                f.order[-1] = "%entry%"
            if s.startswith("switch ") and s.endswith("["):
                while True:
                    s += " " + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith("]"):
                        break
            if s.startswith("#dbg"):
                continue
            ins = self.parse_ins(s)
            ins.text = s
            # landing pads may span lines; ignore their clauses
            while i < n and ins.op in ("landingpad", "invoke") and lines[i].strip().split(" ")[0] in ("cleanup", "catch", "filter", "to"):
                s2 = lines[i].strip()
                if s2.startswith("to "):
                    t = TOK.findall(s2)
                    ins.x = dict(ins.x)
                    ins.x["normal"] = unq(t[2])
                i += 1
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        if f.order and f.order[0] == "%entry%":
            pass
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = list(dict.fromkeys(t.x))
            elif t.op == "switch":
                b.succ = list(dict.fromkeys([t.x[0]] + [l for _, l in t.x[1]]))
            elif t.op == "invoke":
                b.succ = [t.x["normal"]]
            else:
                b.succ = []
        # unnamed entry blocks are referred to by phi as %0 etc.
        if "%entry%" in f.blocks:
            refs = set()
            for b in f.blocks.values():
                for ph in b.phis:
                    for _, l in ph.x:
                        refs.add(l)
            miss = [r for r in refs if r not in f.blocks]
            if miss:
                b = f.blocks.pop("%entry%")
                b.name = miss[0]
                f.blocks = {miss[0]: b, **f.blocks}
                f.order[0] = miss[0]
        self.fns[f.name] = f

    def new_block(self, f, lab):
        b = Block()
        b.name = lab
        b.phis = []
        b.ins = []
        b.succ = []
        f.blocks[lab] = b
        f.order.append(lab)
        return b

    def parse_ins(self, s):
        p = P(self, TOK.findall(s))
        res = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            res = unq(p.next())
            p.next()
        op = p.next()
        if op in CC and op != "cc":
            while p.peek() in CC:
                op = p.next()
            op = p.next()
        while p.peek() in FLAGS:
            p.next()
        if op in BIN:
            ty = p.ty()
            a = p.const(ty)
            p.expect(",")
            b = p.const(ty)
            return Instr(op, res, ty, (a, b))
        if op in ("icmp", "fcmp"):
            pred = p.next()
            while p.peek() in FLAGS:
                p.next()
            if pred == "samesign":
                pred = p.next()
            ty = p.ty()
            a = p.const(ty)
            p.expect(",")
            b = p.const(ty)
            return Instr(op, res, ty, (a, b), pred)
        if op in CAST:
            ty = p.ty()
            a = p.const(ty)
            p.expect("to")
            t2 = p.ty()
            return Instr(op, res, t2, (a,), ty)
        if op == "fneg":
            ty, a = p.tv()
            return Instr(op, res, ty, (a,))
        if op == "load":
            if p.accept("atomic"):
                pass
            ty = p.ty()
            p.expect(",")
            _, a = p.tv()
            al = 1
            for x, y in zip(p.t[p.i:], p.t[p.i + 1:]):
                if x == "align":
                    al = int(y)
            return Instr(op, res, ty, (a,), al)
        if op == "store":
            p.accept("atomic")
            ty, v = p.tv()
            p.expect(",")
            _, a = p.tv()
            al = 1
            for x, y in zip(p.t[p.i:], p.t[p.i + 1:]):
                if x == "align":
                    al = int(y)
            return Instr(op, res, ty, (v, a), al)
        if op == "alloca":
            ty = p.ty()
            cnt = 1
            while p.accept(","):
                if p.peek() == "align":
                    p.next()
                    p.next()
                elif p.peek() == "addrspace":
                    break
                else:
                    t, cnt = p.tv()
            return Instr(op, res, ty, (cnt,))
        if op == "getelementptr":
            ty = p.ty()
            p.expect(",")
            bt, base = p.tv()
            idx = []
            while p.accept(","):
                it = p.ty()
                idx.append((it, p.const(it)))
            return Instr(op, res, ty, (base,) + tuple(v for _, v in idx), (bt, [t for t, _ in idx]))
        if op == "select":
            ct, c = p.tv()
            p.expect(",")
            ty, a = p.tv()
            p.expect(",")
            _, b = p.tv()
            return Instr(op, res, ty, (c, a, b), ct)
        if op == "phi":
            ty = p.ty()
            inc = []
            while True:
                p.expect("[")
                v = p.const(ty)
                p.expect(",")
                l = unq(p.next())
                p.expect("]")
                inc.append((v, l))
                if not p.accept(","):
                    break
            return Instr(op, res, ty, (), inc)
        if op == "br":
            if p.accept("label"):
                return Instr("br", None, None, (), (unq(p.next()),))
            p.ty()
            c = p.const(I(1))
            p.expect(",")
            p.expect("label")
            a = unq(p.next())
            p.expect(",")
            p.expect("label")
            b = unq(p.next())
            return Instr("br", None, None, (c,), (a, b))
        if op == "switch":
            ty, v = p.tv()
            p.expect(",")
            p.expect("label")
            d = unq(p.next())
            p.expect("[")
            cases = []
            while not p.accept("]"):
                t = p.ty()
                c = p.const(t)
                p.expect(",")
                p.expect("label")
                cases.append((c, unq(p.next())))
            return Instr("switch", None, ty, (v,), (d, cases))
        if op == "ret":
            ty = p.ty()
            if ty.k == "void":
                return Instr("ret", None, ty, ())
            return Instr("ret", None, ty, (p.const(ty),))
        if op == "unreachable":
            return Instr("unreachable")
        if op in ("call", "invoke"):
            while p.peek() in CC or p.peek() in FLAGS:
                p.next()
            p.skip_attrs()
            ty = p.ty()
            if p.peek() == "(":      # function type given
                d = 0
                while True:
                    x = p.next()
                    if x == "(":
                        d += 1
                    elif x == ")":
                        d -= 1
                        if d == 0:
                            break
            callee_t = p.next()
            if callee_t[0] == "@":
                callee = GlobalRef(unq(callee_t))
            elif callee_t[0] == "%":
                callee = unq(callee_t)
            elif callee_t == "asm":
                callee = "asm"
                return Instr("call", res, ty, (), {"callee": "asm", "argt": []})
            else:
                raise Unsupported("callee " + callee_t)
            p.expect("(")
            args, argt = [], []
            if not p.accept(")"):
                while True:
                    t = p.ty()
                    if t.k == "metadata":
                        d = 0
                        while True:
                            x = p.peek()
                            if d == 0 and x in (",", ")"):
                                break
                            if x in "({[":
                                d += 1
                            if x in ")}]":
                                d -= 1
                            p.next()
                        args.append(UNDEF)
                    else:
                        p.skip_attrs()
                        args.append(p.const(t))
                    argt.append(t)
                    if p.accept(")"):
                        break
                    p.expect(",")
            x = {"callee": callee, "argt": argt}
            while p.peek() is not None:
                t = p.next()
                if t == "to":
                    p.expect("label")
                    x["normal"] = unq(p.next())
            return Instr(op, res, ty, tuple(args), x)
        if op == "extractvalue":
            ty, a = p.tv()
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, ty, (a,), idx)
        if op == "insertvalue":
            ty, a = p.tv()
            p.expect(",")
            vt, v = p.tv()
            idx = []
            while p.accept(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, ty, (a, v), idx)
        if op == "extractelement":
            ty, a = p.tv()
            p.expect(",")
            it, i = p.tv()
            return Instr(op, res, ty, (a, i))
        if op == "insertelement":
            ty, a = p.tv()
            p.expect(",")
            _, v = p.tv()
            p.expect(",")
            it, i = p.tv()
            return Instr(op, res, ty, (a, v, i))
        if op == "shufflevector":
            ty, a = p.tv()
            p.expect(",")
            t2, b = p.tv()
            p.expect(",")
            mt, m = p.tv()
            return Instr(op, res, ty, (a, b), m)
        if op == "freeze":
            ty, a = p.tv()
            return Instr(op, res, ty, (a,))
        if op in ("landingpad", "resume", "cleanupret", "fence"):
            return Instr(op, res, None, (), {})
        if op in ("atomicrmw",):
            p.accept("volatile")
            k = p.next()
            _, a = p.tv()
            p.expect(",")
            ty, v = p.tv()
            return Instr(op, res, ty, (a, v), k)
        if op == "cmpxchg":
            p.accept("weak")
            p.accept("volatile")
            _, a = p.tv()
            p.expect(",")
            ty, c = p.tv()
            p.expect(",")
            _, v = p.tv()
            return Instr(op, res, ty, (a, c, v))
        raise Unsupported("instruction " + s)


# ------------------------------------------------------------------ CFG analyses

EXIT = "%exit%"


def analyse(f):
    """ipdom (ignoring blocks that cannot reach a return), live-in registers, loop headers."""
    if f.ipdom is not None:
        return
    succ = {b: list(f.blocks[b].succ) for b in f.blocks}
    for b, blk in f.blocks.items():
        if blk.ins[-1].op == "ret":
            succ[b] = [EXIT]
    # blocks that reach EXIT
    pred = {b: [] for b in succ}
    pred[EXIT] = []
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    reach = {EXIT}
    st = [EXIT]
    while st:
        x = st.pop()
        for q in pred[x]:
            if q not in reach:
                reach.add(q)
                st.append(q)
    # post order on the reverse graph from EXIT
    order = []
    seen = {EXIT}
    stack = [(EXIT, iter(pred[EXIT]))]
    while stack:
        x, it = stack[-1]
        for q in it:
            if q in reach and q not in seen:
                seen.add(q)
                stack.append((q, iter(pred[q])))
                break
        else:
            order.append(x)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for s in succ[b]:
                if s in idom and s in num:
                    if new is None:
                        new = s
                    else:
                        a, c = new, s
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    f.ipdom = {b: idom.get(b) for b in f.blocks}
    # liveness
    use, dfn = {}, {}
    phi_use = {b: set() for b in f.blocks}      # registers read on edges leaving b
    for b, blk in f.blocks.items():
        u, d = set(), set()
        for ins in blk.ins:
            for o in operands(ins):
                if o not in d:
                    u.add(o)
            if ins.res:
                d.add(ins.res)
        use[b], dfn[b] = u, d
        for ph in blk.phis:
            for v, l in ph.x:
                if type(v) is str:
                    phi_use[l].add(v)
                elif type(v) is tuple:
                    for x in v:
                        if type(x) is str:
                            phi_use[l].add(x)
    live = {b: set() for b in f.blocks}         # live after phis
    changed = True
    blocks = list(f.blocks)[::-1]
    while changed:
        changed = False
        for b in blocks:
            out = set(phi_use[b])
            for s in f.blocks[b].succ:
                out |= live[s] - {ph.res for ph in f.blocks[s].phis}
            new = use[b] | (out - dfn[b])
            if new != live[b]:
                live[b] = new
                changed = True
    f.live = live
    # natural loops: back edges by DFS; loop membership
    f.loops = loops_of(f)


def operands(ins):
    for o in ins.a:
        if type(o) is str:
            yield o
        elif type(o) is tuple:
            for x in o:
                if type(x) is str:
                    yield x
    if ins.op in ("call", "invoke") and type(ins.x["callee"]) is str:
        yield ins.x["callee"]


def loops_of(f):
    """for each block the set of loops (SCC-based, nested) it belongs to; returns {block: frozenset(loop ids)}"""
    member = {b: set() for b in f.blocks}
    cnt = [0]

    def sccs(nodes):
        idx, low, onst, st, out = {}, {}, set(), [], []
        c = [0]
        for root in nodes:
            if root in idx:
                continue
            work = [(root, iter([s for s in f.blocks[root].succ if s in nodes]))]
            idx[root] = low[root] = c[0]
            c[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for s in it:
                    if s not in idx:
                        idx[s] = low[s] = c[0]
                        c[0] += 1
                        st.append(s)
                        onst.add(s)
                        work.append((s, iter([t for t in f.blocks[s].succ if t in nodes])))
                        adv = True
                        break
                    elif s in onst:
                        low[v] = min(low[v], idx[s])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        x = st.pop()
                        onst.discard(x)
                        comp.add(x)
                        if x == v:
                            break
                    if len(comp) > 1 or v in f.blocks[v].succ:
                        out.append(comp)
        return out

    def rec(nodes, entry_from):
        for comp in sccs(nodes):
            cnt[0] += 1
            k = cnt[0]
            for b in comp:
                member[b].add(k)
            # header(s): entered from outside comp
            heads = {s for b in f.blocks if b not in comp for s in f.blocks[b].succ if s in comp}
            if f.order[0] in comp:
                heads.add(f.order[0])
            f.heads[k] = heads
            inner = comp - heads
            if inner and len(inner) < len(comp):
                rec(inner, heads)

    rec(set(f.blocks), None)
    return {b: frozenset(s) for b, s in member.items()}
