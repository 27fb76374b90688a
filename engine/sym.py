"""Symbolic executor for LLVM IR."""
import re
import time
import math
import struct
import expr as X
from expr import E, full
from ll import UNDEF, GlobalRef, Unsupported, analyse, EXIT, I, PTR
from solver import Solver


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%d+%r" % (self.obj, self.off)

    def __eq__(self, o):
        return type(o) is Ptr and self.obj == o.obj and (self.off is o.off or (type(self.off) is int and self.off == o.off))

    def __hash__(self):
        return hash((self.obj, self.off if type(self.off) is int else self.off.id))


PREC = {"double": 53, "float": 24}


def rnd(v, p):
    """integer v rounded to p significant bits, ties to even"""
    d = v.bit_length() - p
    if d <= 0:
        return v
    q, r = v >> d, v & (1 << d) - 1
    return q + (r > 1 << d - 1 or (r == 1 << d - 1 and q & 1)) << d


def fround(v, k):
    """a Python float as a value of the type"""
    if k == "float" and math.isfinite(v):
        try:
            return struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return v


class FX:
    """exact non-negative rational num / 2^k, num a 64-bit value below 2^63 with as many significant bits as its type has"""
    __slots__ = ("num", "k")

    def __init__(self, num, k):
        self.num, self.k = num, k


class NeedFork(Exception):
    def __init__(self, conds):
        self.conds = conds


class Inconclusive(Exception):
    pass


class PathEnd(Exception):
    pass


class Stop(Exception):
    """raised to abandon the whole run after a violation"""


class Obj:
    __slots__ = ("id", "size", "cells", "zero", "arr", "alive", "kind", "tok", "name", "align")

    def copy(self, tok):
        o = Obj()
        o.id, o.size, o.zero, o.arr, o.alive, o.kind, o.name, o.align = self.id, self.size, self.zero, self.arr, self.alive, self.kind, self.name, self.align
        o.cells = dict(self.cells)
        o.tok = tok
        return o


class Frame:
    __slots__ = ("fn", "block", "ip", "regs", "res", "catch", "allocas", "tok", "caller_normal")

    def copy(self, tok):
        f = Frame()
        f.fn, f.block, f.ip, f.res, f.catch, f.caller_normal = self.fn, self.block, self.ip, self.res, self.catch, self.caller_normal
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.tok = tok
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "pcset", "tok", "steps", "merge", "threads")

    def fork(self, eng):
        s = State()
        s.frames = list(self.frames)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.steps = self.steps
        s.merge = self.merge
        s.threads = self.threads
        s.tok = eng.newtok()
        self.tok = eng.newtok()
        return s

    def assume(self, c):
        if isinstance(c, int):
            if not c:
                raise PathEnd
            return
        if c.op == "and" and c.w == 1:
            self.assume(c.a[0])
            self.assume(c.a[1])
            return
        if c.id not in self.pcset:
            self.pc.append(c)
            self.pcset.add(c.id)

    def top(self):
        f = self.frames[-1]
        if f.tok != self.tok:
            f = f.copy(self.tok)
            self.frames[-1] = f
        return f


def same(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is int or ta is float or ta is Ptr or ta is str:
        return a == b
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def known(st, c):
    """is c one of the path's conditions?"""
    if isinstance(c, int):
        return bool(c)
    return c.id in st.pcset or c.op == "and" and known(st, c.a[0]) and known(st, c.a[1])


def cleared(v):
    """(word, number) if v is a word without that number of its lowest ones"""
    if v.op == "zext":
        v = v.a[0]
    return v.a if v.op == "clr" else None


class Unmergeable(Exception):
    pass


class Violation:
    def __init__(self, kind, ident, env, where, detail=""):
        self.kind, self.ident, self.env, self.where, self.detail = kind, ident, env, where, detail

    def __repr__(self):
        return "%s %s at %s %s" % (self.kind, self.ident, self.where, self.detail)


BASE_SHIFT = 44


class Engine:
    def __init__(self, mod, params=None, solver=None, max_path_steps=4000000, deadline=None, choose_filter=None, log=None, concrete=None):
        self.m = mod
        self.sol = solver or Solver()
        self.params = params or {}
        self.tokc = 0
        self.objc = 0
        self.names = {}
        self.violations = []
        self.asserts = {}       # id -> [proved, trivially true]
        self.reach = {}         # id -> bool
        self.witnesses = {}     # id -> model reaching it
        self.fns = {}           # executed function -> set(blocks)
        self.paths = 0
        self.forks = 0
        self.merges = 0
        self.steps = 0
        self.panics = 0
        self.memchecks = 0
        self.max_path_steps = max_path_steps
        self.deadline = deadline
        self.choose_filter = choose_filter
        self.gobj = {}
        self.fresh = 0
        self.freed = 0
        self.stop_first = True
        self.log = log
        self.concrete = concrete     # dict name -> int : run concretely
        self.bi = self.builtins()
        self.fcache = {}

    def newtok(self):
        self.tokc += 1
        return self.tokc

    # ---------------------------------------------------------------- memory
    def newobj(self, st, size, zero=False, kind="heap", name="", arr=None, align=16):
        self.objc += 1
        o = Obj()
        o.id = self.objc
        o.size = size
        o.cells = {}
        o.zero = zero
        o.arr = arr
        o.alive = True
        o.kind = kind
        o.tok = st.tok
        o.name = name
        o.align = align
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.tok != st.tok:
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o

    def addr(self, p):
        return X.add((p.obj << BASE_SHIFT) & full(64), p.off, 64)

    def toint(self, v):
        if type(v) is Ptr:
            return self.addr(v)
        return v

    def toptr(self, st, v):
        """64-bit value to pointer"""
        t = type(v)
        if t is Ptr or v is UNDEF:
            return v
        if t is int:
            if v >> BASE_SHIFT:
                oid = v >> BASE_SHIFT
                if oid in st.mem:
                    return Ptr(oid, v & full(BASE_SHIFT))
            return v
        # E: base + something
        terms, c = X.lin(v, 64)
        oid = c >> BASE_SHIFT
        if oid and oid in st.mem:
            return Ptr(oid, X.sub(v, oid << BASE_SHIFT, 64))
        if v.op == "ite":
            k = self.known(st, v.a[0])
            if k is None:
                raise NeedFork([v.a[0], X.bnot(v.a[0])])
            return self.toptr(st, v.a[1] if k else v.a[2])
        return v

    def known(self, st, c):
        """truth value of c if this path has already assumed it"""
        if isinstance(c, int):
            return c
        if c.id in st.pcset:
            return 1
        n = X.bnot(c)
        if isinstance(n, int) or n.id in st.pcset:
            return 0
        return None

    def deref(self, st, p, n, what):
        """validate access of n bytes; returns (obj, off)"""
        t = type(p)
        if t is not Ptr:
            if p is UNDEF:
                self.violate(st, "ub", "%s through uninitialised pointer" % what, 1)
                raise PathEnd
            if t is E:
                p2 = self.toptr(st, p)
                if type(p2) is Ptr:
                    return self.deref(st, p2, n, what)
            if n == 0:
                return None, 0
            self.violate(st, "ub", "%s through invalid pointer %r" % (what, p), 1)
            raise PathEnd
        o = st.mem.get(p.obj)
        off = p.off
        if o is None or not o.alive:
            self.violate(st, "ub", "%s of freed memory" % what, 1)
            raise PathEnd
        size = o.size
        if type(off) is int and type(size) is int:
            if off + n > size:
                self.violate(st, "ub", "%s out of bounds (%d bytes at offset %d of %d-byte %s object)" % (what, n, off if off < 1 << 63 else off - (1 << 64), size, o.kind), 1)
                raise PathEnd
            return o, off
        # symbolic
        self.memchecks += 1
        if type(size) is int:
            if size < n:
                self.violate(st, "ub", "%s out of bounds" % what, 1)
                raise PathEnd
            ok = X.ule(off, size - n, 64)
        else:
            ok = X.and_(X.ule(n, size, 64), X.ule(off, X.sub(size, n, 64), 64), 1)
        self.require(st, ok, "ub", "%s out of bounds (%d bytes, symbolic offset, %s object)" % (what, n, o.kind))
        return o, off

    def require(self, st, ok, kind, ident):
        if isinstance(ok, int):
            if ok:
                return
            self.violate(st, kind, ident, 1)
            raise PathEnd
        if ok.id in st.pcset:
            return
        r, env = self.sol.must(st.pc, ok)
        if r == "yes":
            st.assume(ok)
            return
        if r == "unknown":
            raise Inconclusive("solver gave up on %s %s" % (kind, ident))
        self.violate(st, kind, ident, X.bnot(ok), env)
        if not self.sol.feasible(st.pc, ok):
            raise PathEnd
        st.assume(ok)

    def violate(self, st, kind, ident, cond=None, env=None):
        if env is None:
            r, env = self.sol.check(list(st.pc), exact=True, model=True)
            if r == "unsat":
                raise PathEnd          # infeasible path
            if r == "unknown":
                raise Inconclusive("solver gave up on feasibility of %s %s" % (kind, ident))
        env = self.prefer_small(st, cond, env)
        f = st.frames[-1] if st.frames else None
        where = "%s" % (" < ".join(demangle(fr.fn.name) for fr in reversed(st.frames))) if f else "?"
        v = Violation(kind, ident, env, where)
        self.violations.append(v)
        if self.stop_first:
            raise Stop

    def prefer_small(self, st, cond, env):
        """prefer a counterexample whose sizes can be allocated natively"""
        sizes = [n for n in self.names if n.startswith("n!")]
        cs = list(st.pc) + ([cond] if isinstance(cond, E) else [])
        for k in (8, 12, 16, 20, 24, 28, 32):
            if all(env.get(n, 0) < 1 << k for n in sizes):
                break
            r, e = self.sol.check(cs + [X.ult(X.var(n, 64), 1 << k, 64) for n in sizes], exact=True, model=True)
            if r == "sat":
                return e
        return env

    def cellval(self, o, off):
        """find cell covering byte off: (cell_off, size, val) or None"""
        c = o.cells
        for d in range(0, 32):
            k = c.get(off - d)
            if k is not None:
                if k[0] > d:
                    return off - d, k[0], k[1]
                return None
        return None

    def byte(self, o, off):
        r = self.cellval(o, off)
        if r is None:
            return 0 if o.zero else UNDEF
        co, sz, v = r
        if v is UNDEF:
            return UNDEF
        if type(v) is Ptr:
            v = self.addr(v)
        if type(v) is float or type(v) is FX:
            v = fbits(v)
        return X.extract(v, 8 * (off - co), 8)

    def load_raw(self, o, off, n):
        """n-byte value at concrete offset"""
        c = o.cells.get(off)
        if c is not None:
            if c[0] == n:
                return c[1]
        if o.arr is not None:
            return self.arr_load(o, off, n)
        if c is not None and c[0] > n:
            v = c[1]
            if v is UNDEF:
                return UNDEF
            if type(v) is Ptr:
                v = self.addr(v)
            return X.extract(v, 0, 8 * n)
        r = None
        i = 0
        while i < n:
            cc = o.cells.get(off + i)
            if cc is not None and cc[0] <= n - i and type(cc[1]) in (int, E):
                b, w = cc[1], cc[0]
            else:
                b, w = self.byte(o, off + i), 1
            if b is UNDEF:
                return UNDEF
            r = b if r is None else X.concat(b, 8 * w, r, 8 * i)
            i += w
        return r

    def clear(self, o, off, n):
        """remove cells overlapping [off, off+n), keeping the outside parts"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            return
        r = self.cellval(o, off)
        if r is not None and r[0] < off:
            co, sz, v = r
            del cells[co]
            for i in range(sz):
                p = co + i
                if p < off or p >= off + n:
                    cells[p] = (1, UNDEF if v is UNDEF else X.extract(self.toint(v), 8 * i, 8))
        i = off
        while i < off + n:
            c = cells.get(i)
            if c is not None:
                sz, v = c
                del cells[i]
                for j in range(sz):
                    p = i + j
                    if p >= off + n:
                        cells[p] = (1, UNDEF if v is UNDEF else X.extract(self.toint(v), 8 * j, 8))
                i += sz
            else:
                i += 1

    def store_raw(self, o, off, n, v):
        if o.arr is not None:
            return self.arr_store(o, off, n, v)
        self.clear(o, off, n)
        o.cells[off] = (n, v)

    def arr_load(self, o, off, n):
        if n == 8 and X.nz_of(off) & 7 == 0:
            return X.select(o.arr, X.lshr(off, 3, 64))
        if n < 8:
            # within one word
            w = X.select(o.arr, X.lshr(off, 3, 64))
            sh = X.and_(off, 7, 64)
            if isinstance(sh, int):
                if sh + n <= 8:
                    return X.extract(w, 8 * sh, 8 * n)
            elif n == 1:
                return X.extract(X.lshr(w, X.shl(sh, 3, 64), 64), 0, 8)
        if n == 16 and X.nz_of(off) & 7 == 0:
            return X.concat(self.arr_load(o, X.add(off, 8, 64), 8), 64, self.arr_load(o, off, 8), 64)
        raise Unsupported("array load of %d bytes at %r" % (n, off))

    def arr_store(self, o, off, n, v):
        if v is UNDEF:
            self.fresh += 1
            v = X.var("undef!%d" % self.fresh, 8 * n)
        v = self.toint(v)
        if n == 8 and X.nz_of(off) & 7 == 0:
            o.arr = X.store(o.arr, X.lshr(off, 3, 64), v)
            return
        if n == 1 or n == 2 or n == 4:
            i = X.lshr(off, 3, 64)
            w = X.select(o.arr, i)
            sh = X.and_(off, 7, 64)
            if isinstance(sh, int) and sh + n <= 8:
                nw = X.concat(X.extract(w, 8 * (sh + n), 64 - 8 * (sh + n)), 64 - 8 * (sh + n), X.concat(v, 8 * n, X.extract(w, 0, 8 * sh), 8 * sh), 8 * (sh + n))
                o.arr = X.store(o.arr, i, nw)
                return
            if n == 1:
                s3 = X.shl(sh, 3, 64)
                m = X.shl(0xFF, s3, 64)
                o.arr = X.store(o.arr, i, X.or_(X.and_(w, X.not_(m, 64), 64), X.shl(X.zext(v, 8, 64), s3, 64), 64))
                return
        raise Unsupported("array store of %d bytes" % n)

    def cands(self, o, off, n):
        """concrete offsets a symbolic in-bounds offset may take in a fixed-size object"""
        step = n
        low = (X.nz_of(off) & -X.nz_of(off)) or 1
        b, c = X._split_const(off)
        if b is not None and c:
            lb = (X.nz_of(b) & -X.nz_of(b)) or 1
            low = lb
            base = c % lb
        else:
            base = 0
        step = low
        lo = max(X.lo_of(off), 0)
        hi = min(X.hi_of(off), o.size - n)
        first = lo + ((base - lo) % step)
        r = range(first, hi + 1, step)
        if len(r) > 20000:
            raise Inconclusive("too many candidate offsets (%d)" % len(r))
        return r

    def load(self, st, p, ty):
        k = ty.k
        if k == "i":
            n = (ty.w + 7) >> 3
        elif k in ("ptr", "double"):
            n = 8
        elif k == "float":
            n = 4
        elif k == "struct":
            return tuple(self.load(st, self.padd(p, o), t) for o, t in zip(ty.offs(), ty.e))
        elif k == "arr":
            s = ty.e.size()
            return tuple(self.load(st, self.padd(p, i * s), ty.e) for i in range(ty.n))
        elif k == "vec":
            w = ty.e.bits()
            if w % 8:
                v = self.load(st, p, I(ty.n * w))
                return tuple(X.extract(v, i * w, w) for i in range(ty.n))
            return tuple(self.load(st, self.padd(p, i * w // 8), ty.e) for i in range(ty.n))
        else:
            raise Unsupported("load " + k)
        o, off = self.deref(st, p, n, "read")
        if st.merge == 4 and type(off) is not int and o.arr is None:
            off = self.pin(st, off, self.cands(o, off, n))
        if type(off) is int or o.arr is not None:
            v = self.load_raw(o, off, n) if type(off) is int else self.arr_load(o, off, n)
        else:
            v = None
            vals = []
            for c in self.cands(o, off, n):
                x = self.load_raw(o, c, n)
                vals.append((c, x))
            if not vals:
                raise PathEnd
            kinds = {type(x) for _, x in vals}
            if kinds <= {int, E}:
                v = vals[-1][1]
                for c, x in reversed(vals[:-1]):
                    v = X.ite(X.eq(off, c, 64), x, v, 8 * n)
            else:
                v = self.load_raw(o, self.concretize(st, off, 64), n)
        return self.conv(st, v, ty)

    def conv(self, st, v, ty):
        """reinterpret a raw cell value as ty"""
        if v is UNDEF:
            return UNDEF
        k = ty.k
        t = type(v)
        if k == "i":
            if t is Ptr:
                return v if ty.w == 64 else X.extract(self.addr(v), 0, ty.w)
            if t is float or t is FX:
                return fbits(v)
            if ty.w & 7:
                return X.extract(v, 0, ty.w)
            return v
        if k == "ptr":
            return self.toptr(st, v)
        if k == "double":
            if t is int:
                import struct
                return struct.unpack("<d", struct.pack("<Q", v))[0]
            return v
        return v

    def padd(self, p, k):
        if type(p) is Ptr:
            return Ptr(p.obj, X.add(p.off, k & full(64), 64)) if k else p
        if p is UNDEF:
            return p
        return X.add(p, k & full(64), 64)

    def store(self, st, p, ty, v):
        k = ty.k
        if k == "i":
            n = (ty.w + 7) >> 3
            if ty.w & 7 and v is not UNDEF:
                v = X.zext(v, ty.w, 8 * n)
        elif k in ("ptr", "double"):
            n = 8
        elif k == "float":
            n = 4
        elif k == "struct":
            for o, t, x in zip(ty.offs(), ty.e, v if v is not UNDEF else [UNDEF] * len(ty.e)):
                self.store(st, self.padd(p, o), t, x)
            return
        elif k == "arr":
            s = ty.e.size()
            for i in range(ty.n):
                self.store(st, self.padd(p, i * s), ty.e, v[i] if v is not UNDEF else UNDEF)
            return
        elif k == "vec":
            w = ty.e.bits()
            if w % 8:
                raise Unsupported("store of odd vector")
            for i in range(ty.n):
                self.store(st, self.padd(p, i * w // 8), ty.e, v[i] if v is not UNDEF else UNDEF)
            return
        else:
            raise Unsupported("store " + k)
        o, off = self.deref(st, p, n, "write")
        if o.kind == "const":
            self.violate(st, "ub", "write to constant memory", 1)
            raise PathEnd
        o = self.wobj(st, o.id)
        if type(off) is int:
            self.store_raw(o, off, n, v)
        elif o.arr is not None:
            self.arr_store(o, off, n, v)
        else:
            if type(v) not in (int, E):
                self.store_raw(o, self.concretize(st, off, 64), n, v)
                return
            cs = self.cands(o, off, n)
            olds = [(c, self.load_raw(o, c, n)) for c in cs]
            if any(type(x) not in (int, E) for _, x in olds):
                self.store_raw(o, self.concretize(st, off, 64), n, v)
                return
            for c, old in olds:
                nv = X.ite(X.eq(off, c, 64), v, old, 8 * n)
                if nv is not old:
                    self.store_raw(o, c, n, nv)

    def pin(self, st, off, cands):
        """fork so that off is one of the candidates in each resulting state"""
        for c in st.pc:
            if c.op == "eq" and c.a[0] is off and isinstance(c.a[1], int):
                return c.a[1]
        ok = [c for c in cands if self.feasible(st, X.eq(off, c, 64))]
        if not ok:
            raise PathEnd
        if len(ok) == 1:
            return ok[0]
        raise NeedFork([X.eq(off, c, 64) for c in ok])

    def concretize(self, st, e, w):
        """fork so that e has one concrete value in each resulting state"""
        if isinstance(e, int):
            return e
        for c in st.pc:                      # already pinned on this path?
            if c.op == "eq" and c.a[0] is e and isinstance(c.a[1], int):
                return c.a[1]
        r, env = self.sol.check(list(st.pc), exact=True, model=True)
        if r == "unsat":
            raise PathEnd
        if r == "unknown":
            raise Inconclusive("concretize")
        v = X.evaluate(e, env)
        c = X.eq(e, v, w)
        if isinstance(c, int) or self.sol.must(st.pc, c)[0] == "yes":
            return v
        raise NeedFork([c, X.bnot(c)])

    def memcpy(self, st, d, s, n, move=False):
        if not isinstance(n, int):
            ln = n
            # whole-array copies
            if type(d) is Ptr and type(s) is Ptr:
                do, so = st.mem[d.obj], st.mem[s.obj]
                if (do.arr is not None and so.arr is not None and isinstance(d.off, int) and d.off == 0 and isinstance(s.off, int) and s.off == 0):
                    self.require(st, X.ule(ln, do.size, 64), "ub", "copy writes out of bounds")
                    self.require(st, X.ule(ln, so.size, 64), "ub", "copy reads out of bounds")
                    r, env = self.sol.must(st.pc, X.eq(ln, do.size, 64))
                    if r == "yes":
                        self.wobj(st, do.id).arr = so.arr
                        return
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        so, soff = self.deref(st, s, n, "copy read")
        do, doff = self.deref(st, d, n, "copy write")
        if type(soff) is not int:
            soff = self.concretize(st, soff, 64)
        if type(doff) is not int:
            doff = self.concretize(st, doff, 64)
        if do.kind == "const":
            self.violate(st, "ub", "write to constant memory", 1)
        if so.id == do.id and not move and soff < doff + n and doff < soff + n and soff != doff:
            self.violate(st, "ub", "overlapping copy_nonoverlapping", 1)
        pieces = []
        i = 0
        if so.arr is not None:
            while i < n:
                m = 8 if (soff + i) % 8 == 0 and n - i >= 8 else 1
                pieces.append((i, m, self.arr_load(so, soff + i, m)))
                i += m
        else:
            while i < n:
                c = so.cells.get(soff + i)
                if c is not None and c[0] <= n - i:
                    pieces.append((i, c[0], c[1]))
                    i += c[0]
                elif c is None and self.cellval(so, soff + i) is None:
                    if so.zero:
                        m = 8 if (soff + i) % 8 == 0 and n - i >= 8 and not any((soff + i + j) in so.cells for j in range(1, 8)) else 1
                        pieces.append((i, m, 0))
                        i += m
                    else:
                        pieces.append((i, 1, UNDEF))
                        i += 1
                else:
                    pieces.append((i, 1, self.byte(so, soff + i)))
                    i += 1
        do = self.wobj(st, do.id)
        if do.arr is not None:
            # combine bytes to words where possible
            buf = {}
            j = 0
            while j < len(pieces):
                i, m, v = pieces[j]
                self.arr_store(do, doff + i, m, v)
                j += 1
            return
        for i, m, v in pieces:
            if v is UNDEF and m == 1 and not do.zero:
                self.clear(do, doff + i, 1)
                do.cells.pop(doff + i, None)
            else:
                self.store_raw(do, doff + i, m, v)

    def memset(self, st, d, v, n):
        if not isinstance(n, int):
            if type(d) is Ptr and isinstance(d.off, int) and d.off == 0:
                o = st.mem[d.obj]
                if o.arr is not None and isinstance(v, int):
                    self.require(st, X.ule(n, o.size, 64), "ub", "fill writes out of bounds")
                    r, _ = self.sol.must(st.pc, X.eq(n, o.size, 64))
                    if r == "yes" and v == 0:
                        self.wobj(st, o.id).arr = X.azero()
                        return
            n = self.concretize(st, n, 64)
        if n == 0:
            return
        o, off = self.deref(st, d, n, "fill write")
        if type(off) is not int:
            off = self.concretize(st, off, 64)
        o = self.wobj(st, o.id)
        if v is UNDEF:
            for i in range(n):
                self.store_raw(o, off + i, 1, UNDEF)
            return
        i = 0
        w8 = None
        while i < n:
            if (off + i) % 8 == 0 and n - i >= 8:
                if w8 is None:
                    w8 = v
                    for b in range(1, 8):
                        w8 = X.concat(v, 8, w8, 8 * b)
                self.store_raw(o, off + i, 8, w8)
                i += 8
            else:
                self.store_raw(o, off + i, 1, v)
                i += 1

    # ---------------------------------------------------------------- globals
    def init_globals(self, st):
        for n, (ty, init, al, const) in self.m.globals.items():
            sz = ty.size() if ty is not None else 8
            o = self.newobj(st, sz, zero=False, kind="const" if const else "global", name=n)
            self.gobj[n] = o.id
        for n in list(self.m.fns) + list(self.m.decls):
            o = self.newobj(st, 0, kind="fn", name=n)
            self.gobj[n] = o.id
        for n, (ty, init, al, const) in self.m.globals.items():
            if init is not None:
                o = st.mem[self.gobj[n]]
                self.put_const(st, o, 0, ty, init)

    def put_const(self, st, o, off, ty, v):
        if v is UNDEF:
            return
        if ty.k == "struct":
            for a, t, x in zip(ty.offs(), ty.e, v):
                self.put_const(st, o, off + a, t, x)
        elif ty.k in ("arr", "vec"):
            s = ty.e.size()
            for i, x in enumerate(v):
                self.put_const(st, o, off + i * s, ty.e, x)
        else:
            if type(v) is GlobalRef:
                v = self.gref(v)
            n = ty.size()
            o.cells[off] = (n, v)

    def gref(self, g):
        n = g.name
        while n not in self.gobj and n in self.m.aliases:
            a = self.m.aliases[n]
            n = a.name
        if n not in self.gobj:
            raise Unsupported("global " + n)
        return Ptr(self.gobj[n], g.off & full(64))

    # ---------------------------------------------------------------- evaluation
    def val(self, f, o):
        t = type(o)
        if t is str:
            return f.regs[o]
        if t is GlobalRef:
            return self.gref(o)
        if t is tuple:
            return tuple(self.val(f, x) for x in o)
        return o

    def start(self, name, args=()):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc = []
        st.pcset = set()
        st.steps = 0
        st.merge = 2
        st.threads = None
        st.tok = self.newtok()
        self.init_globals(st)
        self.push(st, self.m.fns[name], list(args), None)
        return st

    def push(self, st, fn, args, res, catch=False, normal=None):
        fr = Frame()
        fr.fn = fn
        fr.block = fn.blocks[fn.order[0]]
        fr.ip = 0
        fr.regs = dict(zip(fn.params, args))
        fr.res = res
        fr.catch = catch
        fr.allocas = []
        fr.tok = st.tok
        fr.caller_normal = normal
        st.frames.append(fr)
        self.fns.setdefault(fn.name, set()).add(fr.block.name)
        if len(st.frames) > 400:
            raise Inconclusive("call depth")

    def goto(self, st, f, lab):
        src = f.block.name
        b = f.fn.blocks[lab]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, l in ph.x:
                    if l == src:
                        vals.append((ph.res, self.val(f, v)))
                        break
                else:
                    raise Unsupported("phi without edge")
            for r, v in vals:
                f.regs[r] = v
        f.block = b
        f.ip = 0
        self.fns[f.fn.name].add(lab)

    def run_all(self, st):
        try:
            self.run([st], None)
        except Stop:
            pass

    def at_stop(self, st, stop):
        if stop is None:
            return 0
        d, lab = stop
        n = len(st.frames)
        if n < d:
            return 2
        if n == d and lab is not EXIT:
            f = st.frames[-1]
            if f.ip == 0 and f.block.name in lab:
                return 1
        return 0

    def run(self, states, stop, started=False):
        work = list(states)
        arrived, escaped = [], []
        while work:
            st = work.pop()
            try:
                k = 0 if started else self.at_stop(st, stop)
                started = False
                if k == 1:
                    arrived.append(st)
                    continue
                if k == 2:
                    escaped.append(st)
                    continue
                r = self.exec(st, stop)
            except PathEnd:
                self.paths += 1
                continue
            if r[0] == "end":
                self.paths += 1
            elif r[0] == "arrived":
                arrived.append(st)
            elif r[0] == "escaped":
                escaped.append(st)
            elif r[0] == "fork":
                subs, join = r[1], r[2]
                if join is not None and len(subs) > 1 and st.merge:
                    arr, esc = self.run(subs, join)
                    arr = self.merge_all(arr, join)
                    if st.merge >= 3 and type(join[1]) is frozenset and stop != join:
                        arr = self.lockstep(arr, esc, join)
                    work.extend(arr)
                    for s in esc:
                        if stop is not None and len(s.frames) < stop[0]:
                            escaped.append(s)
                        else:
                            work.append(s)
                else:
                    work.extend(reversed(subs))
        return arrived, escaped

    def lockstep(self, sts, esc, join):
        """take several states through the iterations of a loop together, joining them after each"""
        out = []
        heads = {}
        while True:
            # states at the loop header go round again, the others have left the loop
            go = []
            for s in sts:
                f = s.frames[-1]
                k = heads.get(f.fn.name)
                if k is None:
                    k = heads[f.fn.name] = {h for hs in f.fn.heads.values() for h in hs if self.inner(f.fn, h, join[1])}
                (go if f.block.name in k else out).append(s)
            if len(go) < 2:
                return out + go
            arr = []
            for s in go:
                a, e = self.run([s], join, True)
                arr += a
                esc += e
            sts = self.merge_all(arr, join)

    def inner(self, fn, h, blocks):
        return any(self.iteration(fn, k) is blocks and h in fn.heads[k] for k in fn.heads)

    def split(self, st, conds):
        """states for each feasible condition (conditions exhaustive)"""
        live = []
        for c in conds:
            if isinstance(c, int):
                if c:
                    live.append(c)
            elif c.id in st.pcset:
                return [(c, st)]
            elif X.bnot(c).id in st.pcset:
                continue
            else:
                live.append(c)
        if len(live) > 1:
            ok = []
            for i, c in enumerate(live):
                if i == len(live) - 1 and not ok:
                    ok.append(c)
                elif self.feasible(st, c):
                    ok.append(c)
            live = ok
        out = []
        for i, c in enumerate(live):
            s = st if i == len(live) - 1 else st.fork(self)
            s.assume(c)
            out.append((c, s))
        if len(out) > 1:
            self.forks += len(out) - 1
        return out

    def feasible(self, st, c):
        if isinstance(c, int):
            return bool(c)
        # single fresh bit: both outcomes possible
        e = c.a[0] if c.op == "not" else c
        if e.op == "ext" and e.a[0].op == "var" or e.op == "var":
            vs = X.bits_of(e)
            for p in st.pc:
                b = X.bits_of(p)
                if b is None or not vs.isdisjoint(b):
                    break
            else:
                return True
        return self.sol.feasible(st.pc, c)

    def join_of(self, st, f, targets):
        """merge point for a branch in frame f, or None"""
        if st.merge == 0:
            return None
        fn = f.fn
        analyse(fn)
        b = f.block.name
        j = fn.ipdom.get(b)
        lp = fn.loops[b]
        if st.merge == 4 and not lp:
            return None               # join within loops only
        if lp:
            for t in targets:
                if fn.ipdom.get(t) is None and t != EXIT:
                    continue          # target never returns (panics)
                if not lp <= fn.loops[t]:
                    # loop exit: keep iterations apart, unless they only took one after another from a word
                    if st.merge == 4 and j is not None and j is not EXIT and not lp <= fn.loops[j] and any(type(v) is E and cleared(v) for v in f.regs.values()):
                        return (len(st.frames), (j,))
                    return None
            k = self.innermost(fn, lp)
            j = self.body_join(fn, k, b)
            if j is None:
                # the arms only meet in the next iteration or after the loop
                return (len(st.frames), self.iteration(fn, k))
        if j is None:
            return None
        return (len(st.frames), j if j is EXIT else (j,))

    def innermost(self, fn, lp):
        key = (fn.name, lp, "inner")
        r = self.fcache.get(key)
        if r is None:
            r = self.fcache[key] = min(lp, key=lambda k: (sum(k in s for s in fn.loops.values()), k))
        return r

    def body_join(self, fn, k, b):
        """first block of the body of loop k that every way from b to the end of the iteration takes"""
        key = (fn.name, k, "bodyjoin")
        r = self.fcache.get(key)
        if r is None:
            body = {x for x, s in fn.loops.items() if k in s}
            heads = fn.heads[k]
            succ = {}
            for x in body:
                o = set()
                for t in fn.blocks[x].succ:
                    if t in heads:
                        o.add(None)
                    elif t in body:
                        o.add(t)
                    elif fn.ipdom.get(t) is not None or t == EXIT:
                        o.add(None)
                succ[x] = o
            # blocks from which the iteration can end
            live = {x for x in body if None in succ[x]}
            grow = True
            while grow:
                grow = False
                for x in body - live:
                    if succ[x] & live:
                        live.add(x)
                        grow = True
            # post-dominator sets within one iteration (inner loops keep their cycles)
            pd = {x: set(live) | {None} for x in live}
            change = True
            while change:
                change = False
                for x in live:
                    n = None
                    for t in succ[x]:
                        if t is None:
                            v = {None}
                        elif t in live:
                            v = pd[t]
                        else:
                            continue
                        n = set(v) if n is None else n & v
                    n = (n or set()) | {x}
                    if n != pd[x]:
                        pd[x] = n
                        change = True
            r = {}
            for x in live:
                c = pd[x] - {x, None}
                # the nearest one is post-dominated by all the others
                r[x] = max(c, key=lambda y: len(pd[y])) if c else None
            self.fcache[key] = r
        return r.get(b)

    def iteration(self, fn, k):
        """blocks where an iteration of loop k ends: its headers and everything outside of it"""
        key = (fn.name, k, "iteration")
        r = self.fcache.get(key)
        if r is None:
            r = self.fcache[key] = frozenset(fn.heads[k]) | {b for b, s in fn.loops.items() if k not in s}
        return r

    def merge_all(self, sts, join):
        out = []
        for s in sts:
            for i, t in enumerate(out):
                m = self.merge(t, s, join)
                if m is not None:
                    out[i] = m
                    self.merges += 1
                    break
            else:
                out.append(s)
        return out

    def mval(self, c, a, b, w=None):
        """merge values: a if c else b"""
        if same(a, b):
            return a
        ta, tb = type(a), type(b)
        if ta in (int, E) and tb in (int, E):
            if w is None:
                w = a.w if ta is E else b.w if tb is E else None
                if w is None:
                    raise Unmergeable        # width resolved by caller
            return X.ite(c, a, b, w)
        if ta is Ptr and tb is Ptr and a.obj == b.obj:
            return Ptr(a.obj, X.ite(c, a.off, b.off, 64))
        if ta is tuple and tb is tuple and len(a) == len(b):
            return tuple(self.mval(c, x, y) for x, y in zip(a, b))
        raise Unmergeable

    def regw(self, fn, name):
        """width of an integer register"""
        k = (fn.name, name)
        w = self.fcache.get(k)
        if w is None:
            ws = {}
            for p, t in zip(fn.params, fn.ptys):
                if t.k == "i":
                    ws[p] = t.w
            for b in fn.blocks.values():
                for ins in b.phis + b.ins:
                    if ins.res:
                        if ins.op in ("icmp", "fcmp"):
                            ws[ins.res] = 1
                        elif ins.ty is not None and ins.ty.k == "i":
                            ws[ins.res] = ins.ty.w
            for p in set(fn.params) | {i.res for b in fn.blocks.values() for i in b.phis + b.ins if i.res}:
                self.fcache[(fn.name, p)] = ws.get(p, 0)
            w = self.fcache.get(k, 0)
        return w

    def counted(self, a, b, sel, u, v):
        """words u and v with so many of their lowest ones cleared, the number in both cases being that of one term"""
        p, q = cleared(u), cleared(v)
        if not p or not q or p[0] is not q[0]:
            return None
        e = sel.a[0] if sel.op == "not" else sel
        for t in [x for x in (p[1], q[1]) if type(x) is E] + [x.a[0] if x.op == "ext" else x for x in e.a if type(x) is E]:
            if t.w == X.RW and self.sol.must(a.pc, X.eq(t, p[1], X.RW))[0] == "yes" and self.sol.must(b.pc, X.eq(t, q[1], X.RW))[0] == "yes":
                return X.zext(X.clr(p[0], t, p[0].w), p[0].w, u.w) if p[0].w < u.w else X.clr(p[0], t, u.w)
        return None

    def merge(self, a, b, join):
        """merge two states standing at the same point; None if they should stay apart"""
        if len(a.frames) != len(b.frames) or a.merge != b.merge or not a.merge:
            return None
        n = len(a.frames)
        fa, fb = a.frames[-1], b.frames[-1]
        if fa.fn is not fb.fn or fa.block is not fb.block or fa.ip != fb.ip:
            return None
        # path conditions
        i = 0
        pa, pb = a.pc, b.pc
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        ca = cb = 1
        sb = {x.id for x in pb[i:]}
        sa = {x.id for x in pa[i:]}
        common = [x for x in pa[i:] if x.id in sb]
        for x in pa[i:]:
            if x.id not in sb:
                ca = X.and_(ca, x, 1)
        for x in pb[i:]:
            if x.id not in sa:
                cb = X.and_(cb, x, 1)
        sel = ca
        if isinstance(ca, int) and isinstance(cb, int):
            sel = 1
        elif isinstance(ca, int):
            sel = X.bnot(cb)      # a is unconstrained relative to b: need a real selector
            return None
        try:
            limit = 10 ** 9 if a.merge == 2 else 1
            diff = 0
            told = False
            if a.merge == 4:
                for x in pa[i:]:
                    if X.bnot(x).id in sb:
                        sel = x       # tells the two apart on its own
                        break
            newframes = []
            for k in range(n):
                x, y = a.frames[k], b.frames[k]
                if x is y:
                    newframes.append(x)
                    continue
                if x.fn is not y.fn or x.block is not y.block or x.ip != y.ip or x.res != y.res or x.catch != y.catch or x.allocas != y.allocas:
                    return None
                top = k == n - 1
                analyse(x.fn)
                if x.ip == 0:
                    live = x.fn.live[x.block.name] | {p.res for p in x.block.phis}
                else:
                    live = self.live_at(x.fn, x.block, x.ip)
                regs = {}
                for r in live:
                    if r in x.regs and r in y.regs:
                        u, v = x.regs[r], y.regs[r]
                        if same(u, v):
                            regs[r] = u
                        else:
                            w = self.regw(x.fn, r)
                            if limit == 1 and w:
                                # one arm's value may serve for both
                                if self.agree(ca, u, v, w):
                                    regs[r] = v
                                    continue
                                if self.agree(cb, u, v, w):
                                    regs[r] = u
                                    continue
                            diff += 1
                            if diff > limit:
                                return None
                            if a.merge == 4 and type(u) is E and type(v) is E:
                                c = self.counted(a, b, sel, u, v)
                                if c is not None:
                                    regs[r] = c
                                    told = True
                                    continue
                            if not w and type(u) is tuple:
                                regs[r] = self.mtuple(sel, x.fn, r, u, v)
                            else:
                                regs[r] = self.mval(sel, u, v, w or None)
                fr = x.copy(0)
                fr.regs = regs
                newframes.append(fr)
            # memory
            mem = {}
            for oid, x in a.mem.items():
                y = b.mem.get(oid)
                if y is None or x is y:
                    mem[oid] = x
                    continue
                if x.alive != y.alive or not same(x.size, y.size):
                    if not x.alive and not y.alive:
                        mem[oid] = x
                        continue
                    return None
                if not x.alive:
                    mem[oid] = x
                    continue
                if x.cells == y.cells and x.arr is y.arr:
                    mem[oid] = x
                    continue
                if a.merge != 2:
                    return None
                o = x.copy(0)
                if x.arr is not y.arr:
                    if x.arr is None or y.arr is None:
                        return None
                    o.arr = X.aite(sel, x.arr, y.arr)
                if x.cells != y.cells:
                    for off in set(x.cells) | set(y.cells):
                        p, q = x.cells.get(off), y.cells.get(off)
                        if p is not None and q is not None and p[0] == q[0]:
                            if not same(p[1], q[1]):
                                if p[1] is UNDEF or q[1] is UNDEF:
                                    o.cells[off] = (p[0], UNDEF)
                                else:
                                    o.cells[off] = (p[0], self.mval(sel, p[1], q[1], 8 * p[0]))
                        elif p is None and self.cellval(x, off) is None:
                            if x.zero:
                                o.cells[off] = (q[0], self.mval(sel, 0, q[1], 8 * q[0]) if q[1] is not UNDEF else UNDEF)
                            else:
                                o.cells[off] = (q[0], UNDEF)
                        elif q is None and self.cellval(y, off) is None:
                            if x.zero:
                                o.cells[off] = (p[0], self.mval(sel, p[1], 0, 8 * p[0]) if p[1] is not UNDEF else UNDEF)
                            else:
                                o.cells[off] = (p[0], UNDEF)
                        else:
                            return None
                mem[oid] = o
            for oid, y in b.mem.items():
                if oid not in a.mem:
                    mem[oid] = y
        except Unmergeable:
            return None
        s = State()
        s.frames = newframes
        s.mem = mem
        s.pc = pa[:i]
        s.pcset = {x.id for x in s.pc}
        for x in common:
            s.assume(x)
        c = X.or_(ca, cb, 1) if not (isinstance(ca, int) and ca) else 1
        if not told or isinstance(c, int) or self.sol.must(s.pc, c)[0] != "yes":
            s.assume(c)
        s.steps = max(a.steps, b.steps)
        s.merge = a.merge
        s.threads = a.threads
        s.tok = self.newtok()
        return s

    def agree(self, c, u, v, w):
        """do u and v have the same value whenever c holds?"""
        if type(u) not in (int, E) or type(v) not in (int, E) or isinstance(c, int):
            return False
        d = X.sub(u, v, w)
        if isinstance(d, int):
            return d == 0
        if len(d.a) > 8:
            return False
        return self.sol.check([c, X.bnot(X.eq(d, 0, w))], timeout=200)[0] == "unsat"

    def mtuple(self, c, fn, r, u, v):
        ty = None
        for b in fn.blocks.values():
            for ins in b.phis + b.ins:
                if ins.res == r:
                    ty = ins.ty if ins.op != "extractvalue" else None
        if ty is None:
            raise Unmergeable

        def rec(t, x, y):
            if same(x, y):
                return x
            if t.k == "struct":
                return tuple(rec(tt, p, q) for tt, p, q in zip(t.e, x, y))
            if t.k in ("arr", "vec"):
                return tuple(rec(t.e, p, q) for p, q in zip(x, y))
            if x is UNDEF or y is UNDEF:
                raise Unmergeable
            return self.mval(c, x, y, t.w if t.k == "i" else None)
        return rec(ty, u, v)

    def live_at(self, fn, block, ip):
        k = (fn.name, block.name, ip, "live")
        r = self.fcache.get(k)
        if r is None:
            from ll import operands
            out = set()
            for s in block.succ:
                out |= fn.live[s] - {ph.res for ph in fn.blocks[s].phis}
                for ph in fn.blocks[s].phis:
                    for v, l in ph.x:
                        if l == block.name:
                            if type(v) is str:
                                out.add(v)
                            elif type(v) is tuple:
                                out |= {x for x in v if type(x) is str}
            for ins in reversed(block.ins[ip:]):
                if ins.res:
                    out.discard(ins.res)
                out |= set(operands(ins))
            r = self.fcache[k] = out
        return r

    def exec(self, st, stop):
        """run st until it ends, forks, or reaches stop"""
        d = stop[0] if stop else -1
        lab = stop[1] if stop else None
        ops = self.OPS
        while True:
            f = st.frames[-1]
            if f.tok != st.tok:
                f = st.top()
            ins = f.block.ins[f.ip]
            self.steps += 1
            st.steps += 1
            if not self.steps & 0x3FFF:
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive("time limit")
            if st.steps > self.max_path_steps:
                self.violate(st, "hang", "no result after %d steps" % st.steps, 1)
                return ("end",)
            try:
                h = ops.get(ins.op)
                if h is None:
                    raise Unsupported("op " + ins.op)
                r = h(self, st, f, ins)
            except NeedFork as nf:
                subs = self.split(st, nf.conds)
                if len(subs) == 1:
                    st2 = subs[0][1]
                    if st2 is not st:
                        return ("fork", [st2], None)
                    continue
                if not subs:
                    raise PathEnd
                return ("fork", [s for _, s in subs], None)
            if r is None:
                f.ip += 1
            elif r == "jump":
                # control moved within or between frames
                n = len(st.frames)
                if n == 0:
                    return ("end",)
                if stop is not None:
                    if n < d:
                        if lab is EXIT and n == d - 1 and st.threads != "unwound":
                            return ("arrived",)
                        if st.threads == "unwound":
                            st.threads = None
                        return ("escaped",)
                    if n == d:
                        g = st.frames[-1]
                        if g.ip == 0 and lab is not EXIT and g.block.name in lab:
                            if st.threads == "unwound":
                                st.threads = None
                            return ("arrived",)
                if st.threads == "unwound":
                    st.threads = None
            elif type(r) is tuple:
                return r
            elif r == "end":
                return ("end",)

    # ---------------------------------------------------------------- instructions
    def i_bin(self, st, f, ins):
        a = self.val(f, ins.a[0])
        b = self.val(f, ins.a[1])
        ty = ins.ty
        if ty.k == "vec":
            r = tuple(self.bin1(st, ins.op, x, y, ty.e) for x, y in zip(self.lanes(a, ty), self.lanes(b, ty)))
        else:
            r = self.bin1(st, ins.op, a, b, ty)
        f.regs[ins.res] = r

    def lanes(self, v, ty):
        return v if v is not UNDEF else (UNDEF,) * ty.n

    def bin1(self, st, op, a, b, ty):
        if ty.k in ("double", "float"):
            return self.fbin(op, a, b, ty.k)
        w = ty.w
        if op in ("lshr", "shl") and st.merge == 4 and w == 64 and type(a) is E and type(b) is E and b.op == "ite":
            b = self.concretize(st, b, w)       # a path for each way to look at a word
        if a is UNDEF or b is UNDEF:
            if op in ("and", "mul") and (type(a) is int and a == 0 or type(b) is int and b == 0):
                return 0
            if w == 1 and op in ("and", "or"):
                # an undefined flag masked by a defined one
                k = b if a is UNDEF else a
                if type(k) is E:
                    t = self.known(st, k)
                    if t is None:
                        raise NeedFork([k, X.bnot(k)])
                    k = int(t)
                if k is not UNDEF and k == (op == "or"):
                    return k
            if op in ("udiv", "urem", "sdiv", "srem") and b is UNDEF:
                self.violate(st, "ub", "division by uninitialised value", 1)
            return UNDEF
        if type(a) is Ptr:
            if op == "sub" and type(b) is Ptr and a.obj == b.obj:
                return X.sub(a.off, b.off, w)
            if op == "and" and type(b) is int and b < 4096:
                return X.and_(a.off, b, w) if True else None
            if op == "add" and type(b) is not Ptr:
                return Ptr(a.obj, X.add(a.off, b, w))
            if op == "sub" and type(b) is int:
                return Ptr(a.obj, X.sub(a.off, b, w))
            a = self.addr(a)
        if type(b) is Ptr:
            if op == "add":
                return Ptr(b.obj, X.add(b.off, a, w))
            b = self.addr(b)
        if op == "add":
            return X.add(a, b, w)
        if op == "sub":
            return X.sub(a, b, w)
        if op == "and":
            return X.and_(a, b, w)
        if op == "or":
            return X.or_(a, b, w)
        if op == "xor":
            return X.xor(a, b, w)
        if op in ("shl", "lshr", "ashr"):
            if X.hi_of(b) >= w:
                # over-wide shifts are poison; a use would be undefined behaviour
                if X.lo_of(b) >= w:
                    return UNDEF
                if self.sol.feasible(st.pc, X.ule(w, b, w)):
                    if self.known(st, X.ule(w, b, w)):
                        return UNDEF
                    raise NeedFork([X.ult(b, w, w), X.ule(w, b, w)])
            return getattr(X, op)(a, b, w)
        if op == "mul":
            return X.mul(a, b, w)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if not isinstance(b, int):
                self.require(st, X.ne(b, 0, w), "ub", "division by zero")
            elif b == 0:
                self.violate(st, "ub", "division by zero", 1)
                raise PathEnd
            return getattr(X, op)(a, b, w)
        raise Unsupported(op)

    def fbin(self, op, a, b, ty="double"):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is float and type(b) is float:
            if op == "fadd":
                return fround(a + b, ty)
            if op == "fsub":
                return fround(a - b, ty)
            if op == "fmul":
                return fround(a * b, ty)
            if op == "fdiv":
                if b == 0:
                    return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                return fround(a / b, ty)
        if type(b) is FX and type(a) is float and op in ("fmul", "fadd"):
            a, b = b, a
        if type(a) is FX and type(b) is float and 0 < b < 1 << 62:
            m, e = math.frexp(b)
            if m == 0.5 and op in ("fmul", "fdiv"):
                k = e - 1                       # b = 2^k
                sh = a.k - k if op == "fmul" else a.k + k
                if sh >= 0:
                    return FX(a.num, sh)
                return FX(X.mul(a.num, 1 << -sh, 64), 0) if X.hi_of(a.num) << -sh < 1 << 63 else self.unsf(op)
            n, d = b.as_integer_ratio()
            kb = d.bit_length() - 1
            k = max(a.k, kb)
            if op == "fadd" and k < 62 and (X.hi_of(a.num) << k - a.k) + (n << k - kb) < 1 << 63:
                return FX(self.fprec(X.add(X.shl(a.num, k - a.k, 64), n << k - kb, 64), PREC[ty]), k)
            if op == "fmul" and kb == 0 and X.hi_of(a.num) * n < 1 << 63:
                return FX(self.fprec(X.mul(a.num, n, 64), PREC[ty]), a.k)
        if type(a) is FX and type(b) is FX and op == "fadd":
            k = max(a.k, b.k)
            if (X.hi_of(a.num) << k - a.k) + (X.hi_of(b.num) << k - b.k) < 1 << 63:
                return FX(self.fprec(X.add(X.shl(a.num, k - a.k, 64), X.shl(b.num, k - b.k, 64), 64), PREC[ty]), k)
        return self.unsf(op)

    def fprec(self, v, p):
        """64-bit v below 2^63 rounded to p significant bits, ties to even"""
        if type(v) is int:
            return rnd(v, p)
        top = X.hi_of(v).bit_length()
        r = v
        for n in range(p + 1, top + 1):
            d = n - p
            q = X.lshr(v, d, 64)
            rem = X.and_(v, (1 << d) - 1, 64)
            half = 1 << d - 1
            up = X.or_(X.ult(half, rem, 64), X.and_(X.eq(rem, half, 64), X.extract(q, 0, 1), 1), 1)
            x = X.shl(X.add(q, X.zext(up, 1, 64), 64), d, 64)
            r = X.ite(X.ult(v, 1 << n - 1, 64), r, x, 64)
        return r

    def unsf(self, op):
        raise Unsupported("symbolic floating-point " + op)

    def i_fneg(self, st, f, ins):
        a = self.val(f, ins.a[0])
        if type(a) is float:
            f.regs[ins.res] = -a
            return
        raise Unsupported("fneg")

    def i_icmp(self, st, f, ins):
        a = self.val(f, ins.a[0])
        b = self.val(f, ins.a[1])
        ty = ins.ty
        if ty.k == "vec":
            r = tuple(self.icmp1(ins.x, x, y, ty.e) for x, y in zip(self.lanes(a, ty), self.lanes(b, ty)))
        else:
            r = self.icmp1(ins.x, a, b, ty)
        f.regs[ins.res] = r

    def icmp1(self, p, a, b, ty):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is Ptr or type(b) is Ptr:
            if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
                a, b = a.off, b.off
                w = 64
                if p in ("eq", "ne"):
                    return X.eq(a, b, w) if p == "eq" else X.ne(a, b, w)
                # offsets within one object: compare as signed distances from the base
                if p in ("ult", "ugt", "ule", "uge"):
                    S = 1 << 63
                    if X.hi_of(a) >= S or X.hi_of(b) >= S:
                        p = "s" + p[1:]
            else:
                a = self.toint(a)
                b = self.toint(b)
                w = 64
        else:
            w = 64 if ty.k == "ptr" else ty.w
        if p == "eq":
            return X.eq(a, b, w)
        if p == "ne":
            return X.ne(a, b, w)
        if p == "ult":
            return X.ult(a, b, w)
        if p == "ugt":
            return X.ult(b, a, w)
        if p == "ule":
            return X.ule(a, b, w)
        if p == "uge":
            return X.ule(b, a, w)
        if p == "slt":
            return X.slt(a, b, w)
        if p == "sgt":
            return X.slt(b, a, w)
        if p == "sle":
            return X.bnot(X.slt(b, a, w))
        if p == "sge":
            return X.bnot(X.slt(a, b, w))
        raise Unsupported(p)

    def i_fcmp(self, st, f, ins):
        a = self.val(f, ins.a[0])
        b = self.val(f, ins.a[1])
        p = ins.x
        if type(a) is float and type(b) is float:
            nan = a != a or b != b
            q = p[1:]
            if p in ("ord", "uno"):
                r = (not nan) if p == "ord" else nan
            elif nan:
                r = p[0] == "u"
            else:
                r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[q]
            f.regs[ins.res] = int(r)
            return
        if type(a) is FX and type(b) is float and b == b:
            q = p[1:]
            # a.num / 2^k  ?  b
            v = b * (1 << a.k)
            if v < 0:
                r = {"eq": 0, "ne": 1, "lt": 0, "le": 0, "gt": 1, "ge": 1}[q]
            elif v >= 1 << 63:
                r = {"eq": 0, "ne": 1, "lt": 1, "le": 1, "gt": 0, "ge": 0}[q]
            else:
                fl = math.floor(v)
                ex = fl == v
                if q == "lt":
                    r = X.ult(a.num, fl if ex else fl + 1, 64)
                elif q == "ge":
                    r = X.bnot(X.ult(a.num, fl if ex else fl + 1, 64))
                elif q == "le":
                    r = X.ule(a.num, fl, 64)
                elif q == "gt":
                    r = X.bnot(X.ule(a.num, fl, 64))
                elif q == "eq":
                    r = X.eq(a.num, fl, 64) if ex else 0
                else:
                    r = X.ne(a.num, fl, 64) if ex else 1
            f.regs[ins.res] = r
            return
        raise Unsupported("fcmp")

    def i_cast(self, st, f, ins):
        v = self.val(f, ins.a[0])
        op, ty, sty = ins.op, ins.ty, ins.x
        if op == "bitcast":
            f.regs[ins.res] = self.bitcast(st, v, sty, ty)
            return
        if sty.k == "vec":
            f.regs[ins.res] = tuple(self.cast1(st, op, x, sty.e, ty.e) for x in self.lanes(v, sty))
            return
        f.regs[ins.res] = self.cast1(st, op, v, sty, ty)

    def cast1(self, st, op, v, sty, ty):
        if v is UNDEF:
            return UNDEF
        if op == "zext":
            if type(v) is Ptr:
                v = self.addr(v)
            return X.zext(v, sty.w, ty.w)
        if op == "sext":
            return X.sext(v, sty.w, ty.w)
        if op == "trunc":
            if type(v) is Ptr:
                v = self.addr(v)
            return X.extract(v, 0, ty.w)
        if op in ("ptrtoint", "ptrtoaddr"):
            return v if ty.w == 64 else X.extract(self.toint(v), 0, ty.w)
        if op == "inttoptr":
            return self.toptr(st, v)
        if op in ("uitofp", "sitofp"):
            p = PREC[ty.k]
            if type(v) is int:
                if op == "sitofp":
                    v = X._s(v, sty.w)
                return float(math.copysign(rnd(abs(v), p), v) if v else 0)
            if op == "sitofp" and X.hi_of(v) >> sty.w - 1:
                raise Unsupported("sitofp")
            if X.hi_of(v) >= 1 << p:
                # not always representable; record what is known about the size
                for k in (p, 32, 47, 53, 63):
                    if k >= p and X.hi_of(v) >= 1 << k and self.sol.must(st.pc, X.ult(v, 1 << k, sty.w))[0] == "yes":
                        v = self.bounded(v, (1 << k) - 1)
                        break
                if X.hi_of(v) >= 1 << 63:
                    raise Unsupported(op + " of values above 2^63")
            v = X.zext(v, sty.w, 64) if sty.w < 64 else v
            return FX(self.fprec(v, p), 0)
        if op in ("fptoui", "fptosi"):
            return self.ftoi(v, ty.w)
        if op in ("fpext", "fptrunc") and type(v) is float:
            return fround(v, ty.k)
        if op in ("fpext", "fptrunc") and type(v) is FX:
            return FX(self.fprec(v.num, PREC[ty.k]), v.k)
        raise Unsupported(op)

    def bounded(self, v, hi):
        """v with upper bound hi (known to hold on this path) recorded structurally"""
        w = v.w
        k = hi.bit_length()
        return X.zext(X.extract(v, 0, k), k, w)

    def ftoi(self, v, w):
        if type(v) is float:
            if v != v or v < 0:
                return 0
            return min(int(v), full(w)) if v != math.inf else full(w)
        if type(v) is FX:
            return X.extract(X.lshr(v.num, v.k, 64), 0, w)
        raise Unsupported("ftoi")

    def bitcast(self, st, v, sty, ty):
        if v is UNDEF:
            return (UNDEF,) * ty.n if ty.k == "vec" else UNDEF
        if sty.k == "vec":
            w = sty.e.bits()
            if any(x is UNDEF for x in v):
                if ty.k == "vec" and ty.n == sty.n:
                    return v
                # treat undefined lanes as fresh
                v = tuple(self.freshv(w) if x is UNDEF else x for x in v)
            r = self.toint(v[0])
            for i in range(1, len(v)):
                r = X.concat(self.toint(v[i]), w, r, w * i)
        else:
            r = v
        if ty.k == "vec":
            w = ty.e.bits()
            return tuple(X.extract(r, i * w, w) for i in range(ty.n))
        if ty.k == "double" or sty.k == "double":
            return self.conv(st, fbits(r) if type(r) is float else r, ty)
        return r

    def freshv(self, w):
        self.fresh += 1
        return X.var("fresh!%d" % self.fresh, w)

    def i_load(self, st, f, ins):
        f.regs[ins.res] = self.load(st, self.val(f, ins.a[0]), ins.ty)

    def i_store(self, st, f, ins):
        self.store(st, self.val(f, ins.a[1]), ins.ty, self.val(f, ins.a[0]))

    def i_alloca(self, st, f, ins):
        c = self.val(f, ins.a[0])
        o = self.newobj(st, ins.ty.size() * c, kind="stack")
        f.allocas.append(o.id)
        f.regs[ins.res] = Ptr(o.id, 0)

    def i_gep(self, st, f, ins):
        if ins.a.__class__ is tuple and ins.text is not None and ins.x[0].k == "vec":
            raise Unsupported("vector gep")
        base = self.val(f, ins.a[0])
        off = 0
        cur = ins.ty
        for n, v in enumerate(ins.a[1:]):
            it = ins.x[1][n]
            v = self.val(f, v)
            if v is UNDEF:
                f.regs[ins.res] = UNDEF
                return
            if it.w < 64:
                v = X.sext(v, it.w, 64)
            v = self.toint(v)
            if n == 0:
                off = X.add(off, X.mul(v, cur.size(), 64), 64)
            elif cur.k == "struct":
                off = X.add(off, cur.offs()[v], 64)
                cur = cur.e[v]
            else:
                off = X.add(off, X.mul(v, cur.e.size(), 64), 64)
                cur = cur.e
        if type(base) is Ptr:
            f.regs[ins.res] = Ptr(base.obj, X.add(base.off, off, 64))
        elif base is UNDEF:
            f.regs[ins.res] = UNDEF
        else:
            f.regs[ins.res] = X.add(base, off, 64)

    def i_select(self, st, f, ins):
        c = self.val(f, ins.a[0])
        a = self.val(f, ins.a[1])
        b = self.val(f, ins.a[2])
        ty = ins.ty
        if type(c) is tuple:
            f.regs[ins.res] = tuple(UNDEF if k is UNDEF else X.ite(k, x, y, ty.e.w) for k, x, y in zip(c, a, b))
            return
        f.regs[ins.res] = self.sel(st, c, a, b, ty)

    def sel(self, st, c, a, b, ty):
        if c is UNDEF:
            return UNDEF
        if isinstance(c, int):
            return a if c else b
        if same(a, b):
            return a
        if ty.k == "i" and type(a) in (int, E) and type(b) in (int, E):
            return X.ite(c, a, b, ty.w)
        if type(a) is Ptr and type(b) is Ptr and a.obj == b.obj:
            return Ptr(a.obj, X.ite(c, a.off, b.off, 64))
        k = self.known(st, c)
        if k is not None:
            return a if k else b
        raise NeedFork([c, X.bnot(c)])

    def i_br(self, st, f, ins):
        if not ins.a:
            self.goto(st, f, ins.x[0])
            return "jump"
        c = self.val(f, ins.a[0])
        if isinstance(c, int):
            self.goto(st, f, ins.x[0] if c else ins.x[1])
            return "jump"
        if c is UNDEF:
            self.violate(st, "ub", "branch on uninitialised value", 1)
            raise PathEnd
        return self.branch(st, f, [(c, ins.x[0]), (X.bnot(c), ins.x[1])])

    def branch(self, st, f, alts):
        join = self.join_of(st, f, [t for _, t in alts])
        subs = self.split(st, [c for c, _ in alts])
        m = {}
        for c, t in alts:
            m[c if isinstance(c, int) else c.id] = t
        out = []
        for c, s in subs:
            t = m.get(c if isinstance(c, int) else c.id)
            g = s.top()
            self.goto(s, g, t)
            out.append(s)
        if len(out) == 1 and out[0] is st:
            return "jump"
        return ("fork", out, join)

    def i_switch(self, st, f, ins):
        v = self.val(f, ins.a[0])
        d, cases = ins.x
        if v is UNDEF:
            self.violate(st, "ub", "switch on uninitialised value", 1)
            raise PathEnd
        v = self.toint(v)
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    self.goto(st, f, l)
                    return "jump"
            self.goto(st, f, d)
            return "jump"
        w = ins.ty.w
        alts = []
        none = 1
        bytgt = {}
        for c, l in cases:
            e = X.eq(v, c, w)
            bytgt[l] = X.or_(bytgt.get(l, 0), e, 1)
            none = X.and_(none, X.bnot(e), 1)
        bytgt[d] = X.or_(bytgt.get(d, 0), none, 1)
        alts = [(e, l) for l, e in bytgt.items() if not (isinstance(e, int) and e == 0)]
        return self.branch(st, f, alts)

    def i_ret(self, st, f, ins):
        v = self.val(f, ins.a[0]) if ins.a else None
        self.do_ret(st, v)
        return "jump"

    def do_ret(self, st, v):
        f = st.frames.pop()
        for oid in f.allocas:
            if oid in st.mem:
                del st.mem[oid]
        if not st.frames:
            return
        g = st.top()
        if f.catch:
            v = 1
        if f.res is not None:
            g.regs[f.res] = v
        if f.caller_normal:
            self.goto(st, g, f.caller_normal)
        else:
            g.ip += 1

    def i_unreachable(self, st, f, ins):
        self.violate(st, "ub", "unreachable code reached", 1)
        raise PathEnd

    def i_extractvalue(self, st, f, ins):
        v = self.val(f, ins.a[0])
        for i in ins.x:
            if v is UNDEF:
                break
            v = v[i]
        f.regs[ins.res] = v

    def i_insertvalue(self, st, f, ins):
        v = self.val(f, ins.a[0])
        x = self.val(f, ins.a[1])

        def rec(agg, ty, idx):
            if not idx:
                return x
            n = len(ty.e) if ty.k == "struct" else ty.n
            l = list(agg) if agg is not UNDEF else [UNDEF] * n
            l[idx[0]] = rec(l[idx[0]], ty.e[idx[0]] if ty.k == "struct" else ty.e, idx[1:])
            return tuple(l)
        f.regs[ins.res] = rec(v, ins.ty, ins.x)

    def i_extractelement(self, st, f, ins):
        v = self.lanes(self.val(f, ins.a[0]), ins.ty)
        i = self.val(f, ins.a[1])
        if not isinstance(i, int):
            w = ins.ty.e.w
            r = v[-1]
            for k in range(len(v) - 2, -1, -1):
                r = X.ite(X.eq(i, k, 64), v[k], r, w)
            f.regs[ins.res] = r
            return
        f.regs[ins.res] = v[i]

    def i_insertelement(self, st, f, ins):
        v = list(self.lanes(self.val(f, ins.a[0]), ins.ty))
        x = self.val(f, ins.a[1])
        i = self.val(f, ins.a[2])
        if not isinstance(i, int):
            raise Unsupported("insertelement at symbolic index")
        v[i] = x
        f.regs[ins.res] = tuple(v)

    def i_shufflevector(self, st, f, ins):
        a = self.lanes(self.val(f, ins.a[0]), ins.ty)
        b = self.lanes(self.val(f, ins.a[1]), ins.ty)
        n = len(a)
        f.regs[ins.res] = tuple(UNDEF if m is UNDEF else (a[m] if m < n else b[m - n]) for m in ins.x)

    def i_freeze(self, st, f, ins):
        v = self.val(f, ins.a[0])

        def fz(x, t):
            if x is UNDEF:
                return self.freshv(t.bits())
            return x
        if ins.ty.k == "vec":
            f.regs[ins.res] = tuple(fz(x, ins.ty.e) for x in self.lanes(v, ins.ty))
        else:
            f.regs[ins.res] = fz(v, ins.ty)

    def i_nop(self, st, f, ins):
        return None

    def i_atomicrmw(self, st, f, ins):
        p = self.val(f, ins.a[0])
        v = self.val(f, ins.a[1])
        old = self.load(st, p, ins.ty)
        op = {"xchg": None}.get(ins.x, ins.x)
        nv = v if op is None else self.bin1(st, op, old, v, ins.ty)
        self.store(st, p, ins.ty, nv)
        f.regs[ins.res] = old

    def i_cmpxchg(self, st, f, ins):
        p = self.val(f, ins.a[0])
        c = self.val(f, ins.a[1])
        v = self.val(f, ins.a[2])
        old = self.load(st, p, ins.ty)
        e = X.eq(self.toint(old), self.toint(c), ins.ty.bits())
        e = e if self.known(st, e) is None else self.known(st, e)
        if not isinstance(e, int):
            raise NeedFork([e, X.bnot(e)])
        if e:
            self.store(st, p, ins.ty, v)
        f.regs[ins.res] = (old, e)

    # ---------------------------------------------------------------- calls
    def i_call(self, st, f, ins):
        c = ins.x["callee"]
        if type(c) is GlobalRef:
            name = c.name
            while name in self.m.aliases and name not in self.m.fns:
                name = self.m.aliases[name].name
        elif c == "asm":
            raise Unsupported("inline asm")
        else:
            p = f.regs[c]
            if type(p) is not Ptr or st.mem[p.obj].kind != "fn":
                self.violate(st, "ub", "call through invalid function pointer", 1)
                raise PathEnd
            name = st.mem[p.obj].name
        h = self.fcache.get(("h", name))
        if h is None:
            h = self.handler(name)
            self.fcache[("h", name)] = h
        if h is not False:
            args = [self.val(f, a) for a in ins.a]
            r = h(self, st, f, ins, args)
            if r is None and "normal" in ins.x:
                self.goto(st, f, ins.x["normal"])
                return "jump"
            return r
        fn = self.m.fns[name]
        args = [self.val(f, a) for a in ins.a]
        self.push(st, fn, args, ins.res, normal=ins.x.get("normal"))
        return "jump"

    def handler(self, name):
        b = self.bi.get(name)
        if b:
            return b
        if name.startswith("llvm."):
            for k, v in self.bi_prefix:
                if name.startswith(k):
                    return v
            raise Unsupported("intrinsic " + name)
        dm = demangle(name)
        for k in ("__rust_alloc_zeroed", "__rust_alloc", "__rust_dealloc", "__rust_realloc", "__rust_no_alloc_shim_is_unstable_v2", "__rust_no_alloc_shim_is_unstable"):
            if name == k or name.endswith(k) or dm.endswith(k):
                return getattr(Engine, "b_" + k)
        if name not in self.m.fns or "panicking" in dm:
            if any(k in dm for k in ("panic_nounwind", "panic_cannot_unwind", "panic_in_cleanup", "panic_misaligned", "panic_null", "panic_invalid_enum")):
                return Engine.b_abort
            if "handle_alloc_error" in dm or "alloc_error" in dm:
                return Engine.b_end
            a = self.m.decls.get(name, "")
            if name in self.m.fns:
                a = self.m.fns[name].attrs
            if "noreturn" in a or "panic" in dm:
                return Engine.b_panic
            if name not in self.m.fns:
                raise Unsupported("external function " + dm)
        return False

    def b_abort(self, st, f, ins, a):
        self.violate(st, "ub", "precondition of an unsafe operation violated", 1)
        raise PathEnd

    def b_end(self, st, f, ins, a):
        raise PathEnd

    def b_panic(self, st, f, ins, a):
        self.panics += 1
        where = demangle(f.fn.name)
        # unwind to the innermost catching frame
        for k in range(len(st.frames) - 1, -1, -1):
            if st.frames[k].catch:
                break
        else:
            self.violate(st, "panic", "unexpected panic in %s" % where, 1)
            raise PathEnd
        fr = st.frames[k]
        for g in st.frames[k:]:
            for oid in g.allocas:
                st.mem.pop(oid, None)
        del st.frames[k:]
        g = st.top()
        if fr.res is not None:
            g.regs[fr.res] = 0
        g.ip += 1
        st.threads = "unwound"
        return "jump"

    def b___rust_alloc(self, st, f, ins, a):
        self.alloc(st, f, ins, a[0], a[1], False)

    def b___rust_alloc_zeroed(self, st, f, ins, a):
        self.alloc(st, f, ins, a[0], a[1], True)

    def alloc(self, st, f, ins, size, align, zero):
        if isinstance(size, int):
            o = self.newobj(st, size, zero=zero)
        else:
            self.fresh += 1
            arr = X.azero() if zero else X.arrvar("uninit!%d" % self.fresh)
            o = self.newobj(st, size, zero=zero, arr=arr)
        f.regs[ins.res] = Ptr(o.id, 0)

    def b___rust_no_alloc_shim_is_unstable_v2(self, st, f, ins, a):
        if ins.res:
            f.regs[ins.res] = 0

    b___rust_no_alloc_shim_is_unstable = b___rust_no_alloc_shim_is_unstable_v2

    def b___rust_dealloc(self, st, f, ins, a):
        p, size = a[0], a[1]
        if type(p) is not Ptr or p.obj not in st.mem or not st.mem[p.obj].alive or st.mem[p.obj].kind != "heap" or not (isinstance(p.off, int) and p.off == 0):
            self.violate(st, "ub", "invalid or double free", 1)
            raise PathEnd
        o = st.mem[p.obj]
        e = X.eq(o.size, size, 64)
        self.require(st, e, "ub", "free with wrong size")
        o = self.wobj(st, p.obj)
        o.alive = False
        o.cells = {}
        o.arr = None
        self.freed += 1

    def b___rust_realloc(self, st, f, ins, a):
        p, old, align, new = a
        if type(p) is not Ptr or p.obj not in st.mem or not st.mem[p.obj].alive:
            self.violate(st, "ub", "realloc of invalid pointer", 1)
            raise PathEnd
        o = st.mem[p.obj]
        if not isinstance(new, int):
            new = self.concretize(st, new, 64)
        if not isinstance(o.size, int):
            raise Unsupported("realloc of symbolic-size object")
        n = self.newobj(st, new)
        self.memcpy(st, Ptr(n.id, 0), p, min(o.size, new))
        q = self.wobj(st, p.obj)
        q.alive = False
        q.cells = {}
        f.regs[ins.res] = Ptr(n.id, 0)

    # ---------------------------------------------------------------- harness interface
    def sym(self, name, w=64):
        if self.concrete is not None:
            return self.concrete.get(name, 0) & full(w)
        self.names[name] = w
        return X.var(name, w)

    def b_sym_u64(self, st, f, ins, a):
        f.regs[ins.res] = self.sym("s!%d" % self.cint(st, a[0]))

    def b_sym_size(self, st, f, ins, a):
        f.regs[ins.res] = self.sym("n!%d" % self.cint(st, a[0]))

    def cint(self, st, v):
        if isinstance(v, int):
            return v
        return self.concretize(st, v, 64 if v.w == 64 else v.w)

    def b_sym_param(self, st, f, ins, a):
        f.regs[ins.res] = self.params[self.cint(st, a[0])]

    def b_sym_assume(self, st, f, ins, a):
        c = self.boolv(a[0])
        if isinstance(c, int):
            if not c:
                raise PathEnd
            return
        if not self.sol.feasible(st.pc, c):
            raise PathEnd
        st.assume(c)

    def boolv(self, v):
        if v is UNDEF:
            raise Inconclusive("undefined boolean passed to harness primitive")
        if isinstance(v, int):
            return int(v != 0)
        return v if v.w == 1 else X.extract(v, 0, 1)

    def b_sym_assert(self, st, f, ins, a):
        i = self.cint(st, a[1])
        if a[0] is UNDEF:
            self.violate(st, "ub", "assertion on uninitialised value", 1)
        c = self.boolv(a[0])
        r = self.asserts.setdefault(i, [0, 0])
        if isinstance(c, int) and c:
            r[1] += 1
            return
        self.require(st, c, "assert", i)
        r[0] += 1

    def b_sym_reach(self, st, f, ins, a):
        i = self.cint(st, a[0])
        if self.reach.get(i):
            return
        r, env = self.sol.check(list(st.pc), exact=True, model=True)
        self.reach[i] = r == "sat"
        if r == "sat":
            self.witnesses[i] = self.prefer_small(st, None, env)

    def b_sym_choose(self, st, f, ins, a):
        i, lo, hi = self.cint(st, a[0]), self.cint(st, a[1]), self.cint(st, a[2])
        if self.concrete is not None:
            f.regs[ins.res] = self.concrete.get("c!%d" % i, lo)
            return
        v = self.sym("c!%d" % i)
        for c in st.pc:
            if c.op == "eq" and c.a[0] is v and isinstance(c.a[1], int):
                f.regs[ins.res] = c.a[1]
                return
        vals = range(lo, hi + 1)
        if self.choose_filter and i in self.choose_filter:
            k, n = self.choose_filter[i]
            vals = [x for j, x in enumerate(vals) if j % n == k]
        if not vals:
            raise PathEnd
        subs = []
        for n, x in enumerate(vals):
            s = st if n == len(vals) - 1 else st.fork(self)
            s.assume(X.eq(v, x, 64))
            g = s.top()
            g.regs[ins.res] = x
            g.ip += 1
            subs.append(s)
        return ("fork", subs, None)

    def b_sym_fill(self, st, f, ins, a):
        p, n, i = a[0], a[1], self.cint(st, a[2])
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int):
            if type(p) is not Ptr:
                raise Inconclusive("fill of a non-pointer")
            o = st.mem[p.obj]
            if o.arr is None or not (isinstance(p.off, int) and p.off == 0):
                raise Unsupported("symbolic-length fill")
            name = "a!%d" % i
            o = self.wobj(st, o.id)
            if self.concrete is not None:
                raise Unsupported("concrete fill")
            self.names[name] = "array"
            old = o.arr
            o.arr = X.arrvar(name)
            if self.sol.must(st.pc, X.eq(o.size, X.shl(n, 3, 64), 64))[0] != "yes":
                # storage is larger than asked for: keep the word behind the filled part
                o.arr = X.store(o.arr, n, X.select(old, n))
            return
        o, off = self.deref(st, p, 8 * n, "harness fill")
        o = self.wobj(st, o.id)
        if self.concrete is not None and "a!%d" % i in self.concrete:
            d, tb = self.concrete["a!%d" % i]
            for k in range(n):
                self.store_raw(o, off + 8 * k, 8, tb.get(k, d))
            return
        for k in range(n):
            self.store_raw(o, off + 8 * k, 8, self.sym("w!%d!%d" % (i, k)))

    def b_sym_merge(self, st, f, ins, a):
        st.merge = self.cint(st, a[0])

    def b_sym_pin(self, st, f, ins, a):
        f.regs[ins.res] = self.concretize(st, a[0], 64)

    def b_sym_try(self, st, f, ins, a):
        p = a[0]
        name = st.mem[p.obj].name
        self.push(st, self.m.fns[name], [a[1]], ins.res, catch=True)
        return "jump"

    def b_sym_observe(self, st, f, ins, a):
        if self.log is not None:
            self.log.append((self.cint(st, a[0]), a[1]))

    # ---------------------------------------------------------------- intrinsics
    def n_nop(self, st, f, ins, a):
        if ins.res:
            f.regs[ins.res] = a[0] if a else UNDEF

    def n_assume(self, st, f, ins, a):
        c = a[0]
        if c is UNDEF:
            self.violate(st, "ub", "assume of uninitialised value", 1)
            raise PathEnd
        if isinstance(c, int) and c:
            return
        self.require(st, c, "ub", "compiler assumption violated")

    def lanewise(fn):
        def g(self, st, f, ins, a):
            ty = ins.ty
            if ty.k == "vec":
                f.regs[ins.res] = tuple(fn(self, st, f, ins, [x[i] if type(x) is tuple else x for x in a], ty.e) for i in range(ty.n))
            else:
                if any(x is UNDEF for x in a):
                    f.regs[ins.res] = UNDEF
                else:
                    f.regs[ins.res] = fn(self, st, f, ins, [self.toint(x) for x in a], ty)
        return g

    @lanewise
    def n_ctpop(self, st, f, ins, a, ty):
        return X.ctpop(a[0], ty.w)

    @lanewise
    def n_ctlz(self, st, f, ins, a, ty):
        return X.ctlz(a[0], ty.w)

    @lanewise
    def n_cttz(self, st, f, ins, a, ty):
        x, w = a[0], ty.w
        if type(x) is not E:
            return X.cttz(x, w)
        if st.merge == 4:
            # one path for each position
            cs = [X.first_at(x, k, w) for k in range(w)] + [X.eq(x, 0, w)]
            for k, c in enumerate(cs):
                if known(st, c):
                    return k
            raise NeedFork(cs)
        if x.lo == 0 and self.sol.must(st.pc, X.ne(x, 0, w))[0] == "yes":
            return X.cttz(x, w, x.nz.bit_length() - 1)
        return X.cttz(x, w)

    @lanewise
    def n_umin(self, st, f, ins, a, ty):
        return X.ite(X.ult(a[0], a[1], ty.w), a[0], a[1], ty.w)

    @lanewise
    def n_umax(self, st, f, ins, a, ty):
        return X.ite(X.ult(a[0], a[1], ty.w), a[1], a[0], ty.w)

    @lanewise
    def n_smin(self, st, f, ins, a, ty):
        return X.ite(X.slt(a[0], a[1], ty.w), a[0], a[1], ty.w)

    @lanewise
    def n_smax(self, st, f, ins, a, ty):
        return X.ite(X.slt(a[0], a[1], ty.w), a[1], a[0], ty.w)

    @lanewise
    def n_usub_sat(self, st, f, ins, a, ty):
        return X.ite(X.ult(a[0], a[1], ty.w), 0, X.sub(a[0], a[1], ty.w), ty.w)

    @lanewise
    def n_uadd_sat(self, st, f, ins, a, ty):
        return X.ite(self.uaddo(a[0], a[1], ty.w), full(ty.w), X.add(a[0], a[1], ty.w), ty.w)

    @lanewise
    def n_bswap(self, st, f, ins, a, ty):
        return X.bswap(a[0], ty.w)

    @lanewise
    def n_bitreverse(self, st, f, ins, a, ty):
        r = None
        for i in range(ty.w):
            b = X.extract(a[0], i, 1)
            r = b if r is None else X.concat(r, i, b, 1)
        return r

    @lanewise
    def n_abs(self, st, f, ins, a, ty):
        return X.ite(X.slt(a[0], 0, ty.w), X.neg(a[0], ty.w), a[0], ty.w)

    @lanewise
    def n_fsh(self, st, f, ins, a, ty):
        w = ty.w
        left = "fshl" in ins.x["callee"].name
        k = X.urem(a[2], w, w)
        cat = X.concat(a[0], w, a[1], w)
        if left:
            return X.extract(X.shl(cat, X.zext(k, w, 2 * w), 2 * w), w, w)
        return X.extract(X.lshr(cat, X.zext(k, w, 2 * w), 2 * w), 0, w)

    @lanewise
    def n_ucmp(self, st, f, ins, a, ty):
        at = ins.x["argt"][0]
        w = at.w
        s = "scmp" in ins.x["callee"].name
        lt = X.slt if s else X.ult
        return X.ite(lt(a[0], a[1], w), full(ty.w), X.ite(X.eq(a[0], a[1], w), 0, 1, ty.w), ty.w)

    def uaddo(self, a, b, w):
        if isinstance(a, int):
            a, b = b, a
        if X.hi_of(a) + X.hi_of(b) <= full(w):
            return 0
        if isinstance(b, int):
            return X.ult(full(w) - b, a, w)
        return X.ult(X.add(a, b, w), a, w)

    def umulo(self, a, b, w):
        if X.hi_of(a) * X.hi_of(b) <= full(w):
            return 0
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return X.ult(full(w) // b, a, w) if b else 0
        p = X.mul(X.zext(a, w, 2 * w), X.zext(b, w, 2 * w), 2 * w)
        return X.ne(X.extract(p, w, w), 0, w)

    def n_ovf(self, st, f, ins, a):
        name = ins.x["callee"].name
        w = ins.x["argt"][0].w
        if a[0] is UNDEF or a[1] is UNDEF:
            f.regs[ins.res] = (UNDEF, UNDEF)
            return
        x, y = self.toint(a[0]), self.toint(a[1])
        k = name[5:].split(".")[0]
        if k == "uadd":
            r = (X.add(x, y, w), self.uaddo(x, y, w))
        elif k == "usub":
            r = (X.sub(x, y, w), X.ult(x, y, w))
        elif k == "umul":
            r = (X.mul(x, y, w), self.umulo(x, y, w))
        else:
            W = w + 1 if k != "smul" else 2 * w
            ex, ey = X.sext(x, w, W), X.sext(y, w, W)
            op = {"sadd": X.add, "ssub": X.sub, "smul": X.mul}[k]
            wide = op(ex, ey, W)
            low = op(x, y, w)
            if X.hi_of(x) + X.hi_of(y) < 1 << (w - 1) and k == "sadd":
                o = 0
            else:
                o = X.ne(wide, X.sext(low, w, W), W)
            r = (low, o)
        f.regs[ins.res] = r

    def n_memcpy(self, st, f, ins, a):
        self.memcpy(st, a[0], a[1], a[2], move="memmove" in ins.x["callee"].name if type(ins.x["callee"]) is GlobalRef else False)
        if ins.res:
            f.regs[ins.res] = a[0]

    def n_memset(self, st, f, ins, a):
        self.memset(st, a[0], a[1] if ins.x["argt"][1].w == 8 else X.extract(a[1], 0, 8), a[2])
        if ins.res:
            f.regs[ins.res] = a[0]

    def n_memcmp(self, st, f, ins, a):
        n = a[2] if isinstance(a[2], int) else self.concretize(st, a[2], 64)
        r = 0
        w = ins.ty.w
        for i in range(n - 1, -1, -1):
            x = self.load(st, self.padd(a[0], i), I(8))
            y = self.load(st, self.padd(a[1], i), I(8))
            if x is UNDEF or y is UNDEF:
                f.regs[ins.res] = UNDEF
                return
            d = X.sub(X.zext(x, 8, w), X.zext(y, 8, w), w)
            r = X.ite(X.eq(x, y, 8), r, d, w)
        f.regs[ins.res] = r

    def n_ceil(self, st, f, ins, a):
        v = a[0]
        if type(v) is float:
            f.regs[ins.res] = float(math.ceil(v)) if math.isfinite(v) else v
        elif type(v) is FX:
            f.regs[ins.res] = FX(X.lshr(X.add(v.num, (1 << v.k) - 1, 64), v.k, 64), 0)
        else:
            raise Unsupported("ceil")

    def n_floor(self, st, f, ins, a):
        v = a[0]
        if type(v) is float:
            f.regs[ins.res] = float(math.floor(v)) if math.isfinite(v) else v
        elif type(v) is FX:
            f.regs[ins.res] = FX(X.lshr(v.num, v.k, 64), 0)
        else:
            raise Unsupported("floor")

    def n_round(self, st, f, ins, a):
        v = a[0]
        if type(v) is float:
            f.regs[ins.res] = float(math.copysign(math.floor(abs(v) + 0.5) if abs(v) < 1 << 52 else abs(v), v)) if math.isfinite(v) else v
        elif type(v) is FX:
            f.regs[ins.res] = FX(X.lshr(X.add(v.num, 1 << v.k - 1, 64), v.k, 64), 0) if v.k else v
        else:
            raise Unsupported("round")

    def n_fptoui_sat(self, st, f, ins, a):
        f.regs[ins.res] = self.ftoi(a[0], ins.ty.w)

    def n_reduce(self, st, f, ins, a):
        name = ins.x["callee"].name
        k = name.split(".")[3]
        vt = ins.x["argt"][0]
        v = self.lanes(a[0], vt)
        if any(x is UNDEF for x in v):
            f.regs[ins.res] = UNDEF
            return
        w = vt.e.w
        op = {"add": X.add, "or": X.or_, "and": X.and_, "xor": X.xor, "mul": X.mul}.get(k)
        if op is None:
            cmpf = X.slt if k[0] == "s" else X.ult
            if k[1:] == "max":
                op = lambda x, y, w: X.ite(cmpf(x, y, w), y, x, w)
            else:
                op = lambda x, y, w: X.ite(cmpf(x, y, w), x, y, w)
        r = v[0]
        for x in v[1:]:
            r = op(r, x, w)
        f.regs[ins.res] = r

    def n_isconst(self, st, f, ins, a):
        f.regs[ins.res] = 0

    def n_trap(self, st, f, ins, a):
        self.violate(st, "ub", "trap reached", 1)
        raise PathEnd

    def n_pshufb(self, st, f, ins, a):
        v, m = a
        out = []
        for i in range(len(v)):
            k = m[i]
            if isinstance(k, int):
                out.append(0 if k & 0x80 else v[k & (len(v) - 1)])
                continue
            r = 0
            for j in range(len(v)):
                r = X.ite(X.eq(X.extract(k, 0, 4), j, 4), v[j], r, 8)
            out.append(X.ite(X.extract(k, 7, 1), 0, r, 8))
        f.regs[ins.res] = tuple(out)

    def n_movmsk(self, st, f, ins, a):
        v = a[0]
        r = None
        for i, x in enumerate(v):
            b = X.extract(x, 7, 1)
            r = b if r is None else X.concat(b, 1, r, i)
        f.regs[ins.res] = X.zext(r, len(v), ins.ty.w)

    def builtins(self):
        E_ = Engine
        b = {k: getattr(E_, "b_" + k) for k in ("sym_u64", "sym_size", "sym_param", "sym_assume", "sym_assert", "sym_reach", "sym_choose", "sym_fill", "sym_merge", "sym_pin", "sym_try", "sym_observe")}
        b["memcmp"] = E_.n_memcmp
        b["bcmp"] = E_.n_memcmp
        b["memcpy"] = E_.n_memcpy
        b["memmove"] = E_.n_memcpy
        self.bi_prefix = [
            ("llvm.lifetime", E_.n_nop), ("llvm.dbg", E_.n_nop), ("llvm.experimental.noalias", E_.n_nop), ("llvm.expect", E_.n_nop),
            ("llvm.assume", E_.n_assume), ("llvm.ctpop", E_.n_ctpop), ("llvm.ctlz", E_.n_ctlz), ("llvm.cttz", E_.n_cttz),
            ("llvm.umin", E_.n_umin), ("llvm.umax", E_.n_umax), ("llvm.smin", E_.n_smin), ("llvm.smax", E_.n_smax),
            ("llvm.usub.sat", E_.n_usub_sat), ("llvm.uadd.sat", E_.n_uadd_sat), ("llvm.bswap", E_.n_bswap), ("llvm.bitreverse", E_.n_bitreverse),
            ("llvm.abs", E_.n_abs), ("llvm.fshl", E_.n_fsh), ("llvm.fshr", E_.n_fsh), ("llvm.ucmp", E_.n_ucmp), ("llvm.scmp", E_.n_ucmp),
            ("llvm.uadd.with", E_.n_ovf), ("llvm.usub.with", E_.n_ovf), ("llvm.umul.with", E_.n_ovf),
            ("llvm.sadd.with", E_.n_ovf), ("llvm.ssub.with", E_.n_ovf), ("llvm.smul.with", E_.n_ovf),
            ("llvm.memcpy", E_.n_memcpy), ("llvm.memmove", E_.n_memcpy), ("llvm.memset", E_.n_memset),
            ("llvm.ceil", E_.n_ceil), ("llvm.floor", E_.n_floor), ("llvm.round.f", E_.n_round), ("llvm.trunc.f", E_.n_floor), ("llvm.fptoui.sat", E_.n_fptoui_sat),
            ("llvm.vector.reduce", E_.n_reduce), ("llvm.is.constant", E_.n_isconst), ("llvm.trap", E_.n_trap), ("llvm.ubsantrap", E_.n_trap),
            ("llvm.x86.ssse3.pshuf.b.128", E_.n_pshufb), ("llvm.x86.sse2.pmovmskb", E_.n_movmsk), ("llvm.threadlocal.address", E_.n_nop),
            ("llvm.donothing", E_.n_nop), ("llvm.prefetch", E_.n_nop), ("llvm.allow", E_.n_isconst), ("llvm.sideeffect", E_.n_nop),
        ]
        return b


def fbits(v):
    import struct
    if type(v) is float:
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    raise Unsupported("bits of a symbolic float")


Engine.OPS = {
    "icmp": Engine.i_icmp, "fcmp": Engine.i_fcmp, "load": Engine.i_load, "store": Engine.i_store, "alloca": Engine.i_alloca,
    "getelementptr": Engine.i_gep, "select": Engine.i_select, "br": Engine.i_br, "switch": Engine.i_switch, "ret": Engine.i_ret,
    "unreachable": Engine.i_unreachable, "extractvalue": Engine.i_extractvalue, "insertvalue": Engine.i_insertvalue,
    "extractelement": Engine.i_extractelement, "insertelement": Engine.i_insertelement, "shufflevector": Engine.i_shufflevector,
    "freeze": Engine.i_freeze, "call": Engine.i_call, "invoke": Engine.i_call, "fence": Engine.i_nop, "fneg": Engine.i_fneg,
    "atomicrmw": Engine.i_atomicrmw, "cmpxchg": Engine.i_cmpxchg,
}
from ll import BIN, CAST
for _o in BIN:
    Engine.OPS[_o] = Engine.i_bin
for _o in CAST:
    Engine.OPS[_o] = Engine.i_cast


_dm = {}


def demangle(n):
    """rough, readable form of a Rust v0 symbol: the identifiers it contains"""
    r = _dm.get(n)
    if r is None:
        if not n.startswith("_R"):
            r = n
        else:
            ids = []
            i = 2
            while i < len(n):
                m = re.match(r"(\d+)_?", n[i:])
                if m and int(m.group(1)) > 0 and not m.group(1).startswith("0"):
                    k = int(m.group(1))
                    j = i + len(m.group(0)) if n[i + len(m.group(1)):i + len(m.group(1)) + 1] == "_" else i + len(m.group(1))
                    if j + k <= len(n) and k < 200:
                        ids.append(n[j:j + k])
                        i = j + k
                        continue
                i += 1
            r = "::".join(x for x in ids if len(x) > 1)
        _dm[n] = r
    return r
