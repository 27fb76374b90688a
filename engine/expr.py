"""Hash-consed bit-vector expressions with light, local simplification.

A value is either a Python int (concrete, already reduced modulo 2^w) or an E node.
Booleans are 1-bit values.  Every constructor takes the operand width explicitly because
Python ints carry none.  Every rewrite below is a valid bit-vector identity; selftest.py
checks the constructors against direct evaluation on random operands.
"""

_table = {}
_counter = [0]
VARS = {}          # name -> E (variables created in this process)


class E:
    __slots__ = ("op", "w", "a", "lo", "hi", "nz", "id", "_z", "_vars", "_neg")

    def __repr__(self):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def show(e, d=4):
    if not isinstance(e, E):
        return hex(e) if isinstance(e, int) else repr(e)
    if e.op == "var":
        return e.a[0]
    if d == 0:
        return "..."
    return "(%s%d %s)" % (e.op, e.w, " ".join(show(x, d - 1) if isinstance(x, (E, int)) else repr(x) for x in e.a))


def full(w):
    return (1 << w) - 1


def _mk(op, w, a, lo=0, hi=None, nz=None):
    key = (op, w) + tuple(x.id if isinstance(x, E) else ("c", x) for x in a)
    r = _table.get(key)
    if r is not None:
        return r
    e = E()
    e.op = op
    e.w = w
    e.a = a
    m = full(w)
    if nz is None:
        nz = m
    if hi is None:
        hi = m
    if hi > nz:
        hi = nz
    # no bit above hi's top bit can be set
    nz &= (1 << hi.bit_length()) - 1
    if lo == hi:
        return lo               # only one possible value
    e.lo = lo
    e.hi = hi
    e.nz = nz
    _counter[0] += 1
    e.id = _counter[0]
    e._z = None
    e._vars = None
    e._neg = None
    _table[key] = e
    return e


def var(name, w):
    e = VARS.get(name)
    if e is None:
        e = _mk("var", w, (name,))
        VARS[name] = e
    assert e.w == w, (name, e.w, w)
    return e


def arrvar(name):
    """SMT array BitVec64 -> BitVec64 (op 'avar'; w is the element width)."""
    return _mk("avar", 64, (name,))


def azero():
    return _mk("azero", 64, ())


def store(arr, idx, val):
    if arr.op == "store" and arr.a[1] is idx and not isinstance(idx, int):
        arr = arr.a[0]
    elif arr.op == "store" and isinstance(idx, int) and arr.a[1] == idx and isinstance(arr.a[1], int):
        arr = arr.a[0]
    return _mk("store", 64, (arr, idx, val))


def aite(c, a, b):
    if isinstance(c, int):
        return a if c else b
    if a is b:
        return a
    return _mk("aite", 64, (c, a, b))


def select(arr, idx):
    while True:
        if arr.op == "store":
            j, v = arr.a[1], arr.a[2]
            t = eq(idx, j, 64)
            if t == 1 and isinstance(t, int):
                return v
            if t == 0 and isinstance(t, int):
                arr = arr.a[0]
                continue
            return ite(t, v, select(arr.a[0], idx), 64)
        if arr.op == "azero":
            return 0
        if arr.op == "aite":
            return ite(arr.a[0], select(arr.a[1], idx), select(arr.a[2], idx), 64)
        return _mk("sel", 64, (arr, idx))


def lo_of(x):
    return x.lo if isinstance(x, E) else x


def hi_of(x):
    return x.hi if isinstance(x, E) else x


def nz_of(x):
    return x.nz if isinstance(x, E) else x


def is_c(x):
    return isinstance(x, int)


# ---------------------------------------------------------------- arithmetic

def _split_const(x):
    """x == base + const (mod 2^w); base is None when x is a constant."""
    if isinstance(x, int):
        return None, x
    if x.op == "add" and isinstance(x.a[1], int):
        return x.a[0], x.a[1]
    return x, 0


def _addc(base, c, w):
    c &= full(w)
    if base is None:
        return c
    if c == 0:
        return base
    if base.op == "ite" and isinstance(base.a[1], int) and isinstance(base.a[2], int):
        return ite(base.a[0], (base.a[1] + c) & full(w), (base.a[2] + c) & full(w), w)
    m = full(w)
    nz = _addnz(base.nz, c, w)
    if base.hi + c <= m:
        return _mk("add", w, (base, c), base.lo + c, base.hi + c, nz)
    if base.lo + c > m:      # always wraps exactly once
        return _mk("add", w, (base, c), base.lo + c - m - 1, base.hi + c - m - 1, nz)
    return _mk("add", w, (base, c), 0, None, nz)


def _addnz(a, b, w):
    """possibly-set bits of a sum: low bits clear in both stay clear"""
    return full(w) & -((a | b) & -(a | b))


def add(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return (x + y) & full(w)
    bx, cx = _split_const(x)
    by, cy = _split_const(y)
    c = (cx + cy) & full(w)
    if bx is None:
        return _addc(by, c, w)
    if by is None:
        return _addc(bx, c, w)
    # x + (-x) cancellation
    if bx.op == "mul" and bx.a[1] == full(w) and bx.a[0] is by:
        return c
    if by.op == "mul" and by.a[1] == full(w) and by.a[0] is bx:
        return c
    r = _shrink(bx, by, w)
    if r is None:
        r = _shrink(by, bx, w)
    if r is not None:
        return add(r[0], c + r[1], w)
    # (p - q) + q  and friends: try linear cancellation on small sums only
    if by.op == "mul" or bx.op == "mul":
        r = _lin_combine(bx, by, w)
        if r is not None:
            b2, c2 = _split_const(r)
            return _addc(b2, c2 + c, w)
    if bx is by:
        return _addc(*_sc(mul(bx, 2, w)), w) if c == 0 else add(mul(bx, 2, w), c, w)
    r = _grow(bx, by, w)
    if r is None:
        r = _grow(by, bx, w)
    if r is not None:
        return add(r, c, w)
    # disjoint bits: or == add; keep add
    if _chain(bx) and not _chain(by):
        p, q = bx, by
    elif _chain(by) and not _chain(bx):
        p, q = by, bx
    elif bx.id <= by.id:
        p, q = bx, by
    else:
        p, q = by, bx
    hi = bx.hi + by.hi
    if hi <= full(w):
        s = _mk("add", w, (p, q), bx.lo + by.lo, hi, _addnz(p.nz, q.nz, w))
    else:
        s = _mk("add", w, (p, q), 0, None, _addnz(p.nz, q.nz, w))
    return _addc(s, c, w)


def _run_of(t):
    """t = k * (number of ones in bits [lo, lo+n) of a word): (word, lo, n, k)"""
    k = 1
    if t.op == "mul" and isinstance(t.a[1], int):
        k = t.a[1]
        t = t.a[0]
    if t.op == "ctpop":
        x = t.a[0]
    elif t.op == "zext" and t.a[0].w == 1:
        x = t.a[0]
    else:
        return None
    if x.op == "ext" and x.a[0].op in ("var", "sel"):
        return x.a[0], x.a[1], x.w, k
    if x.op in ("var", "sel") and x.w > 1:
        return x, 0, x.w, k
    return None


def _grow(s, t, w):
    """s + t where t extends a bit run counted by the last term of the sum s"""
    if w < 8:
        return None
    rt = _run_of(t)
    if rt is None:
        return None
    last = s.a[1] if s.op == "add" and isinstance(s.a[1], E) else s
    rl = _run_of(last)
    if rl is None or rl[0] is not rt[0] or rl[3] != rt[3]:
        return None
    if rl[1] + rl[2] == rt[1]:
        lo = rl[1]
    elif rt[1] + rt[2] == rl[1]:
        lo = rt[1]
    else:
        return None
    n = rl[2] + rt[2]
    u = mul(ctpop(extract(rl[0], lo, n), n, w), rl[3], w)
    if s is last:
        return u
    return add(s.a[0], u, w)


def _shrink(s, t, w):
    """s + t where t is the complement (or the negative) of a bit at an end of the run counted by the
    last term of s: (sum over the shorter run, constant)"""
    if w < 8:
        return None
    if t.op == "zext" and t.a[0].op == "not":
        b, c = t.a[0].a[0], 1
    elif t.op == "mul" and t.a[1] == full(w) and t.a[0].op == "zext":
        b, c = t.a[0].a[0], 0
    else:
        return None
    if b.w != 1 or b.op != "ext" or b.a[0].op not in ("var", "sel"):
        return None
    last = s.a[1] if s.op == "add" and isinstance(s.a[1], E) else s
    rl = _run_of(last)
    if rl is None or rl[0] is not b.a[0] or rl[3] != 1:
        return None
    x, lo, n, _ = rl
    if b.a[1] == lo:
        lo += 1
    elif b.a[1] != lo + n - 1:
        return None
    u = ctpop(extract(x, lo, n - 1), n - 1, w) if n > 1 else 0
    return (u if s is last else add(s.a[0], u, w)), c


def _sc(x):
    return _split_const(x)


def _chain(x):
    return x.op == "add"


def lin(x, w, limit=None):
    """Flatten x into ({atom: coeff}, const) modulo 2^w."""
    terms = {}
    const = 0
    stack = [(x, 1)]
    m = full(w)
    n = 0
    while stack:
        t, k = stack.pop()
        if isinstance(t, int):
            const = (const + k * t) & m
            continue
        if t.op == "add" and t.w == w:
            stack.append((t.a[0], k))
            stack.append((t.a[1], k))
            n += 1
            if limit is not None and n > limit:
                return None
            continue
        if t.op == "mul" and isinstance(t.a[1], int):
            stack.append((t.a[0], (k * t.a[1]) & m))
            continue
        if t.op == "zext" and t.a[0].op == "not":
            # 1 - b
            const = (const + k) & m
            t = zext(t.a[0].a[0], 1, t.w)
            k = -k & m
        v = (terms.get(t, 0) + k) & m
        if v:
            terms[t] = v
        else:
            terms.pop(t, None)
    return terms, const


def unlin(terms, const, w):
    r = 0
    # positive-coefficient unit terms first so bounds stay tight
    for t, k in sorted(terms.items(), key=lambda kv: (kv[1], kv[0].id)):
        if k == full(w) and 0 < const < 1 << (w - 1) and t.op == "zext" and t.a[0].w == 1:
            r = add_raw(r, zext(bnot(t.a[0]), 1, w), w)
            const -= 1
            continue
        r = add_raw(r, mul(t, k, w), w)
    return add_raw(r, const, w)


def add_raw(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return (x + y) & full(w)
    bx, cx = _split_const(x)
    by, cy = _split_const(y)
    c = (cx + cy) & full(w)
    if bx is None:
        return _addc(by, c, w)
    if by is None:
        return _addc(bx, c, w)
    hi = bx.hi + by.hi
    if hi <= full(w):
        s = _mk("add", w, (bx, by), bx.lo + by.lo, hi, _addnz(bx.nz, by.nz, w))
    else:
        s = _mk("add", w, (bx, by), 0, None, _addnz(bx.nz, by.nz, w))
    return _addc(s, c, w)


def _lin_combine(a, b, w):
    la = lin(a, w, 4000)
    lb = lin(b, w, 4000)
    if la is None or lb is None:
        return None
    ta, ca = la
    tb, cb = lb
    if len(ta) < len(tb):
        ta, tb = tb, ta
    common = [t for t in tb if t in ta]
    if not common:
        return None
    terms = dict(ta)
    changed = False
    for t, k in tb.items():
        v = (terms.get(t, 0) + k) & full(w)
        if t in terms:
            changed = True
        if v:
            terms[t] = v
        else:
            terms.pop(t, None)
    if not changed:
        return None
    return unlin(terms, (ca + cb) & full(w), w)


def neg(x, w):
    return mul(x, full(w), w)


def sub(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return (x - y) & full(w)
    if isinstance(y, int):
        return add(x, (-y) & full(w), w)
    if x is y:
        return 0
    bx, cx = _split_const(x)
    by, cy = _split_const(y)
    if bx is by:
        return (cx - cy) & full(w)
    if bx is not None:
        la = lin(x, w, 20000)
        lb = lin(y, w, 20000)
        if la is not None and lb is not None:
            ta, ca = la
            tb, cb = lb
            if any(t in ta for t in tb):
                terms = dict(ta)
                for t, k in tb.items():
                    v = (terms.get(t, 0) - k) & full(w)
                    if v:
                        terms[t] = v
                    else:
                        terms.pop(t, None)
                return unlin(terms, (ca - cb) & full(w), w)
    if is_c(x) and x == full(w):
        return xor(y, x, w)
    return add(x, neg(y, w), w)


def mul(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return (x * y) & full(w)
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return 0
        if y == 1:
            return x
        if w == 1:
            return x
        if x.op == "mul" and isinstance(x.a[1], int):
            return mul(x.a[0], (x.a[1] * y) & full(w), w)
        if x.op == "add" and isinstance(x.a[1], int):
            return add(mul(x.a[0], y, w), (x.a[1] * y) & full(w), w)
        if x.op == "add" and y == full(w) and x.w <= 64:
            pass
        if x.op == "ite" and isinstance(x.a[1], int) and isinstance(x.a[2], int):
            return ite(x.a[0], (x.a[1] * y) & full(w), (x.a[2] * y) & full(w), w)
        tz = (y & -y).bit_length() - 1
        if y & (y - 1) == 0 and x.op == "add" and x.hi * y <= full(w):
            pass
        if x.hi * y <= full(w):
            nz = None
            if y & (y - 1) == 0:
                nz = (x.nz << tz) & full(w)
            else:
                low = (x.nz & -x.nz).bit_length() - 1
                nz = full(w) & ~((1 << (tz + low)) - 1)
            return _mk("mul", w, (x, y), x.lo * y, x.hi * y, nz)
        nz = (x.nz << tz) & full(w) if y & (y - 1) == 0 else full(w) & ~((1 << tz) - 1)
        return _mk("mul", w, (x, y), 0, None, nz)
    if x.id > y.id:
        x, y = y, x
    if x.hi * y.hi <= full(w):
        return _mk("mul", w, (x, y), x.lo * y.lo, x.hi * y.hi)
    return _mk("mul", w, (x, y))


def udiv(x, y, w):
    if isinstance(y, int) and y:
        if isinstance(x, int):
            return x // y
        if y & (y - 1) == 0:
            return lshr(x, y.bit_length() - 1, w)
        if x.hi < y:
            return 0
        return _mk("udiv", w, (x, y), x.lo // y, x.hi // y)
    hy = lo_of(y)
    return _mk("udiv", w, (x, y), 0, hi_of(x) // hy if hy else None)


def urem(x, y, w):
    if isinstance(y, int) and y:
        if isinstance(x, int):
            return x % y
        if y & (y - 1) == 0:
            return and_(x, y - 1, w)
        if x.hi < y:
            return x
        return _mk("urem", w, (x, y), 0, y - 1)
    return _mk("urem", w, (x, y), 0, hi_of(x))


def _s(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def sdiv(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        a, b = _s(x, w), _s(y, w)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & full(w)
    if hi_of(x) < 1 << (w - 1) and hi_of(y) < 1 << (w - 1):
        return udiv(x, y, w)
    return _mk("sdiv", w, (x, y))


def srem(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        a, b = _s(x, w), _s(y, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & full(w)
    if hi_of(x) < 1 << (w - 1) and hi_of(y) < 1 << (w - 1):
        return urem(x, y, w)
    return _mk("srem", w, (x, y))


# ---------------------------------------------------------------- shifts / bits

def shl(x, k, w):
    if isinstance(k, int):
        if k == 0:
            return x
        if k >= w:
            return 0
        if isinstance(x, int):
            return (x << k) & full(w)
        if x.op in ("or", "concat", "zext", "ext", "and", "shl", "lshr", "sel", "var", "ite"):
            return shl_bits(x, k, w)
        if x.nz >> (w - k):
            # bits may be lost: drop them first so the structure stays visible
            return concat(extract(x, 0, w - k), w - k, 0, k)
        return mul(x, 1 << k, w)
    if isinstance(x, int) and x == 0:
        return 0
    if isinstance(k, E) and k.hi < w:
        hi = hi_of(x) << k.hi
        return _mk("shl", w, (x, k), (lo_of(x) << k.lo) if hi <= full(w) else 0, hi if hi <= full(w) else None)
    return _mk("shl", w, (x, k))


def shl_bits(x, k, w):
    return concat(extract(x, 0, w - k), w - k, 0, k)


def lshr(x, k, w):
    if isinstance(k, int):
        if k == 0:
            return x
        if k >= w:
            return 0
        return zext(extract(x, k, w - k), w - k, w)
    if isinstance(x, int) and x == 0:
        return 0
    return _mk("lshr", w, (x, k), lo_of(x) >> min(hi_of(k), w) if hi_of(k) < w else 0, hi_of(x) >> lo_of(k) if lo_of(k) < w else None)


def ashr(x, k, w):
    if isinstance(k, int):
        if k == 0:
            return x
        if isinstance(x, int):
            return (_s(x, w) >> min(k, w - 1)) & full(w)
        if k < w:
            return sext(extract(x, k, w - k), w - k, w)
    if hi_of(x) < 1 << (w - 1):
        return lshr(x, k, w)
    return _mk("ashr", w, (x, k))


def zext(x, w0, w):
    if isinstance(x, int) or w0 == w:
        return x
    if x.op == "zext":
        return _mk("zext", w, x.a, x.lo, x.hi, x.nz)
    if x.op == "add" and _noovf_add(x):
        p = zext(x.a[0], w0, w)
        q = zext(x.a[1], w0, w) if isinstance(x.a[1], E) else x.a[1]
        return add(p, q, w)
    if x.op == "mul" and isinstance(x.a[1], int) and x.a[0].hi * x.a[1] <= full(w0):
        return mul(zext(x.a[0], w0, w), x.a[1], w)
    if x.op == "ite" and isinstance(x.a[1], int) and isinstance(x.a[2], int):
        return ite(x.a[0], x.a[1], x.a[2], w)
    if x.op == "ctpop":
        return ctpop(x.a[0], x.a[1], w)
    return _mk("zext", w, (x,), x.lo, x.hi, x.nz)


def _noovf_add(x):
    return hi_of(x.a[0]) + hi_of(x.a[1]) <= full(x.w)


def sext(x, w0, w):
    if w0 == w:
        return x
    if isinstance(x, int):
        return _s(x, w0) & full(w)
    if x.hi < 1 << (w0 - 1):
        return zext(x, w0, w)
    if w0 == 1:
        return ite(x, full(w), 0, w)
    return _mk("sext", w, (x,))


def trunc(x, w0, w):
    return extract(x, 0, w, w0)


def _lowmax(x, n):
    """upper bound of the low n bits"""
    if isinstance(x, int):
        return x & full(n)
    return min(x.hi, x.nz & full(n)) if x.hi <= full(n) else x.nz & full(n)


def extract(x, lo, w, w0=None):
    """bits [lo, lo+w) of x"""
    if isinstance(x, int):
        return (x >> lo) & full(w)
    if lo == 0 and w == x.w:
        return x
    if (x.nz >> lo) & full(w) == 0:
        return 0
    if lo >= x.w:
        return 0
    assert lo + w <= x.w or True
    op = x.op
    if op == "ext":
        return extract(x.a[0], lo + x.a[1], w)
    if op == "zext":
        y = x.a[0]
        if lo >= y.w:
            return 0
        if lo + w <= y.w:
            return extract(y, lo, w)
        return zext(extract(y, lo, y.w - lo), y.w - lo, w)
    if op == "concat":
        h, l, lw = x.a
        hw = x.w - lw
        if lo >= lw:
            return extract(h, lo - lw, w)
        if lo + w <= lw:
            return extract(l, lo, w)
        return concat(extract(h, 0, lo + w - lw), lo + w - lw, extract(l, lo, lw - lo), lw - lo)
    if op in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return f(extract(x.a[0], lo, w), extract(x.a[1], lo, w), w)
    if op == "clr" and lo == 0:
        return clr(extract(x.a[0], 0, w), x.a[1], w)
    if op == "clr" and w == 1:
        y, r = x.a
        return and_(extract(y, lo, 1), bnot(ult(ctpop(extract(y, 0, lo), lo, RW) if lo else 0, r, RW)), 1)
    if op == "ite":
        if lo == 0 or isinstance(x.a[1], int) or isinstance(x.a[2], int) or w == 1:
            return ite(x.a[0], extract(x.a[1], lo, w), extract(x.a[2], lo, w), w)
    if lo == 0 and op == "add":
        if x.hi <= full(w) and _noovf_add(x):
            return add(extract(x.a[0], 0, w), extract(x.a[1], 0, w), w)
        if isinstance(x.a[1], int) or x.w <= 128:
            return add(extract(x.a[0], 0, w), extract(x.a[1], 0, w), w)
    if lo and op == "add" and _lowmax(x.a[0], lo) + _lowmax(x.a[1], lo) <= full(lo):
        return add(extract(x.a[0], lo, w), extract(x.a[1], lo, w), w)
    if lo == 0 and op == "mul":
        return mul(extract(x.a[0], 0, w), extract(x.a[1], 0, w), w)
    if lo == 0 and op == "ctpop" and x.hi <= full(w):
        return ctpop(x.a[0], x.a[1], w)
    if op == "mul" and isinstance(x.a[1], int) and x.a[1] & (x.a[1] - 1) == 0:
        tz = x.a[1].bit_length() - 1
        b = x.a[0]
        # x = b << tz
        if lo >= tz:
            if lo - tz + w <= b.w:
                return extract(b, lo - tz, w)
            return zext(extract(b, lo - tz, b.w - (lo - tz)), b.w - (lo - tz), w) if lo - tz < b.w else 0
        if lo + w > tz:
            n = lo + w - tz
            return concat(extract(b, 0, n), n, 0, tz - lo)
        return 0
    if op == "shl" and lo == 0 and not isinstance(x.a[1], int):
        pass
    if op == "sext":
        y = x.a[0]
        if lo + w <= y.w:
            return extract(y, lo, w)
    hi = min(full(w), x.hi >> lo)
    l = 0
    if lo == 0 and x.hi <= full(w):
        l = x.lo
    return _mk("ext", w, (x, lo), l, hi, (x.nz >> lo) & full(w))


def concat(h, hw, l, lw):
    """h:l with widths hw, lw"""
    if hw == 0:
        return l
    if lw == 0:
        return h
    w = hw + lw
    if isinstance(h, int) and isinstance(l, int):
        return (h << lw) | l
    if isinstance(h, int) and h == 0:
        return zext(l, lw, w)
    # merge adjacent extracts of the same source
    if isinstance(h, E) and isinstance(l, E):
        hs, hl = (h.a[0], h.a[1]) if h.op == "ext" else (h, 0)
        ls, ll = (l.a[0], l.a[1]) if l.op == "ext" else (l, 0)
        if hs is ls and hl == ll + lw:
            return extract(hs, ll, w)
        if h.op == "ext" and hl >= lw and hs.op == "add" and l.op in ("add", "ext") and extract(hs, hl - lw, lw) is l:
            return extract(hs, hl - lw, w)    # low bits of a sum are simplified on their own
        if h.op == "zext":
            # zext(y):l -> zext(y:l)
            return zext(concat(h.a[0], h.a[0].w, l, lw), h.a[0].w + lw, w)
        if l.op == "concat":
            pass
        if h.op == "concat":
            # right-nest: (a:b):l -> a:(b:l)
            a, b, bw = h.a
            return concat(a, hw - bw, concat(b, bw, l, lw), bw + lw)
        if l.op == "concat":
            # h:(a:b): try to merge h with a
            a, b, bw = l.a
            if isinstance(a, E):
                if h.op == "ext" and hl >= a.w and hs.op == "add" and a.op in ("add", "ext") and extract(hs, hl - a.w, a.w) is a:
                    return concat(extract(hs, hl - a.w, hw + a.w), hw + a.w, b, bw)
                as_, al = (a.a[0], a.a[1]) if a.op == "ext" else (a, 0)
                if hs is as_ and hl == al + (lw - bw):
                    return concat(extract(hs, al, hw + lw - bw), hw + lw - bw, b, bw)
    elif isinstance(h, E) and h.op == "zext":
        return zext(concat(h.a[0], h.a[0].w, l, lw), h.a[0].w + lw, w)
    elif isinstance(h, E) and h.op == "concat":
        a, b, bw = h.a
        return concat(a, hw - bw, concat(b, bw, l, lw), bw + lw)
    elif isinstance(h, int) and isinstance(l, E) and l.op == "concat" and isinstance(l.a[0], int):
        a, b, bw = l.a
        aw = lw - bw
        return concat((h << aw) | a, hw + aw, b, bw)
    return _mk("concat", w, (h, l, lw), (lo_of(h) << lw) + lo_of(l), (hi_of(h) << lw) + hi_of(l), (nz_of(h) << lw) | nz_of(l))


def _mask_runs(m, w):
    """runs of ones in m: list of (lo, len)"""
    out = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def and_(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return x & y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        y &= x.nz if x.nz | y != full(w) else y
        if y & x.nz == 0:
            return 0
        if (x.nz & ~y) == 0:
            return x
        if w == 1:
            return x if y else 0
        runs = _mask_runs(y & x.nz, w)
        if len(runs) == 1:
            l, n = runs[0]
            return concat(0, w - l - n, concat(extract(x, l, n), n, 0, l), n + l) if l + n < w else concat(extract(x, l, n), n, 0, l)
        if len(runs) <= 3:
            r = 0
            pos = 0
            for l, n in runs:
                r = concat(extract(x, l, n), n, concat(0, l - pos, r, pos) if pos else 0, l)
                pos = l + n
            return concat(0, w - pos, r, pos)
        if x.op == "and" and isinstance(x.a[1], int):
            return and_(x.a[0], x.a[1] & y, w)
        return _mk("and", w, (x, y), 0, min(x.hi, y), x.nz & y)
    if x is y:
        return x
    if is_not(x, y):
        return 0
    if x.nz & y.nz == 0:
        return 0
    if w == 1:
        return band(x, y)
    for p, q in ((x, y), (y, x)):
        if q.op == "add" and q.a[0] is p and isinstance(q.a[1], int) and q.a[1] == full(w):
            return clr(p, 1, w)
    if x.op == "sext" and x.a[0].w == 1:
        return ite(x.a[0], y, 0, w)
    if x.id > y.id:
        x, y = y, x
    r = _structured(and_, x, y, w)
    if r is not None:
        return r
    return _mk("and", w, (x, y), 0, min(x.hi, y.hi), x.nz & y.nz)


def band(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == "and" and (p.a[0] is q or p.a[1] is q):
            return p
        if p.op == "and" and (is_not(p.a[0], q) or is_not(p.a[1], q)):
            return 0
        n = bnot(q)
        if n.op == "and" and (n.a[0] is p or n.a[1] is p):
            # p and not(p and z) = p and not z
            z = n.a[1] if n.a[0] is p else n.a[0]
            return and_(p, bnot(z), 1)
    if x.id > y.id:
        x, y = y, x
    return _mk("and", 1, (x, y))


def _structured(f, x, y, w):
    """Split a bitwise op along concat/zext boundaries when a part becomes trivial."""
    for p, q in ((x, y), (y, x)):
        if p.op == "zext" and p.w == w and p.a[0].w < w:
            pw = p.a[0].w
            if f is and_:
                return zext(and_(p.a[0], extract(q, 0, pw), pw), pw, w)
            if q.nz >> pw == 0:
                return zext(f(p.a[0], extract(q, 0, pw), pw), pw, w)
            if q.op == "concat":
                lw = q.a[2]
                return concat(f(extract(x, lw, w - lw), extract(y, lw, w - lw), w - lw), w - lw,
                              f(extract(x, 0, lw), extract(y, 0, lw), lw), lw)
    for p, q in ((x, y), (y, x)):
        if p.op == "concat" and (q.op in ("concat", "zext", "var", "sel", "ext") or isinstance(p.a[1], int) or isinstance(p.a[0], int)):
            lw = p.a[2]
            return concat(f(extract(x, lw, w - lw), extract(y, lw, w - lw), w - lw), w - lw,
                          f(extract(x, 0, lw), extract(y, 0, lw), lw), lw)
    return None


def or_(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return x | y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return x
        if y == full(w):
            return y
        runs = _mask_runs(y, w)
        if x.nz & y == 0 and (x.op in ("add", "mul") or len(runs) > 2):
            return add(x, y, w)          # nothing to carry
        if len(runs) <= 2:
            # set a run of bits: rebuild as concat
            parts = []
            pos = 0
            for l, n in runs:
                if l > pos:
                    parts.append((extract(x, pos, l - pos), l - pos))
                parts.append((full(n), n))
                pos = l + n
            if pos < w:
                parts.append((extract(x, pos, w - pos), w - pos))
            r, rw = parts[0]
            for v, n in parts[1:]:
                r = concat(v, n, r, rw)
                rw += n
            return r
        return _mk("or", w, (x, y), max(x.lo, y), None, x.nz | y)
    if x is y:
        return x
    if is_not(x, y):
        return full(w)
    if w == 1:
        return bnot(and_(bnot(x), bnot(y), 1))
    if x.nz & y.nz == 0:
        # disjoint: concatenate when ranges do not interleave
        for p, q in ((x, y), (y, x)):
            top = q.nz.bit_length()
            low = (p.nz & -p.nz).bit_length() - 1
            if top <= low:
                return concat(extract(p, low, w - low), w - low, extract(q, 0, low), low)
    r = _structured(or_, x, y, w)
    if r is not None:
        return r
    if x.nz & y.nz == 0:
        for p, q in ((x, y), (y, x)):
            if p.op == "concat":
                lw = p.a[2]
                return concat(or_(extract(x, lw, w - lw), extract(y, lw, w - lw), w - lw), w - lw,
                              or_(extract(x, 0, lw), extract(y, 0, lw), lw), lw)
    if x.nz & y.nz == 0 and (x.op in ("add", "mul") or y.op in ("add", "mul")):
        return add(x, y, w)
    if x.id > y.id:
        x, y = y, x
    return _mk("or", w, (x, y), max(x.lo, y.lo), None, x.nz | y.nz)


def xor(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return x ^ y
    if isinstance(x, int):
        x, y = y, x
    if isinstance(y, int):
        if y == 0:
            return x
        if w == 1:
            return bnot(x)
        if x.op == "xor" and isinstance(x.a[1], int):
            return xor(x.a[0], x.a[1] ^ y, w)
        if y == full(w) and x.op == "concat":
            h, l, lw = x.a
            return concat(xor(h, full(w - lw), w - lw), w - lw, xor(l, full(lw), lw), lw)
        runs = _mask_runs(y, w)
        if len(runs) == 1 and runs[0][1] < w:
            l, n = runs[0]
            mid = xor(extract(x, l, n), full(n), n)
            r = concat(mid, n, extract(x, 0, l), l)
            return concat(extract(x, l + n, w - l - n), w - l - n, r, l + n)
        return _mk("xor", w, (x, y), 0, None, x.nz | y)
    if x is y:
        return 0
    if is_not(x, y):
        return full(w)
    if w == 1:
        # canonical: boolean inequality
        if x.op == "not" and y.op == "not":
            return xor(x.a[0], y.a[0], 1)
        if x.op == "not":
            return bnot(xor(x.a[0], y, 1))
        if y.op == "not":
            return bnot(xor(x, y.a[0], 1))
        if x.op == "xor":
            if x.a[0] is y:
                return x.a[1]
            if x.a[1] is y:
                return x.a[0]
        if y.op == "xor":
            if y.a[0] is x:
                return y.a[1]
            if y.a[1] is x:
                return y.a[0]
    for p, q in ((x, y), (y, x)):
        if q.op == "and" and isinstance(q.a[1], E) and (q.a[0] is p and is_neg(q.a[1], p) or q.a[1] is p and is_neg(q.a[0], p)):
            return clr(p, 1, w)
    r = _structured(xor, x, y, w)
    if r is not None:
        return r
    if x.id > y.id:
        x, y = y, x
    return _mk("xor", w, (x, y), 0, None, x.nz | y.nz)


def not_(x, w):
    return xor(x, full(w), w)


def bnot(x):
    if isinstance(x, int):
        return x ^ 1
    n = x._neg
    if n is not None:
        return n
    if x.op == "not":
        n = x.a[0]
    else:
        n = _mk("not", 1, (x,))
    x._neg = n
    n._neg = x
    return n


def is_not(x, y):
    return isinstance(x, E) and isinstance(y, E) and x.w == 1 and bnot(x) is y


# ---------------------------------------------------------------- predicates

def eq(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return int(x == y)
    if x is y:
        return 1
    if isinstance(x, int):
        x, y = y, x
    if hi_of(x) < lo_of(y) or hi_of(y) < lo_of(x):
        return 0
    if w == 1:
        if isinstance(y, int):
            return x if y else bnot(x)
        return bnot(xor(x, y, 1))
    if isinstance(y, int):
        if y & ~x.nz:
            return 0
        if x.op == "zext":
            return eq(x.a[0], y, x.a[0].w)
        if x.op == "add" and isinstance(x.a[1], int):
            return eq(x.a[0], (y - x.a[1]) & full(w), w)
        if x.op == "mul" and isinstance(x.a[1], int) and x.a[0].hi * x.a[1] <= full(w):
            if y % x.a[1]:
                return 0
            return eq(x.a[0], y // x.a[1], w)
        if x.op == "ite":
            c, a, b = x.a
            if isinstance(a, int) or isinstance(b, int):
                ea = eq(a, y, w)
                eb = eq(b, y, w)
                return ite(c, ea, eb, 1)
        if x.op == "concat":
            h, l, lw = x.a
            return and_(eq(h, y >> lw, w - lw), eq(l, y & full(lw), lw), 1)
        if x.op == "xor" and isinstance(x.a[1], int):
            return eq(x.a[0], x.a[1] ^ y, w)
        if x.op == "clr" and y == 0:
            return bnot(ult(x.a[1], ctpop(x.a[0], w, RW), RW))
        if x.op == "cttz" and y != x.a[1]:
            return first_at(x.a[0], y, x.w) if y < x.w else 0
        if x.op == "and" and y == x.a[1] and isinstance(y, int) and y & (y - 1) == 0:
            return extract(x.a[0], y.bit_length() - 1, 1)
        return _mk("eq", 1, (x, y))
    # both symbolic
    if x.op == "zext" and y.op == "zext" and x.a[0].w == y.a[0].w:
        return eq(x.a[0], y.a[0], x.a[0].w)
    if x.op == "concat" and y.op == "concat" and x.a[2] == y.a[2]:
        lw = x.a[2]
        return and_(eq(x.a[0], y.a[0], w - lw), eq(x.a[1], y.a[1], lw), 1)
    if x.op in ("add", "mul") or y.op in ("add", "mul"):
        bx, cx = _split_const(x)
        by, cy = _split_const(y)
        if bx is by:
            return int(cx == cy)
        la = lin(x, w, 50000)
        lb = lin(y, w, 50000)
        if la is not None and lb is not None:
            ta, ca = la
            tb, cb = lb
            if any(t in ta for t in tb):
                ra = dict(ta)
                rb = dict(tb)
                for t in list(rb):
                    if t in ra:
                        if ra[t] == rb[t]:
                            del ra[t]
                            del rb[t]
                        else:
                            v = (ra[t] - rb[t]) & full(w)
                            ra[t] = v
                            del rb[t]
                c = (ca - cb) & full(w)
                xa = unlin(ra, c, w)
                xb = unlin(rb, 0, w)
                if isinstance(xa, int) and isinstance(xb, int):
                    return int(xa == xb)
                if isinstance(xa, int) or isinstance(xb, int):
                    return eq(xa, xb, w)
                x, y = xa, xb
                if x is y:
                    return 1
                if hi_of(x) < lo_of(y) or hi_of(y) < lo_of(x):
                    return 0
    if x.id > y.id:
        x, y = y, x
    return _mk("eq", 1, (x, y))


def ne(x, y, w):
    return bnot(eq(x, y, w))


def ult(x, y, w):
    if isinstance(x, int) and isinstance(y, int):
        return int(x < y)
    if x is y:
        return 0
    if hi_of(x) < lo_of(y):
        return 1
    if lo_of(x) >= hi_of(y):
        return 0
    if w == 1:
        return and_(bnot(x), y, 1)
    if isinstance(y, int):
        if y == 1:
            return eq(x, 0, w)
        if x.op == "zext":
            return ult(x.a[0], y, x.a[0].w)
        if x.op == "mul" and isinstance(x.a[1], int) and x.a[0].hi * x.a[1] <= full(w):
            return ult(x.a[0], -(-y // x.a[1]), w)
        if x.op == "ite" and (isinstance(x.a[1], int) or isinstance(x.a[2], int)):
            return ite(x.a[0], ult(x.a[1], y, w), ult(x.a[2], y, w), 1)
        if x.op == "add" and isinstance(x.a[1], int) and x.a[0].hi + x.a[1] <= full(w):
            return ult(x.a[0], y - x.a[1], w) if y > x.a[1] else 0
        if y & (y - 1) == 0:
            k = y.bit_length() - 1
            return eq(extract(x, k, w - k), 0, w - k)
        if x.op == "concat" and isinstance(x.a[1], int):
            h, l, lw = x.a
            # h:l < y
            yh, yl = y >> lw, y & full(lw)
            if l < yl:
                return ult(h, yh + 1, w - lw) if yh + 1 <= full(w - lw) else 1
            return ult(h, yh, w - lw) if yh else 0
        return _mk("ult", 1, (x, y))
    if isinstance(x, int):
        if x == 0:
            return ne(y, 0, w)
        # x < y  <=> not (y < x+1)
        if x + 1 <= full(w):
            return bnot(ult(y, x + 1, w))
        return 0
    if x.op == "zext" and y.op == "zext" and x.a[0].w == y.a[0].w:
        return ult(x.a[0], y.a[0], x.a[0].w)
    # x < x + d without overflow etc.
    if x.op in ("add",) or y.op in ("add",):
        r = _ult_lin(x, y, w)
        if r is not None:
            return r
    return _mk("ult", 1, (x, y))


def _exact(terms, const, w):
    """True when sum(coeff*hi)+const fits in w bits: the modular sum is the integer sum."""
    s = const
    for t, k in terms.items():
        s += t.hi * k
        if s > full(w):
            return False
    return True


def _ult_lin(x, y, w):
    la = lin(x, w, 50000)
    lb = lin(y, w, 50000)
    if la is None or lb is None:
        return None
    ta, ca = la
    tb, cb = lb
    if not any(t in ta for t in tb) and not (ca and cb):
        return None
    if not _exact(ta, ca, w) or not _exact(tb, cb, w):
        return None
    # cancel common integer terms on both sides
    ra, rb = dict(ta), dict(tb)
    for t in list(rb):
        if t in ra:
            k = min(ra[t], rb[t])
            for r in (ra, rb):
                r[t] -= k
                if not r[t]:
                    del r[t]
    k = min(ca, cb)
    ca -= k
    cb -= k
    xa = unlin(ra, ca, w)
    xb = unlin(rb, cb, w)
    if isinstance(xa, int) or isinstance(xb, int):
        return ult(xa, xb, w)
    if hi_of(xa) < lo_of(xb):
        return 1
    if lo_of(xa) >= hi_of(xb):
        return 0
    return _mk("ult", 1, (xa, xb))


def ule(x, y, w):
    return bnot(ult(y, x, w))


def slt(x, y, w):
    S = 1 << (w - 1)
    if isinstance(x, int) and isinstance(y, int):
        return int((x ^ S) < (y ^ S))
    if hi_of(x) < S and hi_of(y) < S:
        return ult(x, y, w)
    if lo_of(x) >= S and lo_of(y) >= S:
        return ult(x, y, w)
    if hi_of(x) < S and lo_of(y) >= S:
        return 0
    if lo_of(x) >= S and hi_of(y) < S:
        return 1
    if isinstance(y, int) and y == 0:
        return extract(x, w - 1, 1)
    if isinstance(x, int) and x == full(w):
        return bnot(extract(y, w - 1, 1))
    return _mk("slt", 1, (x, y))


# ---------------------------------------------------------------- ite

def ite(c, x, y, w):
    if isinstance(c, int):
        return x if c else y
    if isinstance(x, int) and isinstance(y, int):
        if x == y:
            return x
    elif x is y:
        return x
    if c.op == "not":
        return ite(c.a[0], y, x, w)
    if w == 1:
        if isinstance(x, int) and isinstance(y, int):
            return c if x else bnot(c)
        if isinstance(x, int):
            return or_(c, y, 1) if x else and_(bnot(c), y, 1)
        if isinstance(y, int):
            return or_(bnot(c), x, 1) if y else and_(c, x, 1)
        if x is c:
            return or_(c, y, 1)
        if y is c:
            return and_(c, x, 1)
        if is_not(x, y):
            return bnot(xor(c, x, 1))
    # collapse nested ite on the same condition
    if isinstance(x, E) and x.op == "ite" and x.a[0] is c:
        x = x.a[1]
    if isinstance(y, E) and y.op == "ite" and y.a[0] is c:
        y = y.a[2]
    if isinstance(x, int) and isinstance(y, int) and x == y or x is y:
        return x
    if w > 1:
        if isinstance(x, E) and isinstance(y, E) and (x.op == "clr" or y.op == "clr"):
            bx, cx = x.a if x.op == "clr" else (x, 0)
            by, cy = y.a if y.op == "clr" else (y, 0)
            if bx is y:
                by, cy = y, 0
            if by is x:
                bx, cx = x, 0
            if bx is by:
                return clr(bx, ite(c, cx, cy, RW), w)
        bx, cx = _split_const(x)
        by, cy = _split_const(y)
        if bx is by:
            d = (cx - cy) & full(w)
            if d == 1:
                return add(y, zext(c, 1, w), w)
            if d == full(w):
                return add(y, neg(zext(c, 1, w), w), w)
        # ite(c, x + t, x) -> x + ite(c, t, 0)
        if isinstance(x, E) and isinstance(y, E) and x.op == "add" and (x.a[0] is y or x.a[1] is y) and isinstance(x.a[1], E):
            t = x.a[1] if x.a[0] is y else x.a[0]
            return add(y, ite(c, t, 0, w), w)
        # structural: share concat skeletons
        for p, q in ((x, y), (y, x)):
            if isinstance(p, E) and p.op == "concat":
                h, l, lw = p.a
                qh, ql = extract(q, lw, w - lw), extract(q, 0, lw)
                if qh is h or ql is l or (isinstance(qh, int) and isinstance(h, int) and qh == h) or (isinstance(l, int) and isinstance(ql, int) and l == ql):
                    xh, xl = extract(x, lw, w - lw), extract(x, 0, lw)
                    yh, yl = extract(y, lw, w - lw), extract(y, 0, lw)
                    return concat(ite(c, xh, yh, w - lw), w - lw, ite(c, xl, yl, lw), lw)
    return _mk("ite", w, (c, x, y), min(lo_of(x), lo_of(y)), max(hi_of(x), hi_of(y)), nz_of(x) | nz_of(y))


# ---------------------------------------------------------------- popcount etc.

def ctpop(x, w0, w=None):
    """number of ones in the w0-bit x, as a w-bit value (w defaults to w0)"""
    if w is None:
        w = w0
    if isinstance(x, int):
        return bin(x).count("1") & full(w)
    if w0 == 1:
        return zext(x, 1, w)
    if x.op == "zext":
        return ctpop(x.a[0], x.a[0].w, w)
    if x.op == "concat":
        h, l, lw = x.a
        hw = x.w - lw
        if full(w) >= w0:
            return add(ctpop(h, hw, w), ctpop(l, lw, w), w)
    if x.op == "xor" and x.a[1] == full(w0) and x.w == w0 and full(w) >= w0:
        return sub(w0, ctpop(x.a[0], w0, w), w)
    if x.op == "ite" and x.w == w0:
        return ite(x.a[0], ctpop(x.a[1], w0, w), ctpop(x.a[2], w0, w), w)
    if x.op == "clr" and x.w == w0 and full(w) >= w0 and w <= 64:
        y, r = x.a
        n = ctpop(y, w0, w)
        return ite(ult(r, ctpop(y, w0, RW), RW), sub(n, extract(r, 0, w) if w <= RW else zext(r, RW, w), w), 0, w)
    n = bin(x.nz).count("1")
    return _mk("ctpop", w, (x, w0), 1 if x.lo > 0 else 0, min(n, full(w)))


def ctlz(x, w):
    if isinstance(x, int):
        return w - x.bit_length()
    r = _mk("ctlz", w, (x,), w - x.hi.bit_length(), w - x.lo.bit_length())
    return r


def cttz(x, w, d=None):
    """position of the lowest one, or d (default: the width) if there is none"""
    if d is None:
        d = w
    if isinstance(x, int):
        return d if x == 0 else (x & -x).bit_length() - 1
    if x.op == "and" and isinstance(x.a[1], E):
        for p, q in (x.a, x.a[::-1]):
            if is_neg(q, p):
                x = p
                break
    lo, hi = (x.nz & -x.nz).bit_length() - 1, x.nz.bit_length() - 1
    return _mk("cttz", w, (x, d), min(lo, d), max(hi, d))


def first_at(x, k, w):
    """is bit k the lowest one of x?"""
    while isinstance(x, E) and x.op == "zext":
        x = x.a[0]
        if k >= x.w:
            return 0
    if x.op == "clr":
        y, r = x.a
        return and_(extract(y, k, 1), eq(ctpop(extract(y, 0, k), k, RW) if k else 0, r, RW), 1)
    return and_(extract(x, k, 1), eq(extract(x, 0, k), 0, k) if k else 1, 1)


RW = 64         # width of the counts in clr


def clr(x, r, w):
    """x without its lowest r ones; r is RW bits wide"""
    if isinstance(r, int):
        if r == 0:
            return x
        if isinstance(x, int):
            for _ in range(min(r, w)):
                x &= x - 1 if x else 0
            return x
    if w == 1:
        return and_(x, eq(r, 0, RW), 1)
    if isinstance(x, int):
        return _mk("clr", w, (x, r), 0, x, x) if x else 0
    if lo_of(r) >= bin(x.nz).count("1"):
        return 0
    if x.op == "clr" and hi_of(x.a[1]) + hi_of(r) <= full(RW):
        return clr(x.a[0], add(x.a[1], r, RW), w)
    if x.op == "zext":
        return zext(clr(x.a[0], r, x.a[0].w), x.a[0].w, w)
    return _mk("clr", w, (x, r), 0, x.hi, x.nz)


def is_neg(x, y):
    return x.op == "mul" and x.a[0] is y and isinstance(x.a[1], int) and x.a[1] == full(x.w)


def bswap(x, w):
    r = None
    for i in range(0, w, 8):
        b = extract(x, i, 8)
        r = b if r is None else concat(r, i, b, 8)
    return r


# ---------------------------------------------------------------- evaluation

def evaluate(e, env, memo=None):
    """Evaluate under env: name -> int for vars, name -> (default, {idx: val}) for arrays."""
    if isinstance(e, int):
        return e
    if memo is None:
        memo = {}
    stack = [e]
    while stack:
        t = stack[-1]
        if t.id in memo:
            stack.pop()
            continue
        todo = [x for x in t.a if isinstance(x, E) and x.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        g = lambda x: memo[x.id] if isinstance(x, E) else x
        memo[t.id] = _ev(t, g, env)
        stack.pop()
    return memo[e.id]


def _ev(t, g, env):
    op, w, a = t.op, t.w, t.a
    m = full(w)
    if op == "var":
        return env.get(a[0], 0) & m
    if op == "avar":
        d, t_ = env.get(a[0], (0, {}))
        return (d, dict(t_))
    if op == "azero":
        return (0, {})
    if op == "store":
        d, tb = g(a[0])
        tb = dict(tb)
        tb[g(a[1])] = g(a[2])
        return (d, tb)
    if op == "aite":
        return g(a[1]) if g(a[0]) else g(a[2])
    if op == "sel":
        d, tb = g(a[0])
        return tb.get(g(a[1]), d)
    if op == "add":
        return (g(a[0]) + g(a[1])) & m
    if op == "mul":
        return (g(a[0]) * g(a[1])) & m
    if op == "udiv":
        return g(a[0]) // g(a[1]) if g(a[1]) else m
    if op == "urem":
        return g(a[0]) % g(a[1]) if g(a[1]) else g(a[0])
    if op == "sdiv":
        return sdiv(g(a[0]), g(a[1]), w) if g(a[1]) else (1 if g(a[0]) >> (w - 1) else m)
    if op == "srem":
        return srem(g(a[0]), g(a[1]), w) if g(a[1]) else g(a[0])
    if op == "shl":
        k = g(a[1])
        return (g(a[0]) << k) & m if k < w else 0
    if op == "lshr":
        k = g(a[1])
        return g(a[0]) >> k if k < w else 0
    if op == "ashr":
        return (_s(g(a[0]), w) >> min(g(a[1]), w - 1)) & m
    if op == "and":
        return g(a[0]) & g(a[1])
    if op == "or":
        return g(a[0]) | g(a[1])
    if op == "xor":
        return g(a[0]) ^ g(a[1])
    if op == "not":
        return g(a[0]) ^ 1
    if op == "zext":
        return g(a[0])
    if op == "sext":
        return _s(g(a[0]), a[0].w) & m
    if op == "ext":
        return (g(a[0]) >> a[1]) & m
    if op == "concat":
        return (g(a[0]) << a[2]) | g(a[1])
    if op == "eq":
        return int(g(a[0]) == g(a[1]))
    if op == "ult":
        return int(g(a[0]) < g(a[1]))
    if op == "slt":
        ww = a[0].w if isinstance(a[0], E) else a[1].w
        S = 1 << (ww - 1)
        return int((g(a[0]) ^ S) < (g(a[1]) ^ S))
    if op == "ite":
        return g(a[1]) if g(a[0]) else g(a[2])
    if op == "ctpop":
        return bin(g(a[0])).count("1") & m
    if op == "ctlz":
        return w - g(a[0]).bit_length()
    if op == "cttz":
        x = g(a[0])
        return a[1] if x == 0 else (x & -x).bit_length() - 1
    if op == "clr":
        return clr(g(a[0]), g(a[1]), w)
    raise NotImplementedError(op)


_bits = {}


def bits_of(e):
    """frozenset of (variable id, bit) below e; None when arrays are involved (cached)"""
    r = _bits.get(e.id, 0)
    if r != 0:
        return r
    stack = [e]
    while stack:
        t = stack[-1]
        if t.id in _bits:
            stack.pop()
            continue
        if t.op == "var":
            _bits[t.id] = frozenset((t.id, k) for k in range(t.w))
        elif t.op in ("avar", "azero", "store", "aite", "sel"):
            _bits[t.id] = None
        elif t.op == "ext" and t.a[0].op == "var":
            _bits[t.id] = frozenset((t.a[0].id, k) for k in range(t.a[1], t.a[1] + t.w))
        else:
            ks = [x for x in t.a if isinstance(x, E)]
            todo = [x for x in ks if x.id not in _bits]
            if todo:
                stack.extend(todo)
                continue
            bs = [_bits[x.id] for x in ks]
            _bits[t.id] = None if any(b is None for b in bs) else frozenset().union(*bs)
        stack.pop()
    return _bits[e.id]


def vars_of(e):
    """frozenset of variable (and array) node ids below e (cached)."""
    if isinstance(e, int):
        return frozenset()
    if e._vars is not None:
        return e._vars
    stack = [e]
    while stack:
        t = stack[-1]
        if t._vars is not None:
            stack.pop()
            continue
        if t.op in ("var", "avar"):
            t._vars = frozenset((t.id,))
            stack.pop()
            continue
        todo = [x for x in t.a if isinstance(x, E) and x._vars is None]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        for x in t.a:
            if isinstance(x, E):
                if not x._vars <= s:
                    s = s | x._vars if s else x._vars
        t._vars = s
        stack.pop()
    return e._vars
