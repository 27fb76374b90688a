"""Integer view of a bit-vector query.

Every w-bit term becomes an integer in [0, 2^w).  Sums, constant multiples, extracts, concatenations
and extensions are expressed exactly with linear constraints (a wrap-around counter per sum, a
quotient and remainders per extract); anything else is an unconstrained integer of its range.  The
result is a relaxation (single bits of content words are not tied to the words' values): if it has no solution neither has the bit-vector query.  A solution is only
used after evaluating the original query on it.
"""
import z3
from expr import E, full, lin, evaluate, extract


def data(x):
    """a word of contents, as opposed to a length or a position"""
    return x.op == "sel" or x.op == "var" and x.a[0].startswith("w!")


def piece(x):
    """(word, lowest bit, width) if x is a run of bits of a word of contents"""
    if x.op == "ext" and data(x.a[0]):
        return x.a[0], x.a[1], x.w
    if data(x):
        return x, 0, x.w
    return None


class Lia:
    """picks the words that have to be looked at bit by bit; all others only count as a whole"""

    def __init__(self):
        self.views = {}
        self.coarse = View(frozenset())
        self.luck = .5          # how often the coarse view sufficed lately

    def check(self, cs, timeout):
        use = {}
        fine = set()
        seen = set()
        stack = list(cs)
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == "ctpop":
                p = piece(t.a[0])
                if p is not None:
                    if use.setdefault(p[0].id, p) != p:
                        fine.add(p[0].id)
                    continue
            elif data(t):
                fine.add(t.id)
                continue
            stack.extend(x for x in t.a if isinstance(x, E))
        fine = frozenset(fine)
        # numbers of ones as numbers: first if that helped lately, else after the bits
        early = fine and self.luck > .3
        if early and self.rough(cs, timeout):
            return "unsat", None
        self.luck += .002
        v = self.views.get(fine)
        if v is None:
            if len(self.views) > 200:
                self.views.clear()
            v = self.views[fine] = View(fine)
        r, env = v.check(cs, timeout)
        if r == "unknown" and fine and not early and self.rough(cs, timeout):
            return "unsat", None
        return r, env

    def rough(self, cs, timeout):
        r = self.coarse.check(cs, min(timeout, 150), False)[0] == "unsat"
        self.luck = .8 * self.luck + .2 * r
        return r


class View:
    def __init__(self, fine):
        self.fine = fine        # ids of the words seen as single bits
        self.counts = {}
        self.whole = {}         # counts seen as numbers: term id -> piece
        self.ctx = z3.Context()
        self.memo = {}
        self.side = {}
        self.n = 0
        self.sums = {}          # (width, terms, constant) -> (value, constraints, sum it builds on, atoms)
        self.uses = {}          # term id -> sums it was translated to
        self.recent = []
        self.flats = {}
        self.bit = {}           # single bits of contents as 0/1 integers

    def num(self, v):
        return z3.IntVal(v, self.ctx)

    def fresh(self, t, lo, hi):
        self.n += 1
        v = z3.Int("i%d" % self.n, self.ctx)
        self.side.setdefault(t.id, []).extend([v >= self.num(lo), v <= self.num(hi)])
        return v

    def kids(self, t):
        if t.op in ("add", "mul"):
            terms, _ = self.flat(t)
            return [x for x in terms if x is not t]
        if t.op == "eq" and isinstance(t.a[1], int) and t.a[0].op in ("add", "mul"):
            terms, _ = self.flat(t.a[0])
            if t.a[0] not in terms:
                return list(terms)
        if t.op == "ctpop":
            return [x for x in self.bits(t) if isinstance(x, E)] if self.split(t) else []
        if self.none(t):
            return self.singles(t.a[0]) if piece(t.a[0])[0].id in self.fine else []
        if self.low(t):
            return [t.a[0].a[0]]
        if t.op == "ext" and t.w == 1 and data(t.a[0]):
            return []
        if t.op in ("eq", "ult", "slt", "ite", "zext", "sext", "ext", "concat", "and", "or", "xor", "not"):
            if t.w > 1 and t.op in ("and", "or", "xor", "not"):
                return []
            if t.op == "eq" and any(isinstance(x, E) and x.op in ("avar", "store", "aite", "azero") for x in t.a):
                return []
            return [x for x in t.a if isinstance(x, E)]
        return []

    def none(self, t):
        """does t say that a run of bits of a word looked at bit by bit is all zero?"""
        if t.op != "eq" or t.a[1] != 0 or not isinstance(t.a[1], int):
            return False
        p = piece(t.a[0])
        return p is not None and p[2] <= 64

    def low(self, t):
        """does t say that a number is below a power of two?"""
        return t.op == "eq" and isinstance(t.a[1], int) and t.a[1] == 0 and t.a[0].op == "ext" and not data(t.a[0].a[0]) and t.a[0].a[1] + t.a[0].w == t.a[0].a[0].w

    def singles(self, x):
        return [extract(x, k, 1, x.w) for k in range(x.w) if x.nz >> k & 1]

    def split(self, t):
        """is this count of ones a sum of single bits (or else a number of its own)?"""
        p = piece(t.a[0])
        return p is None or p[0].id in self.fine

    def flat(self, t):
        """the sum t as {atom: coefficient}, constant; counts of ones as sums of bits"""
        r = self.flats.get(t.id)
        if r is None:
            terms, const = lin(t, t.w)
            out = {}
            for x, c in terms.items():
                if x.op == "ctpop" and x.a[1] < 1 << x.w and self.split(x):
                    xs = self.bits(x)
                elif x.op == "zext" and x.a[0].w == 1:
                    xs = [x.a[0]]
                else:
                    xs = [x]
                for y in xs:
                    if isinstance(y, int):
                        const = (const + y * c) & full(t.w)
                        continue
                    v = (out.get(y, 0) + c) & full(t.w)
                    if v:
                        out[y] = v
                    else:
                        out.pop(y, None)
            r = self.flats[t.id] = (out, const)
        return r

    def bits(self, t):
        return self.singles(t.a[0])

    def i(self, x):
        if isinstance(x, int):
            return self.num(x)
        r = self.memo[x.id]
        if x.id in self.bit:
            return self.bit[x.id]
        return z3.If(r, self.num(1), self.num(0)) if x.w == 1 else r

    def b(self, x):
        return z3.BoolVal(bool(x), self.ctx) if isinstance(x, int) else self.memo[x.id]

    def node(self, t):
        op, w, a = t.op, t.w, t.a
        if op == "var":
            if w == 1:
                return z3.Bool(a[0], self.ctx)
            v = z3.Int(a[0], self.ctx)
            self.side[t.id] = [v >= self.num(t.lo), v <= self.num(t.hi)]
            return v
        if w == 1:
            if op == "and":
                return z3.And(self.b(a[0]), self.b(a[1]))
            if op == "or":
                return z3.Or(self.b(a[0]), self.b(a[1]))
            if op == "xor":
                return z3.Xor(self.b(a[0]), self.b(a[1]))
            if op == "not":
                return z3.Not(self.b(a[0]))
            if op == "ite":
                return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
            if self.none(t) and piece(a[0])[0].id not in self.fine:
                return self.count(t, a[0]) == self.num(0)
            if self.none(t):
                return z3.Sum([self.i(x) for x in self.singles(a[0])] + [self.num(0)]) == self.num(0)
            if self.low(t):
                return self.i(a[0].a[0]) < self.num(1 << a[0].a[1])
            if op == "eq" and isinstance(a[1], int) and a[0].op in ("add", "mul"):
                # compare with zero, so that the sums of successive comparisons resemble each other
                ww = a[0].w
                terms, const = self.flat(a[0])
                if a[0] not in terms:
                    return self.sum(t, terms, (const - a[1]) & full(ww), ww) == self.num(0)
            if op == "eq" and self.kids(t):
                return self.i(a[0]) == self.i(a[1])
            if op == "ult":
                return self.i(a[0]) < self.i(a[1])
            if op == "slt":
                ww = a[0].w if isinstance(a[0], E) else a[1].w
                return self.s(a[0], ww) < self.s(a[1], ww)
            if op == "ext" and not data(a[0]):
                return self.ext(t) == self.num(1)
            if op == "ext":
                v = self.bit[t.id] = self.fresh(t, 0, 1)
                return v >= self.num(1)
            self.n += 1
            return z3.Bool("o%d" % self.n, self.ctx)
        if op in ("add", "mul"):
            terms, const = self.flat(t)
            if t not in terms:
                return self.sum(t, terms, const, w)
        if op == "ctpop" and a[1] < 1 << w and not self.split(t):
            v = self.count(t, a[0])
            self.whole[t.id] = (piece(a[0]), v)
            return v
        if op == "ctpop" and a[1] < 1 << w:
            return z3.Sum([self.i(x) for x in self.bits(t)] + [self.num(0)])
        if op == "zext":
            return self.i(a[0])
        if op == "sext":
            x = a[0]
            return z3.If(self.i(x) >= self.num(1 << (x.w - 1)), self.i(x) + self.num((1 << w) - (1 << x.w)), self.i(x))
        if op == "ext":
            return self.ext(t)
        if op == "concat":
            return self.i(a[0]) * self.num(1 << a[2]) + self.i(a[1])
        if op == "ite":
            return z3.If(self.b(a[0]), self.i(a[1]), self.i(a[2]))
        return self.fresh(t, t.lo, t.hi)

    def count(self, t, x):
        """number of ones in a run of bits, as a number of its own"""
        w, lo, n = piece(x)
        v = self.counts.get((w.id, lo, n))
        if v is None:
            v = self.counts[w.id, lo, n] = z3.Int("n%d_%d_%d" % (w.id, lo, n), self.ctx)
        self.side.setdefault(t.id, []).extend([v >= self.num(0), v <= self.num(n)])
        return v

    def sum(self, t, terms, const, w):
        """value of a sum modulo 2^w, expressed through a similar earlier sum where there is one"""
        key = (w, frozenset((x.id, c) for x, c in terms.items()), const)
        self.uses.setdefault(t.id, []).append(key)
        if key in self.sums:
            return self.sums[key][0]
        m, h = 1 << w, 1 << (w - 1)

        def form(ts, k):
            cen = lambda c: c - m if c >= h else c
            e = self.num(cen(k))
            lo = hi = cen(k)
            for x, c in ts.items():
                c = cen(c)
                e = e + self.num(c) * self.i(x)
                lo += min(c * x.lo, c * x.hi)
                hi += max(c * x.lo, c * x.hi)
            return e, lo, hi
        e, lo, hi = form(terms, const)
        if lo >= 0 and hi < m:
            self.sums[key] = (e, [], None, list(terms))
            return e
        best = None
        for k2, ts in self.recent:
            if k2[0] != w:
                continue
            d = {}
            for x, c in terms.items():
                c2 = (c - ts.get(x, 0)) % m
                if c2:
                    d[x] = c2
            for x, c in ts.items():
                if x not in terms:
                    d[x] = -c % m
            if len(d) < len(terms) and (best is None or len(d) < len(best[1])):
                best = (k2, d, (const - k2[2]) % m)
        self.n += 1
        v = z3.Int("i%d" % self.n, self.ctx)
        side = [v >= self.num(0), v < self.num(m)]
        base = None
        if best is not None:
            base, d, dk = best
            u = self.sums[base][0]
            e, lo, hi = form(d, dk)
            e = u + e
            hi += m - 1
        if best is not None and dk == 0 and len(d) == 1 and next(iter(d)).hi == 1 and next(iter(d.values())) in (1, m - 1):
            # one bit added or taken away
            x, c = next(iter(d.items()))
            one = self.memo[x.id] if x.w == 1 else self.i(x) == self.num(1)
            wrap = z3.And(one, u == self.num(0 if c != 1 else m - 1))
            # (condition of wrapping around, constraint if it can, constraint if it cannot)
            side.append((frozenset(z.get_id() for z in wrap.children()), v == e + z3.If(wrap, self.num(m if c != 1 else -m), self.num(0)), v == e, wrap))
        else:
            lo >>= w
            hi >>= w
            self.n += 1
            if lo == hi:
                side.append(v == e - self.num(m * lo))
            elif hi == lo + 1:
                q = z3.Bool("q%d" % self.n, self.ctx)
                side.append(v == e - z3.If(q, self.num(m * hi), self.num(m * lo)))
            else:
                q = z3.Int("i%d" % self.n, self.ctx)
                side += [q >= self.num(lo), q <= self.num(hi), v == e - self.num(m) * q]
        self.sums[key] = (v, side, base, list(terms))
        self.recent.insert(0, (key, terms))
        del self.recent[16:]
        return v

    def s(self, x, w):
        v = self.i(x)
        return z3.If(v >= self.num(1 << (w - 1)), v - self.num(1 << w), v)

    def ext(self, t):
        x, lo, w = t.a[0], t.a[1], t.w
        v = self.i(x)
        e = self.num(0)
        if lo:
            r = self.fresh(t, 0, (1 << lo) - 1)
            e = e + r
        m = self.fresh(t, t.lo, t.hi)
        e = e + m * self.num(1 << lo)
        if lo + w < x.w and x.hi >> (lo + w):
            h = self.fresh(t, 0, x.hi >> (lo + w))
            e = e + h * self.num(1 << (lo + w))
        self.side[t.id].append(v == e)
        return m

    def tr(self, cs):
        """translate; returns all nodes reached"""
        seen = {}
        stack = list(cs)[::-1]
        while stack:
            t = stack[-1]
            if t.id in seen:
                stack.pop()
                continue
            ks = self.kids(t)
            todo = [x for x in ks if x.id not in seen]
            if todo:
                stack.extend(todo)
                continue
            if t.id not in self.memo:
                self.memo[t.id] = self.node(t)
            seen[t.id] = t
            stack.pop()
        return seen

    def check(self, cs, timeout, model=True):
        seen = self.tr(cs)
        done = set()
        new = list(seen)
        sides = []
        while new:
            atoms = []
            for i in new:
                for key in self.uses.get(i, ()):
                    while key is not None and key not in done:
                        done.add(key)
                        _, sd, key2, at = self.sums[key]
                        sides += sd
                        atoms += at
                        key = key2
            more = self.tr(atoms)
            new = [i for i in more if i not in seen]
            seen.update(more)
        s = z3.SolverFor("QF_LIA", ctx=self.ctx)
        s.set("timeout", int(timeout))
        for i in seen:
            sd = self.side.get(i)
            if sd:
                s.add(*sd)
        never = set()
        for c in cs:
            if c.op == "not" and c.a[0].op == "and":
                never.add(frozenset(z.get_id() for z in self.memo[c.a[0].id].children()))
        for c in sides:
            s.add((c[2] if c[0] in never else c[1]) if type(c) is tuple else c)
        for c in cs:
            s.add(self.memo[c.id])
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat and model:
            m = s.model()
            env = {}
            for d in m.decls():
                n = d.name()
                v = m[d]
                if z3.is_int_value(v):
                    env[n] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    env[n] = int(z3.is_true(v))
            for t in seen.values():
                # contents: put the words together from their bits
                if t.op == "ext" and t.w == 1 and t.a[0].op == "var" and data(t.a[0]):
                    if z3.is_true(m.eval(self.memo[t.id])):
                        n = t.a[0].a[0]
                        env[n] = env.get(n, 0) | 1 << t.a[1]
            for i in seen:
                if i in self.whole:
                    (x, lo, _), v = self.whole[i]
                    if x.op == "var":
                        n = m.eval(v, model_completion=True).as_long()
                        env[x.a[0]] = ((1 << n) - 1) << lo
            memo = {}
            try:
                if all(evaluate(c, env, memo) for c in cs):
                    return "sat", env
            except Exception:
                pass
        return "unknown", None
