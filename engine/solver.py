"""SMT interface: translates expr.E nodes to z3 and answers satisfiability queries.

Two encodings of population count are used.  The abstract one is an uninterpreted function with
range facts (sound for proving unsatisfiability and for over-approximating path feasibility);
the exact one is the bit sum.  A violation is only ever reported from the exact encoding.
"""
import time
import z3
from expr import E, full, vars_of, evaluate, RW
from lia import Lia

BV = z3.BitVecVal


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cache_hits = 0
        self.model_hits = 0
        self.integer = 0
        self.cross = 0
        self.cross_mismatch = 0

    def asdict(self):
        return dict(self.__dict__)


class Solver:
    def __init__(self, timeout_ms=120000, cross_every=0):
        self.ctx = z3.Context()
        self.cache = [{}, {}]
        self.side = [{}, {}]
        self.st = Stats()
        self.timeout = timeout_ms
        self.turn, self.pace = 0, {"bit": 0.0, "sum": 0.05}
        self.qcache = {}
        self.ufs = {}
        self.models = []
        self.pc_small = {}
        self.lia = Lia()
        self.cross_every = cross_every

    # ------------------------------------------------------------ translation
    def val(self, v, w):
        return z3.BitVecVal(v, w, self.ctx)

    def tr(self, e, w, exact):
        """z3 term for e (bit-vector of width w, or Bool when w == 1 and boolean context via trb)"""
        if isinstance(e, int):
            return self.val(e, w)
        c = self.cache[exact]
        r = c.get(e.id)
        if r is not None:
            return r
        stack = [e]
        while stack:
            t = stack[-1]
            if t.id in c:
                stack.pop()
                continue
            todo = [x for x in t.a if isinstance(x, E) and x.id not in c]
            if todo:
                stack.extend(todo)
                continue
            c[t.id] = self.node(t, exact)
            stack.pop()
        return c[e.id]

    def b2bv(self, b):
        return z3.If(b, self.val(1, 1), self.val(0, 1))

    def node(self, t, exact):
        """1-bit nodes are represented as z3 Bool, wider ones as BitVec, arrays as Array."""
        op, w, a = t.op, t.w, t.a
        c = self.cache[exact]

        def g(x, ww):                       # BitVec view
            if isinstance(x, int):
                return self.val(x, ww)
            r = c[x.id]
            return self.b2bv(r) if x.w == 1 and x.op not in ("avar",) else r

        def b(x):                           # Bool view
            if isinstance(x, int):
                return z3.BoolVal(bool(x), self.ctx)
            return c[x.id]

        def bo(z):                          # result wrapper for 1-bit results computed as BitVec
            return z == self.val(1, 1) if w == 1 else z

        if op == "var":
            if w == 1:
                return z3.Bool(a[0], self.ctx)
            return z3.BitVec(a[0], w, self.ctx)
        if op == "avar":
            return z3.Array(a[0], z3.BitVecSort(64, self.ctx), z3.BitVecSort(64, self.ctx))
        if op == "azero":
            return z3.K(z3.BitVecSort(64, self.ctx), self.val(0, 64))
        if op == "store":
            return z3.Store(c[a[0].id], g(a[1], 64), g(a[2], 64))
        if op == "aite":
            return z3.If(b(a[0]), c[a[1].id], c[a[2].id])
        if op == "sel":
            return z3.Select(c[a[0].id], g(a[1], 64))
        if w == 1:
            if op == "and":
                return z3.And(b(a[0]), b(a[1]))
            if op == "or":
                return z3.Or(b(a[0]), b(a[1]))
            if op == "xor":
                return z3.Xor(b(a[0]), b(a[1]))
            if op == "not":
                return z3.Not(b(a[0]))
            if op == "ite":
                return z3.If(b(a[0]), b(a[1]), b(a[2]))
        if op == "eq":
            ww = a[0].w if isinstance(a[0], E) else a[1].w
            return g(a[0], ww) == g(a[1], ww)
        if op == "ult":
            ww = a[0].w if isinstance(a[0], E) else a[1].w
            return z3.ULT(g(a[0], ww), g(a[1], ww))
        if op == "slt":
            ww = a[0].w if isinstance(a[0], E) else a[1].w
            return g(a[0], ww) < g(a[1], ww)
        if op == "add":
            return bo(g(a[0], w) + g(a[1], w))
        if op == "mul":
            return bo(g(a[0], w) * g(a[1], w))
        if op == "udiv":
            return bo(z3.UDiv(g(a[0], w), g(a[1], w)))
        if op == "urem":
            return bo(z3.URem(g(a[0], w), g(a[1], w)))
        if op == "sdiv":
            return bo(g(a[0], w) / g(a[1], w))
        if op == "srem":
            return bo(z3.SRem(g(a[0], w), g(a[1], w)))
        if op == "shl":
            return bo(g(a[0], w) << g(a[1], w))
        if op == "lshr":
            return bo(z3.LShR(g(a[0], w), g(a[1], w)))
        if op == "ashr":
            return bo(g(a[0], w) >> g(a[1], w))
        if op == "and":
            return g(a[0], w) & g(a[1], w)
        if op == "or":
            return g(a[0], w) | g(a[1], w)
        if op == "xor":
            return g(a[0], w) ^ g(a[1], w)
        if op == "zext":
            x = a[0]
            if x.w == 1:
                return z3.If(c[x.id], self.val(1, w), self.val(0, w))
            return z3.ZeroExt(w - x.w, g(x, x.w))
        if op == "sext":
            x = a[0]
            return z3.SignExt(w - x.w, g(x, x.w))
        if op == "ext":
            return bo(z3.Extract(a[1] + w - 1, a[1], g(a[0], a[0].w)))
        if op == "concat":
            lw = a[2]
            return z3.Concat(g(a[0], w - lw), g(a[1], lw))
        if op == "ite":
            return z3.If(b(a[0]), g(a[1], w), g(a[2], w))
        if op == "ctpop":
            return self.popcount(t, g(a[0], a[1]), a[1], w, exact)
        if op == "ctlz":
            x = g(a[0], w)
            r = self.val(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, x) == self.val(1, 1), self.val(w - 1 - i, w), r)
            return r
        if op == "cttz":
            x = g(a[0], w)
            r = self.val(a[1], w)
            for i in range(w - 1, -1, -1):
                r = z3.If(z3.Extract(i, i, x) == self.val(1, 1), self.val(i, w), r)
            return r
        if op == "clr":
            x, r = g(a[0], w), g(a[1], RW)
            k = w.bit_length()
            n, out = self.val(0, k), []
            big = z3.UGT(r, self.val(w, RW))
            r = z3.Extract(k - 1, 0, r)
            for i in range(w):
                b = z3.Extract(i, i, x)
                out.append(z3.If(z3.And(z3.Not(big), z3.ULE(r, n)), b, self.val(0, 1)))
                n = n + z3.ZeroExt(k - 1, b)
            return z3.Concat(*out[::-1]) if w > 1 else out[0]
        raise NotImplementedError(op)

    def popcount(self, t, x, w0, w, exact):
        k = w0.bit_length()
        if k > w:
            k = w
        if not exact and w0 > 6:
            f = self.ufs.get((w0, k))
            if f is None:
                f = self.ufs[(w0, k)] = z3.Function("popcnt_%d" % w0, z3.BitVecSort(w0, self.ctx), z3.BitVecSort(k, self.ctx))
            u = f(x)
            n = bin(t.a[0].nz).count("1")
            self.pc_small[t.id] = u
            self.side[exact][t.id] = [z3.ULE(u, self.val(min(n, full(k)), k)), (u == self.val(0, k)) == (x == self.val(0, w0))]
            return z3.ZeroExt(w - k, u) if w > k else u
        # balanced tree with growing widths
        parts = []
        nz = t.a[0].nz
        for i in range(w0):
            if nz >> i & 1:
                parts.append(z3.Extract(i, i, x))
        while len(parts) > 1:
            nxt = []
            for i in range(0, len(parts) - 1, 2):
                p, q = parts[i], parts[i + 1]
                m = max(p.size(), q.size()) + 1
                nxt.append(z3.ZeroExt(m - p.size(), p) + z3.ZeroExt(m - q.size(), q))
            if len(parts) & 1:
                nxt.append(parts[-1])
            parts = nxt
        r = parts[0] if parts else self.val(0, 1)
        if r.size() < w:
            return z3.ZeroExt(w - r.size(), r)
        if r.size() > w:
            return z3.Extract(w - 1, 0, r)
        return r

    # ------------------------------------------------------------ queries
    @staticmethod
    def slice(pc, cond):
        """conjuncts of pc connected to cond through shared variables"""
        want = set(vars_of(cond))
        rest = list(pc)
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for c in rest:
                if vars_of(c) & want:
                    want |= vars_of(c)
                    out.append(c)
                    changed = True
                else:
                    keep.append(c)
            rest = keep
        return out

    def has_pop(self, conds, _memo={}):
        seen = set()
        st = [c for c in conds if isinstance(c, E)]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ctpop" and x.a[1] > 6:
                return True
            st.extend(y for y in x.a if isinstance(y, E))
        return False

    def bits(self, cs, ms):
        """exact bit-level view"""
        s = z3.SolverFor("QF_AUFBV" if self._arrays(cs) else "QF_BV", ctx=self.ctx)
        s.set("timeout", ms)
        for c in cs:
            s.add(self.tr(c, 1, True))
        r = str(s.check())
        return r, self.env_of(s.model()) if r == "sat" else None, s

    def few_pops(self, conds, most=12):
        seen = set()
        words = set()
        st = list(conds)
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "ctpop":
                y = x.a[0]
                words.add((y.a[0] if y.op == "ext" else y).id)
                if len(words) > most:
                    return False
            st.extend(y for y in x.a if isinstance(y, E))
        return True

    def nodes_below(self, conds):
        seen = {}
        st = [c for c in conds if isinstance(c, E)]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen[x.id] = x
            st.extend(y for y in x.a if isinstance(y, E))
        return seen

    def facts(self, cs):
        """true facts about the abstracted population counts in cs"""
        nodes = self.nodes_below(cs)
        sd = self.side[False]
        out = []
        runs = {}
        for i, t in nodes.items():
            if i in sd:
                out.extend(sd[i])
            if t.op == "ctpop":
                x = t.a[0]
                base, lo = (x.a[0], x.a[1]) if x.op == "ext" else (x, 0)
                runs.setdefault((base.id, lo), {})[x.w] = t
        # counts over growing runs from the same start differ by the bits in between
        for (bid, lo), d in runs.items():
            ls = sorted(d)
            for n, m in zip([0] + ls, ls):
                t = d[m]
                x = t.a[0]
                base = x.a[0] if x.op == "ext" else x
                big = z3.ZeroExt(1, self.small(t))
                sml = z3.ZeroExt(1, self.small(d[n])) if n else None
                k = big.size()
                if sml is not None and sml.size() < k:
                    sml = z3.ZeroExt(k - sml.size(), sml)
                df = big - sml if sml is not None else big
                bz = self.tr(base, base.w, False)
                bit = lambda j: z3.ZeroExt(k - 1, z3.Extract(lo + j, lo + j, bz))
                if m - n <= 3:
                    sm = bit(n)
                    for j in range(n + 1, m):
                        sm = sm + bit(j)
                    out.append(df == sm)
                else:
                    out.append(z3.ULE(df, self.val(m - n, k)))
                    out.append(z3.ULE(bit(n), df))
                    out.append(z3.ULE(bit(m - 1), df))
        return out

    def small(self, t):
        """narrow abstract count of a ctpop node"""
        self.tr(t, t.w, False)
        u = self.pc_small.get(t.id)
        if u is None:
            w = self.cache[False][t.id]
            k = min(t.a[1].bit_length(), t.w)
            u = z3.Extract(k - 1, 0, w) if w.size() > k else w
            self.pc_small[t.id] = u
        return u

    def check(self, conds, exact=True, model=False, timeout=None):
        """conds: list of 1-bit values. returns ('sat', env|None) / ('unsat', None) / ('unknown', None)"""
        cs = []
        for c in conds:
            if isinstance(c, int):
                if not c:
                    return "unsat", None
            else:
                cs.append(c)
        key = None
        if not model:
            key = (exact, frozenset(c.id for c in cs))
            r = self.qcache.get(key)
            if r is not None:
                self.st.cache_hits += 1
                return r, None
        if not cs:
            return "sat", {}
        if not model:
            for m in self.models:
                memo = {}
                if all(evaluate(c, m, memo) for c in cs):
                    self.st.model_hits += 1
                    self.qcache[key] = "sat"
                    return "sat", None
        t0 = time.time()
        env = None
        if self.has_pop(cs):
            limit = int(timeout or self.timeout)
            order = ["bit", "sum"] if self.few_pops(cs) else ["sum"]
            if len(order) == 2:
                # start with the view that has been the quicker one lately, look at the other now and then
                self.turn += 1
                if (self.pace["sum"] < self.pace["bit"]) != (self.turn % 12 == 0):
                    order.reverse()
            for view in order:
                t1 = time.time()
                if view == "bit":
                    r, env, s = self.bits(cs, min(limit, 150))
                else:
                    r, env = self.lia.check(cs, min(limit, 1000))
                    if r == "sat" and self.cross_every:
                        r = "unknown"
                if len(order) == 2:
                    self.pace[view] = 0.8 * self.pace[view] + 0.2 * (time.time() - t1 + (r == "unknown"))
                if r == "unknown":
                    continue
                self.st.integer += view == "sum"
                self.st.time += time.time() - t0
                self.st.queries += 1
                setattr(self.st, r, getattr(self.st, r) + 1)
                if env is not None:
                    self.models.insert(0, env)
                    del self.models[6:]
                if view == "bit" and self.cross_every and self.st.queries % self.cross_every == 0:
                    self.cross(s, r)
                if key is not None:
                    self.qcache[key] = r
                return r, env
        s = z3.SolverFor("QF_AUFBV", ctx=self.ctx) if self._arrays(cs) else (z3.SolverFor("QF_BV", ctx=self.ctx) if exact else z3.SolverFor("QF_UFBV", ctx=self.ctx))
        limit = int(timeout or self.timeout)
        s.set("timeout", min(limit, 500))
        for c in cs:
            s.add(self.tr(c, 1, exact))
        if not exact:
            s.add(*self.facts(cs))
        r = str(s.check())
        env = None
        if r == "unknown":
            # long chains of 64-bit sums and comparisons: try the integer view
            r, env = self.lia.check(cs, min(limit, 4000))
            if r == "unknown" and limit > 500:
                s.set("timeout", limit)
                r = str(s.check())
            elif r != "unknown":
                self.st.integer += 1
        dt = time.time() - t0
        self.st.time += dt
        self.st.queries += 1
        setattr(self.st, r, getattr(self.st, r) + 1)
        if r == "sat":
            if env is None and (exact or not self.has_pop(cs)):
                env = self.env_of(s.model())
            if env is not None:
                self.models.insert(0, env)
                del self.models[6:]
        if self.cross_every and exact and r in ("sat", "unsat") and self.st.queries % self.cross_every == 0:
            self.cross(s, r)
        if key is not None and r != "unknown":
            self.qcache[key] = r
        return r, env

    def _arrays(self, cs):
        st = [c for c in cs]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "sel":
                return True
            st.extend(y for y in x.a if isinstance(y, E))
        return False

    def env_of(self, m):
        env = {}
        for d in m.decls():
            v = m[d]
            n = d.name()
            if d.arity() == 0:
                if z3.is_bv_value(v):
                    env[n] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    env[n] = int(z3.is_true(v))
                elif z3.is_array(v):
                    env[n] = self.arr_of(v, m)
                elif isinstance(v, z3.FuncInterp):
                    env[n] = self.fi(v)
        return env

    def fi(self, v):
        tb = {}
        for i in range(v.num_entries()):
            e = v.entry(i)
            tb[e.arg_value(0).as_long()] = e.value().as_long()
        return (v.else_value().as_long(), tb)

    def arr_of(self, v, m):
        tb = {}
        chain = []
        while z3.is_store(v):
            chain.append((v.arg(1).as_long(), v.arg(2).as_long()))
            v = v.arg(0)
        for k, x in reversed(chain):
            tb[k] = x
        d = 0
        if z3.is_K(v):
            d = v.arg(0).as_long()
        elif z3.is_as_array(v):
            d, t2 = self.fi(m[z3.get_as_array_func(v)])
            t2.update(tb)
            tb = t2
        return (d, tb)

    def cross(self, s, r):
        """second opinion from cvc5 on the same formula"""
        import subprocess
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            p = subprocess.run(["cvc5", "--tlimit=60000", "--lang=smt2", "-"], input=txt, capture_output=True, text=True, timeout=90)
        except Exception:
            return
        out = p.stdout.split()
        if out and out[0] in ("sat", "unsat"):
            self.st.cross += 1
            if out[0] != r:
                self.st.cross_mismatch += 1
                raise RuntimeError("solvers disagree: z3 %s, cvc5 %s" % (r, out[0]))

    def feasible(self, pc, cond, exact=False):
        """may cond hold under pc?  Over-approximates (unknown and abstract answers count as yes)."""
        if isinstance(cond, int):
            return bool(cond)
        sl = self.slice(pc, cond)
        r, _ = self.check(sl + [cond], exact=False if not exact else True, timeout=20000)
        return r != "unsat"

    def must(self, pc, cond):
        """is cond implied by pc?  'yes' / ('no', env) / 'unknown' (decided exactly)"""
        if isinstance(cond, int) and cond:
            return "yes", None
        from expr import bnot
        n = bnot(cond) if isinstance(cond, E) else 1
        sl = self.slice(pc, n) if isinstance(n, E) else []
        if isinstance(n, E):
            r, _ = self.check(sl + [n], exact=False)
            if r == "unsat":
                return "yes", None
            r, _ = self.check(sl + [n], exact=True)
            if r == "unsat":
                return "yes", None
            if r == "unknown":
                return "unknown", None
        # full model including the unrelated part of the path condition
        r, env = self.check(list(pc) + [n], exact=True, model=True)
        if r == "sat":
            return "no", env
        if r == "unsat":
            return "yes", None
        return "unknown", None
