"""Randomised self-test of the expression layer: every constructor is compared with direct
integer evaluation, the recorded bounds are checked, and the z3 translation is compared with
the evaluator.  Usage: selftest.py [rounds] [seed]"""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import expr as X
from expr import E, full
import z3
from solver import Solver
from lia import Lia

WS = [1, 3, 8, 12, 16, 44, 64, 128]


def rnd_const(r, w):
    k = r.random()
    if k < .3:
        return r.choice([0, 1, full(w), 1 << (w - 1), full(w) >> 1]) & full(w)
    if k < .5:
        return (1 << r.randrange(w))
    if k < .7:
        return full(r.randrange(1, w + 1))
    if k < .8:
        a = r.randrange(w)
        return full(w) & ~full(a)
    return r.getrandbits(w)


def gen(r, w, d, envs):
    """returns (expr, [concrete value per env])"""
    if d == 0 or r.random() < .1:
        if r.random() < .3:
            c = rnd_const(r, w)
            return c, [c] * len(envs)
        n = "v%d_%d" % (w, r.randrange(3))
        return X.var(n, w), [e[n] for e in envs]
    ops = ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "ite", "zext", "ext", "concat", "ctpop", "udiv", "urem", "not", "cttz", "ctlz", "neg", "sext", "sdiv", "srem", "bswap", "blsr", "blsr", "blsx"]
    if w == 1:
        ops = ["and", "or", "xor", "not", "eq", "ult", "slt", "ule", "ite", "ext", "ne"]
    op = r.choice(ops)
    m = full(w)
    g = lambda ww: gen(r, ww, d - 1, envs)
    if op in ("eq", "ne", "ult", "slt", "ule"):
        ww = r.choice(WS)
        a, av = g(ww)
        if r.random() < .2:
            c = rnd_const(r, ww)
            b, bv = X.add(a, c, ww), [(x + c) & full(ww) for x in av]
        else:
            b, bv = g(ww)
        f = getattr(X, op)
        s = lambda x: x - (1 << ww) if x >> (ww - 1) else x
        pf = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "ult": lambda x, y: x < y, "ule": lambda x, y: x <= y, "slt": lambda x, y: s(x) < s(y)}[op]
        return f(a, b, ww), [int(pf(x, y)) for x, y in zip(av, bv)]
    if op == "not":
        a, av = g(w)
        return X.not_(a, w), [x ^ m for x in av]
    if op == "neg":
        a, av = g(w)
        return X.neg(a, w), [-x & m for x in av]
    if op == "ite":
        c, cv = g(1)
        a, av = g(w)
        if r.random() < .3:
            k = rnd_const(r, w)
            b, bv = X.add(a, k, w), [(x + k) & m for x in av]
        else:
            b, bv = g(w)
        return X.ite(c, a, b, w), [x if z else y for z, x, y in zip(cv, av, bv)]
    if op in ("zext", "sext"):
        ww = r.choice([x for x in WS if x <= w])
        a, av = g(ww)
        if op == "zext":
            return X.zext(a, ww, w), av
        return X.sext(a, ww, w), [(x - (1 << ww) if x >> (ww - 1) else x) & m for x in av]
    if op == "ext":
        ww = r.choice([x for x in WS if x >= w])
        lo = r.randrange(ww - w + 1)
        a, av = g(ww)
        return X.extract(a, lo, w), [(x >> lo) & m for x in av]
    if op == "concat":
        hw = r.randrange(1, w)
        ww = min(x for x in WS if x >= hw)
        a, av = g(ww)
        h, hv = X.extract(a, 0, hw), [x & full(hw) for x in av]
        lw = w - hw
        ww = min(x for x in WS if x >= lw)
        a, av = g(ww)
        l, lv = X.extract(a, 0, lw), [x & full(lw) for x in av]
        return X.concat(h, hw, l, lw), [(x << lw) | y for x, y in zip(hv, lv)]
    if op == "ctpop":
        a, av = g(w)
        if w < 8:
            return a, av
        return X.ctpop(a, w), [bin(x).count("1") for x in av]
    if op == "ctlz":
        if w < 8:
            return g(w)
        a, av = g(w)
        return X.ctlz(a, w), [w - x.bit_length() for x in av]
    if op == "cttz":
        if w < 8:
            return g(w)
        a, av = g(w)
        return X.cttz(a, w), [w if x == 0 else (x & -x).bit_length() - 1 for x in av]
    if op in ("blsr", "blsx"):
        a, av = g(w)
        for _ in range(r.randrange(1, 4)):
            a, av = X.and_(a, X.sub(a, 1, w), w) if op == "blsr" else X.xor(a, X.and_(a, X.neg(a, w), w), w), [x & x - 1 if x else 0 for x in av]
            if r.random() < .3:
                c, cv = g(1)
                a, av = X.ite(c, a, X.and_(a, X.sub(a, 1, w), w), w), [x if z else x & x - 1 if x else 0 for z, x in zip(cv, av)]
        k = r.randrange(w)
        if w > 7 and r.random() < .3:
            t = [w if x == 0 else (x & -x).bit_length() - 1 for x in av]
            return X.zext(X.eq(X.cttz(a, w), k, w), 1, w), [int(x == k) for x in t]
        return a, av
    if op == "bswap":
        if w % 8:
            return g(w)
        a, av = g(w)
        return X.bswap(a, w), [int.from_bytes(x.to_bytes(w // 8, "little"), "big") for x in av]
    a, av = g(w)
    if op in ("shl", "lshr", "ashr"):
        if r.random() < .6:
            k = r.randrange(w)
            b, bv = k, [k] * len(envs)
        else:
            b, bv = g(w)
        s = lambda x: x - (1 << w) if x >> (w - 1) else x
        pf = {"shl": lambda x, y: (x << y) & m if y < w else 0, "lshr": lambda x, y: x >> y if y < w else 0, "ashr": lambda x, y: (s(x) >> min(y, w - 1)) & m}[op]
        return getattr(X, op)(a, b, w), [pf(x, y) for x, y in zip(av, bv)]
    b, bv = g(w)
    if op in ("udiv", "urem", "sdiv", "srem"):
        b, bv = X.or_(b, 1, w), [x | 1 for x in bv]
        s = lambda x: x - (1 << w) if x >> (w - 1) else x

        def sd(x, y):
            x, y = s(x), s(y)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m

        def sr(x, y):
            x, y = s(x), s(y)
            q = abs(x) % abs(y)
            return (-q if x < 0 else q) & m
        pf = {"udiv": lambda x, y: x // y, "urem": lambda x, y: x % y, "sdiv": sd, "srem": sr}[op]
        return getattr(X, op)(a, b, w), [pf(x, y) for x, y in zip(av, bv)]
    if r.random() < .15 and op in ("add", "sub", "or", "and", "xor"):
        c = rnd_const(r, w)
        b, bv = X.add(a, c, w), [(x + c) & m for x in av]
    f = {"add": X.add, "sub": X.sub, "mul": X.mul, "and": X.and_, "or": X.or_, "xor": X.xor}[op]
    pf = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op]
    return f(a, b, w), [pf(x, y) & m for x, y in zip(av, bv)]


def check_bounds(e, env):
    memo = {}
    X.evaluate(e, env, memo)
    st, seen = [e], set()
    while st:
        t = st.pop()
        if not isinstance(t, E) or t.id in seen:
            continue
        seen.add(t.id)
        v = memo[t.id]
        if isinstance(v, int):
            assert t.lo <= v <= t.hi, ("bounds", t, t.lo, v, t.hi)
            assert v & ~t.nz == 0, ("nz", t, bin(v), bin(t.nz))
            assert v <= full(t.w)
        if t.op == "ext":
            assert t.a[1] + t.w <= t.a[0].w, ("ext range", t)
        st.extend(t.a)


def views(r, rounds):
    """the integer view against the bits, on comparisons of counts"""
    out = {}
    lia = Lia()
    words = [X.var("w!%d" % i, 16) for i in range(2)]
    k = X.var("k", 64)

    def part():
        lo = r.choice([0, 0, r.randrange(12)])
        n = r.choice([16 - lo, r.randrange(1, 17 - lo)])
        return X.extract(r.choice(words), lo, n, 16), n

    def count():
        x, n = part()
        if r.random() < .3 and n > 1:
            x = X.and_(x, X.sub(x, 1, n), n)
        return X.ctpop(x, n, 64)

    def cond():
        c = r.random()
        if c < .25:
            x, n = part()
            t = X.eq(x, 0, n)
        elif c < .35:
            t = X.extract(r.choice(words), r.randrange(16), 1, 16)
        elif c < .45:
            t = X.eq(X.extract(k, 4, 60, 64), 0, 60)
        else:
            a = X.add(count(), r.choice([0, 1, full(64), k, count()]), 64)
            b = r.choice([r.randrange(20), k, count()])
            t = r.choice([X.eq, X.ult])(a, b, 64)
            if r.random() < .3:
                t = X.eq(X.ite(cond(), a, b, 64), r.choice([1, 3, k]), 64)
        return X.not_(t, 1) if r.random() < .5 else t

    for _ in range(rounds):
        cs = [t for t in (cond() for _ in range(r.randrange(2, 9))) if isinstance(t, E)]
        if not cs:
            continue
        lia.luck = r.choice([0, 1])
        got, env = lia.check(cs, 2000)
        s = Solver(timeout_ms=5000)
        z = z3.SolverFor("QF_BV", ctx=s.ctx)
        z.add(*[s.tr(c, 1, True) for c in cs])
        ref = str(z.check())
        assert got in (ref, "unknown"), ("integer view", cs, got, ref)
        if env is not None:
            assert all(X.evaluate(c, env) for c in cs)
        out[got] = out.get(got, 0) + 1
    return ", ".join("%d %s" % (v, g) for g, v in sorted(out.items()))


def main(rounds=4000, seed=1):
    r = random.Random(seed)
    names = ["v%d_%d" % (w, i) for w in WS for i in range(3)]
    n = 0
    zs = 0
    for k in range(rounds):
        envs = []
        for _ in range(4):
            envs.append({x: rnd_const(r, int(x[1:].split("_")[0])) for x in names})
        w = r.choice(WS)
        e, vals = gen(r, w, r.randrange(1, 7), envs)
        for env, v in zip(envs, vals):
            got = X.evaluate(e, env)
            assert got == v, ("value", k, e, env, got, v)
            if isinstance(e, E):
                check_bounds(e, env)
            n += 1
        if isinstance(e, E) and k % 4 == 0:
            s = Solver(timeout_ms=5000)
            t = s.tr(e, w, True)
            env = envs[0]
            sub = []
            for x in names:
                ww = int(x[1:].split("_")[0])
                if ww == 1:
                    sub.append((z3.Bool(x, s.ctx), z3.BoolVal(bool(env[x]), s.ctx)))
                else:
                    sub.append((z3.BitVec(x, ww, s.ctx), z3.BitVecVal(env[x], ww, s.ctx)))
            z = z3.simplify(z3.substitute(t, sub))
            got = int(z3.is_true(z)) if w == 1 else z.as_long()
            assert got == vals[0], ("z3", e, got, vals[0])
            zs += 1
    print("selftest: %d evaluations, %d z3 translations agree" % (n, zs))
    print("selftest: integer view: %s" % views(r, rounds // 8))


if __name__ == "__main__":
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 4000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
