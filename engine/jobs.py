"""Runs one symbolic job (harness x profile x parameters) and summarises it."""
import sys
import time
import traceback

import expr as X
from ll import Unsupported
from solver import Solver
from sym import Engine, Inconclusive


def const_ids(mod, root):
    """ids of the assertions and reachability marks below a harness root"""
    seen, todo = set(), [root]
    asserts, reaches = set(), set()
    while todo:
        n = todo.pop()
        if n in seen or n not in mod.fns:
            continue
        seen.add(n)
        for b in mod.fns[n].blocks.values():
            for ins in b.phis + b.ins:
                if ins.op in ("call", "invoke"):
                    c = getattr(ins.x["callee"], "name", None)
                    if c == "sym_assert":
                        if isinstance(ins.a[1], int):
                            asserts.add(ins.a[1])
                    elif c == "sym_reach":
                        if isinstance(ins.a[0], int):
                            reaches.add(ins.a[0])
                    elif c:
                        todo.append(c)
                for v in refs(ins):
                    todo.append(v)
    return asserts, reaches


def refs(ins):
    out = []

    def walk(v):
        if type(v).__name__ == "GlobalRef":
            out.append(v.name)
        elif isinstance(v, tuple):
            for x in v:
                walk(x)
    for a in ins.a or ():
        walk(a)
    if ins.op == "phi":
        for v, _ in ins.x:
            walk(v)
    return out


def run(mod, job):
    """job: dict(harness, profile, params, choose, limit_s, max_steps, cross)"""
    sys.setrecursionlimit(200000)
    t0 = time.time()
    sol = Solver(timeout_ms=job.get("query_ms", 200000), cross_every=job.get("cross", 0))
    e = Engine(mod, params=job.get("params") or {}, solver=sol, max_path_steps=job.get("max_steps", 1000000),
               deadline=t0 + job.get("limit_s", 600), choose_filter=job.get("choose"))
    out = {"harness": job["harness"], "profile": job["profile"], "params": job.get("params") or {}, "choose": job.get("choose")}
    status, detail = "ok", ""
    try:
        e.run_all(e.start("h_" + job["harness"]))
        if e.violations:
            status = "violation"
    except Inconclusive as x:
        status, detail = "inconclusive", str(x)
    except Unsupported as x:
        status, detail = "unsupported", str(x)
    except Exception:
        status, detail = "error", traceback.format_exc()
    v = e.violations[0] if e.violations else None
    out.update(status=status, detail=detail, wall=time.time() - t0, asserts=e.asserts, reach=e.reach, witnesses=e.witnesses,
               fns={k: len(b) for k, b in e.fns.items()}, blocks={k: sorted(b) for k, b in e.fns.items()}, paths=e.paths, forks=e.forks, merges=e.merges, steps=e.steps, panics=e.panics,
               memchecks=e.memchecks, solver=sol.st.asdict(), names=dict(e.names),
               violation=None if v is None else {"kind": v.kind, "id": v.ident, "env": v.env, "where": v.where})
    return out
