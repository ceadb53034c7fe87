import json, os
from vlib import CheckError, run_tlc
def P(pid, parent, calls, forkstep=-1): return {"pid": pid, "parent": parent, "calls": calls, "forkstep": forkstep}
def cfg(n, th, calls, fixed): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS NProcs = {n}\n Threads = {{{', '.join('t%d' % k for k in range(th))}}}\n " + "\n ".join(f"t{k} = t{k}" for k in range(th)) + f"\n MaxCalls = {calls}\n ResetFirst = {fixed}\nINVARIANT Unique\n"
def run(ctx):
    ctx.build("idsched", "idreal")
    for a in ctx.pick([(2, 2, 3), (3, 1, 3)], [(2, 2, 3), (3, 2, 2), (2, 3, 3)]):
        ctx.model_check("ParticleIDs", cfg(*a, "TRUE"), heap="8g")
    # the specification is sharp enough to refute the order the code originally used
    r = run_tlc("ParticleIDs", cfg(2, 2, 3, "FALSE"), ctx.work)
    if not r.violated: raise CheckError("the specification does not refute publishing the pid first")
    big = 10**9
    L = ctx.pick(150000, 3000000)
    sc = [
        ({"procs": [P(100, -1, [1, 1])]}, 99), ({"procs": [P(100, -1, [2, 1])]}, 3), ({"procs": [P(100, -1, [1, 1, 1])]}, 2),
        ({"procs": [P(100, -1, [1]), P(101, 0, [1, 1])]}, 99),
        ({"procs": [P(100, -1, [2]), P(101, 0, [2, 2]), P(102, 0, [1]), P(103, 1, [1, 1])]}, 1),
        ({"procs": [P(100, -1, [3]), P(101, 0, [1, 1, 1])]}, 2),
        ({"procs": [P(100, -1, [1]), P(101, 0, [1, 1]), P(102, 1, [1, 1])]}, 1),
        ({"procs": [P(100, -1, []), P(101, 0, [1, 1]), P(102, 0, [1, 1])]}, 2),
        ({"procs": [P(100, -1, [2]), P(7, 0, [2]), P(100000, 1, [2, 1])]}, 2),
    ]
    # forks in the middle of the parent's calls
    for s in range(0, 24, 2): sc.append(({"procs": [P(100, -1, [2, 1]), P(101, 0, [1, 2], s)]}, 1))
    for s in range(0, 36, 5): sc.append(({"procs": [P(100, -1, [1, 1]), P(101, 0, [1], s), P(102, 1, [1, 1], s)]}, 1))
    lines = [json.dumps({**d, "bound": b if not ctx.thorough else min(99, b + 1), "limit": L}) for d, b in sc]
    obs = ctx.drive("idsched", lines, "schedules", timeout=ctx.pick(200, 3000))
    if obs:
        ex = [json.loads(l) for l in open(obs) if '"explored"' in l]
        ctx.notes["schedules_executed"] = sum(e["schedules"] for e in ex); ctx.notes["scenarios_exhausted_within_bound"] = sum(e["complete"] for e in ex); ctx.notes["scenarios"] = len(ex)
        ctx.validate("ParticleIDsTrace", obs, count=ctx.notes["schedules_executed"])
    lines = [json.dumps({"threads": t, "calls": c, "forks": f, "first": fi}) for t, c, f, fi in ctx.pick([(4, 60, 2, True), (4, 60, 2, False), (8, 20, 3, True)], [(4, 60, 2, True), (8, 40, 3, True), (8, 40, 3, False)] * 8)]
    obs = ctx.drive("idreal", lines, "real", timeout=120)
    if obs: ctx.validate("ParticleIDsTrace", obs)
    ctx.assumptions += ["sequentially consistent interleavings of the generator's atomic operations; forks while no thread of the parent is inside the generator's critical section; process numbers not reused within the same second"]
