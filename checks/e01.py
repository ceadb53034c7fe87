import json, random

def cfg(maxops, ov, st, emit, extra=""):
    s = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    return f"INIT Init\nNEXT Next\nCONSTANTS MaxOps = {maxops}\n Overloads = {s(ov)}\n Stales = {s(st)}\n EmitAt = {emit}\nCHECK_DEADLOCK FALSE\n{extra}"

OV = ["record", "datum", "ptr"]
def run(ctx):
    ctx.build("tree")
    # the design: every construction history of a tree (history hidden by the view)
    ctx.model_check("EventTreeDesign", cfg(ctx.pick(6, 7), ["record"], ["no"], 99, "INVARIANT Inv\nPROPERTY Frozen\nVIEW TreeView\n"))
    hs = []
    # all overload/stale/parent combinations for short trees, all shapes for longer ones
    hs += ctx.generate("EventTreeDesign", cfg(2, OV, ["no", "other", "same", "wild"], 2))
    hs += ctx.generate("EventTreeDesign", cfg(3, ["datum", "ptr"], ["wild"], 3))
    hs += ctx.generate("EventTreeDesign", cfg(ctx.pick(4, 5), ["record"], ["no"], ctx.pick(4, 5)))
    hs += ctx.generate("EventTreeDesign", cfg(9, OV, ["no", "other", "same", "wild"], 9), sample=ctx.pick(60,900), simulate=ctx.pick(30, 400), depth=10, seed=ctx.seed)
    rnd = random.Random(ctx.seed)
    lines = []
    for k, h in enumerate(hs):
        loads = ["file", "bin", "json", "oldbin", "oldjson"]
        if k % 3: loads = [rnd.choice(loads)]
        lines.append(json.dumps({"kind": "hist", "loads": loads, "ops": h}))
    obs = ctx.drive("tree", lines, "hist")
    if obs: ctx.validate("EventTreeTrace", obs, count=len(lines))
    arch = []
    for n, ex in ((1, "TRUE"), (2, "TRUE" if ctx.thorough else "FALSE")):
        for t in ctx.generate("EventTreeArchives", f"INIT Init\nNEXT Next\nCONSTANTS N = {n}\n Extra = {ex}\nCHECK_DEADLOCK FALSE\n"):
            arch.append(t)
    # deeper archives: random small corruption of generated well formed trees, including cycles
    for h in hs[-ctx.pick(60, 600):]:
        t = []
        for k, op in enumerate(h):
            t.append({"id": k, "parent": op["parent"], "daughters": [], "null": False})
            if op["parent"] >= 0: t[op["parent"]]["daughters"].append(k)
        arch.append(t)
        for _ in range(4):
            u = json.loads(json.dumps(t)); k = rnd.randrange(len(u)); n = len(u)
            f = rnd.randrange(5)
            if f == 0: u[k]["parent"] = rnd.choice([k, rnd.randrange(n), n, n + 1, 2**31 - 1])
            elif f == 1: u[k]["daughters"].append(rnd.choice([n, rnd.randrange(n), n + 3]))
            elif f == 2: u[k]["id"] = rnd.choice([n, rnd.randrange(n)])
            elif f == 3: u[k] = {"id": k, "parent": -1, "daughters": [], "null": True}
            else:
                j = rnd.randrange(n); u[k]["parent"] = j; u[j]["parent"] = k
            arch.append(u)
    lines = [json.dumps({"kind": "arch", "both": k % 7 == 0, "nodes": t}, separators=(",", ":")) for k, t in enumerate(arch)]
    obs = ctx.drive("tree", lines, "arch")
    if obs: ctx.validate("EventTreeTrace", obs, count=len(lines))
    ctx.assumptions += ["trees are built through the three public add operations with a parent taken from the same tree"]
