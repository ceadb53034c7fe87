import json
def cfg(kind, n, emit, vals="{1, 2, 3}", mx=2, inv=True): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Kind = \"{kind}\"\n MaxOps = {n}\n EmitAt = {emit}\n Values = {vals}\n MaxSet = {mx}\n" + ("INVARIANT Inv\n" if inv else "")
def run(ctx):
    ctx.build("process")
    lines = []
    for kind in ("phys", "prim", "sec"):
        ctx.model_check("ProcessListsDesign", cfg(kind, ctx.pick(2, 3), 99, mx=ctx.pick(2, 1)))
        hs = ctx.generate("ProcessListsDesign", cfg(kind, 2, 2, vals="{1, 3}"))
        hs += ctx.generate("ProcessListsDesign", cfg(kind, 8, 8, vals="{1, 2, 3, 4}", mx=3), simulate=ctx.pick(30, 400), depth=9, seed=ctx.seed, sample=ctx.pick(400, 8000))
        lines += [json.dumps({"kind": kind, "ops": h}) for h in hs]
    obs = ctx.drive("process", lines, "hist")
    if obs: ctx.validate("ProcessListsTrace", obs, count=len(lines))
    ctx.assumptions += ["two processes and up to 8 operations per history", "SetPhysicalDistributions on an injection process is outside the property"]
