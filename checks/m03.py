import json
def cfg(n, ops): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nCONSTANTS N = {n}\n Ops = {ops}\n"
def run(ctx):
    ctx.build("detector")
    lines = []
    for ops, n in ((9, ctx.pick(150, 1600)), (3, ctx.pick(100, 1500)), (16, ctx.pick(30, 400))):
        lines += [json.dumps(c) for c in ctx.generate("DetectorDesign", cfg(n, ops), simulate=1, depth=n + 2, seed=ctx.seed + ops, workers=1)]
    obs = ctx.drive_many("detector", lines, "histories")
    if obs: ctx.validate_many("DetectorTrace", obs, count=len(lines))
