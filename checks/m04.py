import json
def cfg(n, ops): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Laws\nCONSTANTS N = {n}\n Ops = {ops}\n"
def run(ctx):
    ctx.build("path")
    lines = []
    for ops, n in ((12, ctx.pick(150, 1800)), (4, ctx.pick(130, 1500))):
        lines += [json.dumps(c) for c in ctx.generate("PathDesign", cfg(n, ops), simulate=1, depth=n + 2, seed=ctx.seed + ops, workers=1)]
    obs = ctx.drive_many("path", lines, "paths")
    if obs: ctx.validate_many("PathTrace", obs, count=len(lines))
