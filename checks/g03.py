import json
PRIMS = ["box", "sphere", "cylinder", "cone", "cuttube", "ellipsoid", "eltube", "para", "trd", "trap", "torus", "polycone", "polyhedra", "genpoly", "extr", "meshbox", "meshell", "meshoct"]
def cfg(n, grid, kinds, inv): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\n Grid = {grid}\n Kinds <- K{kinds}\n" + ("INVARIANT Laws\n" if inv else "")
def run(ctx):
    ctx.build("solids")
    ctx.model_check("SolidsMC", cfg(0, ctx.pick(5, 7), 1, True))
    lines = []
    for kinds, n in ((1, ctx.pick(2200, 20000)), (2, ctx.pick(600, 8000))):
        lines += [json.dumps(c) for c in ctx.generate("SolidsMC", cfg(n, 1, kinds, False), simulate=1, depth=n + 2, seed=ctx.seed + kinds, workers=1)]
    obs = ctx.drive_many("solids", lines, "lines")
    if obs: ctx.validate_many("SolidsTrace", obs, count=len(lines))
