import json
def cfg(n, emit, inv=True): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = {n}\n EmitAt = {emit}\n" + ("INVARIANT Rigid\n" if inv else "")
def run(ctx):
    ctx.build("placement")
    ctx.model_check("PlacementsDesign", cfg(ctx.pick(1, 2), 99))
    hs = ctx.generate("PlacementsDesign", cfg(2, 2, False), sample=ctx.pick(2500, None))
    hs += ctx.generate("PlacementsDesign", cfg(8, 8, False), simulate=ctx.pick(20, 300), depth=9, seed=ctx.seed, sample=ctx.pick(400, 8000))
    lines = [json.dumps({"ops": h}) for h in hs]
    obs = ctx.drive("placement", lines, "hist")
    if obs: ctx.validate("PlacementsTrace", obs, count=len(lines))
    ctx.assumptions += ["two placements, integer positions and quaternion directions"]
