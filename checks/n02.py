import json
def cfg(what, n, emit, inv): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"{what}\"\n MaxOps = {n}\n EmitAt = {emit}\n" + (f"INVARIANT {inv}\n" if inv else "")
def run(ctx):
    ctx.build("algebra")
    lines = []
    for what, inv in (("poly", "Algebraic"), ("vec", "Geometric")):
        ctx.model_check("AlgebraDesign", cfg(what, ctx.pick(2, 3), 99, inv))
        hs = ctx.generate("AlgebraDesign", cfg(what, 2, 2, None), sample=ctx.pick(1500, None))
        hs += ctx.generate("AlgebraDesign", cfg(what, 8, 8, None), simulate=ctx.pick(20, 300), depth=9, seed=ctx.seed, sample=ctx.pick(400, 8000))
        lines += [json.dumps({"g": what, "ops": h}) for h in hs]
    for what, inv, n in (("root", None, ctx.pick(1200, None)), ("deflect", "Rigid", None)):
        cs = ctx.generate("AlgebraDesign", cfg(what, 0, 99, inv), sample=n)
        lines += [json.dumps({"g": what, "c": c}) for c in sorted(cs, key=json.dumps)]
    obs = ctx.drive("algebra", lines, "alg")
    if obs: ctx.validate("AlgebraTrace", obs, count=len(lines))
    ctx.assumptions += ["integer coefficients and components; deflections of unit vectors", "the cached spherical coordinates are not part of a vector's identity here"]
