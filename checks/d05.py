import json, random
def run(ctx):
    ctx.build("reach")
    rnd = random.Random(ctx.seed); lines = []
    cs = ctx.generate("ReachCases", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n")
    lines += [json.dumps(c) for c in cs if c["g"] == "decay"]
    for g in ("range", "depth"):
        p = [c["f"] for c in cs if c["g"] == g]
        for _ in range(ctx.pick(2, 12)):
            q = p + rnd.sample(p, 12); rnd.shuffle(q); lines.append(json.dumps({"g": g, "pool": q}))
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n"
    ctx.model_check("ReachDesign", cfg % ctx.pick(2, 3) + "INVARIANT Inv\n")
    hs = ctx.generate("ReachDesign", cfg % 14, simulate=ctx.pick(400, 4000), workers=4, depth=16, seed=ctx.seed)
    lines += [json.dumps(h) for h in hs]
    obs = ctx.drive_many("reach", lines, "reach")
    if obs: ctx.validate("ReachTrace", obs, count=len(lines))
    ctx.assumptions += ["the scale of a lepton depth function is stored but its effect on depths is not judged", "energies below the mass, and loss rates of zero, are outside"]
