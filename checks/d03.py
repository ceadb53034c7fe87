import json, random
def cfg(n, emit, seeds): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = {n}\n EmitAt = {emit}\n Seeds = {seeds}\nINVARIANT Inv\n"
def run(ctx):
    ctx.build("random")
    rnd = random.Random(ctx.seed)
    hs = ctx.generate("RandomStreamDesign", cfg(3, 3, "{1, 4}"), sample=ctx.pick(4000, None))
    hs += ctx.generate("RandomStreamDesign", cfg(10, 10, "{1, 2, 3, 4, 5, 6, 7, 8}"), simulate=ctx.pick(60, 600), depth=11, seed=ctx.seed, sample=ctx.pick(1500, 12000))
    lines = [json.dumps({"g": "hist", "ops": h, "c": rnd.randrange(1000)}) for h in hs]
    n = ctx.pick(100000, 400000)
    for t in ("uniform", "range", "flip", "seeds", "highseeds", "pair", "lag"):
        for _ in range(3): lines.append(json.dumps({"g": "stat", "t": t, "n": n if "seeds" not in t else 20000, "seed": rnd.randrange(10**8)}))
    for p in range(6):
        for _ in range(2): lines.append(json.dumps({"g": "stat", "t": "pow", "p": p, "n": n, "seed": rnd.randrange(10**8)}))
    lines.append(json.dumps({"g": "auto"}))
    obs = ctx.drive("random", lines, "streams")
    if obs: ctx.validate("RandomStreamTrace", obs, count=len(lines))
    ctx.assumptions += ["two streams and up to 10 operations per history, 8 seeds that differ in low and high bits", "shares judged at six standard deviations"]
