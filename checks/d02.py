import json, random
def elems(ctx):
    return sorted(ctx.generate("DistributionIdentityDesign", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n"), key=json.dumps)
def run(ctx):
    ctx.build("distpool")
    rnd = random.Random(ctx.seed)
    es = elems(ctx); lines = []
    pool = [c["d"] for c in es if c["g"] == "elem"]
    for _ in range(ctx.pick(2, 12)):
        p = pool + rnd.sample(pool, 12); rnd.shuffle(p)
        lines.append(json.dumps({"g": "pool", "pool": p}))
    for c in es:
        if c["g"] != "elem": continue
        for n in (True, False): lines.append(json.dumps({**c, "seed": rnd.randrange(1, 10**6), "norm": n}))
    obs = ctx.drive("distpool", lines, "pool")
    if obs: ctx.validate("DistributionIdentityTrace", obs, count=len(lines))
    ctx.assumptions += ["copies and reloaded distributions are compared to nine digits (directions are normalised again on loading)"]
