import json, random
def run(ctx):
    ctx.build("procid")
    rnd = random.Random(ctx.seed); lines = []
    pool = sorted(ctx.generate("ProcessIdentityDesign", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Inv\n"), key=json.dumps)
    lines += [json.dumps(c) for c in pool if "g" in c]; pool = [c for c in pool if "g" not in c]
    for _ in range(ctx.pick(2, 10)):
        p = pool + rnd.sample(pool, 10); rnd.shuffle(p); lines.append(json.dumps({"g": "pool", "pool": p}))
    for fmt in ("json", "binary"):
        for c in pool: lines.append(json.dumps({"g": "row", "fmt": fmt, "pool": [c]}))
        for _ in range(ctx.pick(40, 600)): lines.append(json.dumps({"g": "row", "fmt": fmt, "pool": rnd.sample(pool, rnd.randrange(2, 6))}))
    obs = ctx.drive_many("procid", lines, "id")
    if obs: ctx.validate("ProcessIdentityTrace", obs, count=len(lines))
    ctx.assumptions += ["collections compare the identity of the objects they hold, which is not part of this property"]
