import json, random
def cfg(n, emit, inv=True): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = {n}\n EmitAt = {emit}\n" + ("INVARIANT Inv\nPROPERTY Stable\n" if inv else "")
def run(ctx):
    ctx.build("materials")
    rnd = random.Random(ctx.seed)
    ctx.model_check("MaterialsDesign", cfg(ctx.pick(1, 2), 99))
    hs = ctx.generate("MaterialsDesign", cfg(2, 2, False), sample=ctx.pick(1000, 12000))
    hs += ctx.generate("MaterialsDesign", cfg(6, 6, False), simulate=ctx.pick(20, 200), depth=7, seed=ctx.seed, sample=ctx.pick(300, 4000))
    hs = [h for h in hs if h[0]["op"] in ("add", "file")]
    lines = [json.dumps({"g": "hist", "v": rnd.randrange(420), "ops": h}) for h in hs]
    for h in rnd.sample(hs, 20):
        for o in h:
            if o["l"]: lines.append(json.dumps({"g": "badfile", "v": rnd.randrange(420), "l": o["l"]}))
    lines += [json.dumps({"g": "special"}), json.dumps({"g": "masses", "lo": 1, "hi": 118, "more": [[0,50,200],[1,3,9],[1,1,4],[1,8,17],[2,4,10],[0,20,90],[1,82,209],[0,1,12]]})]
    obs = ctx.drive("materials", lines, "models")
    if obs: ctx.validate("MaterialsTrace", obs, count=len(lines))
    ctx.assumptions += ["materials made of nuclei", "measured masses pinned for 35 nuclei, the others compared with the mass formula (0.028 u) and their neighbours"]
