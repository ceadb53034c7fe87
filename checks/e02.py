import json, random
def cfg(n, var, emit): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxChanged = {n}\n Variants = {{{var}}}\n EmitAt = {emit}\nINVARIANT Faithful\n"
def run(ctx):
    ctx.build("archive")
    ctx.model_check("RecordArchiveDesign", cfg(ctx.pick(2, 4), "1, 2" if not ctx.thorough else "1", 99))
    one = ctx.generate("RecordArchiveDesign", cfg(1, "1, 2", 1))
    two = ctx.generate("RecordArchiveDesign", cfg(2, "1, 2", 2))
    many = ctx.generate("RecordArchiveDesign", cfg(14, "1, 2", 14), simulate=ctx.pick(60, 600), depth=15, seed=ctx.seed, sample=ctx.pick(100, 2000))
    base = [0] * 20
    rnd = random.Random(ctx.seed)
    lines = [json.dumps({"op": "small"})]
    F = ["bin", "json", "oldbin", "oldjson"]
    for v in [base] + one: lines.append(json.dumps({"op": "round", "v": v, "fmts": F}))
    for v in two: lines.append(json.dumps({"op": "round", "v": v, "fmts": F if ctx.thorough else [rnd.choice(F)]}))
    for v in many: lines.append(json.dumps({"op": "round", "v": v, "fmts": F}))
    lines.append(json.dumps({"op": "family", "vs": [base] + one + [base]}))
    for _ in range(ctx.pick(20, 200)):
        fam = [base] + rnd.sample(one, 4) + rnd.sample(two, 10) + rnd.sample(many, 5)
        fam += [rnd.choice(fam) for _ in range(2)]
        lines.append(json.dumps({"op": "family", "vs": fam}))
    obs = ctx.drive("archive", lines, "records")
    if obs: ctx.validate("RecordArchiveTrace", obs)
    ctx.assumptions += ["version-0 archives are produced by look-alike classes in the driver with the field layout of the released version-0 format"]
