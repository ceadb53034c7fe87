import json
KINDS = ["dipole", "hnl2", "ew", "charm", "elastic", "dummy", "table", "dark"]
def cfg(what, n): return f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "{what}"\n Events = {n}\n'
def run(ctx):
    ctx.build("kin")
    ctx.model_check("LawRules", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANT Rules\n")
    lines = []
    for k in KINDS:
        cs = ctx.spread(ctx.generate("KinDesign", cfg(k, ctx.pick(20000, 60000))), lambda c: json.dumps([c["p"], c["s"], c["M"], c["maj"]]), ctx.pick(300 if k == "hnl2" else 100, 1200))
        lines += [json.dumps(c) for c in cs]
    obs = ctx.drive_many("kin", lines, "law")
    if obs: ctx.validate("LawTrace", obs, count=len(lines))
