import json
def cfg(what, n=1): return f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "{what}"\n Events = {n}\n'
def run(ctx):
    ctx.build("kin")
    ctx.model_check("KinDesign", cfg("rules") + "INVARIANT Rules\n")
    lines = []
    for k in ("width", "query", "xsec"): lines += [json.dumps(c) for c in ctx.generate("KinDesign", cfg(k))]
    obs = ctx.drive("kin", lines, "rates")
    if obs: ctx.validate("RateTrace", obs, count=len(lines))
