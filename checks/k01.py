import json
KINDS = ["dipole", "hnl2", "hnl3", "ew", "charm", "elastic", "dummy", "table", "dark"]
def cfg(what, n, inv=False): return f'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = "{what}"\n Events = {n}\n' + ("INVARIANT Rules\n" if inv else "")
def run(ctx):
    ctx.build("kin")
    ctx.model_check("KinDesign", cfg("rules", 1, True))
    lines = []
    for k in KINDS:
        n = ctx.pick(150, 600) if k in ("hnl3", "table", "elastic") else ctx.pick(300, 1500)
        cs = ctx.spread(ctx.generate("KinDesign", cfg(k, n)), lambda c: json.dumps([c["p"], c["s"], c["M"], c["maj"]]), ctx.pick(400, 6000))
        lines += [json.dumps(c) for c in cs]
    obs = ctx.drive_many("kin", lines, "final")
    if obs: ctx.validate("KinTrace", obs, count=len(lines))
    ctx.assumptions += ["parents that move (momentum at least a fifth of the mass); the collinear final state of N -> 3 nu and events of the dummy cross section with an impossible x, y are outside"]
