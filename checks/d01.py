import json, random
import d02
def run(ctx):
    ctx.build("dists", "distpool")
    rnd = random.Random(ctx.seed)
    cs = sorted(ctx.generate("SamplerDensityDesign", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Deep = FALSE\nINVARIANT InvOk\n"), key=json.dumps)
    by = {}
    for c in cs: by.setdefault(c["t"], []).append(c)
    cs = []
    for t, l in sorted(by.items()):
        k = ctx.pick({"flux": 150, "flux2": 40}.get(t, 1000), {"flux": 1200, "flux2": 400}.get(t, 1000))
        cs += l if len(l) <= k else rnd.sample(l, k)
    lines = []
    for c in cs:
        n = ctx.pick(100000, 400000)
        if c["t"] in ("flux2", "flux2l"): n = 200000
        d = {"c": c, "n": n, "seed": rnd.randrange(1, 10**9), "rom": rnd.random() < .5, "phys": rnd.random() < .5}
        if c["t"] == "flux": d["how"] = rnd.choice(["vec", "file", "set", "reset", "clone"])
        if c["t"] in ("flux2", "flux2l"): d["how"] = rnd.choice(["vec", "file", "set", "bounds", "clone"])
        lines.append(json.dumps(d))
    obs = ctx.drive("dists", lines, "dists", timeout=700)
    if obs: ctx.validate("SamplerDensityTrace", obs, count=len(lines), key=lambda clause, ob: "flux-logarithmic-axis" if ob["c"]["t"] == "fluxl" else clause)
    pts = [c for c in d02.elems(ctx) if c["g"] == "point"]
    obs = ctx.drive("distpool", [json.dumps(c) for c in pts], "points")
    if obs: ctx.validate("DistributionIdentityTrace", obs, count=len(pts))
    ctx.assumptions += ["samples are compared with the exact shares at six standard deviations of the counts (twelve-fold variance for the Metropolis-Hastings chain of the two dimensional fluxes)"]
