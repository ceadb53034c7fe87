import json, random
from vlib import VERIF
def cfg(what, inv=""): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"{what}\"\n{inv}"
LOW = lambda s: list(s.lower())
def run(ctx):
    rnd = random.Random(ctx.seed); lines = []
    ctx.model_check("ResourceVersionsDesign", cfg("order", "INVARIANT Inv\n"))
    vers = [c["v"] for c in ctx.generate("ResourceVersionsDesign", cfg("versions"))]
    for v in vers: lines += [{"g": "version", "v": v} for _ in range(ctx.pick(1, 6))]
    for _ in range(ctx.pick(60, 800)): lines.append({"g": "order", "vs": rnd.sample(vers, 12)})
    # versions that differ in one place only
    for _ in range(ctx.pick(60, 800)):
        a = rnd.choice(vers); near = [v for v in vers if sum(a[k] != v[k] for k in a) <= 2]; lines.append({"g": "order", "vs": [a] + rnd.sample(near, min(9, len(near)))})
    names = ["Ice", "ICE", "IceCube", "Nd_x.2", "DUNE-FD"]; R = lambda *r, **k: dict({"e": 0, "rel": list(r), "pre": 0, "pn": 0, "post": 0, "on": 0, "dev": 0, "dn": 0, "loc": []}, **k)
    vs = [R(1), R(1, 2), R(10), R(2, pre=3, pn=1), R(2, dev=1, dn=1), R(2, post=1, on=4), R(0, 9, e=1)]
    for what, n in (("names", ctx.pick(2500, 20000)), ("contents", ctx.pick(3000, 14000))):
        for c in ctx.generate("ResourceVersionsDesign", cfg(what), sample=n): lines.append(dict(c, pool=[{"n": x, "low": LOW(x)} for x in names], vs=vs))
    for kind in ("flux", "detector", "processes"):
        for _ in range(ctx.pick(60, 600)):
            ops = [rnd.choice(["load", "load", "good", "broken", "noload"] + (["none"] if kind != "detector" else [])) for _ in range(12)]
            lines.append({"g": "load", "kind": kind, "ops": (["good"] if kind == "detector" else []) + ops})
    for _ in range(20): lines.append({"g": "list", "names": rnd.sample(names + ["a", "Z9", "visuals", "T2K_NEAR", "x-y"], 5)})
    for x in lines: x["seed"] = rnd.randrange(1 << 30)
    obs = ctx.drive(VERIF + "/drivers/py/resources.py", [json.dumps(x) for x in lines], "res", timeout=600)
    if obs: ctx.validate("ResourceVersionsTrace", obs, count=len(lines))
    ctx.assumptions += ["the compiled modules that _util imports are replaced by empty ones; the resources folder is a scratch tree", "release numbers are compared as written: 1 and 1.0 are different versions"]
