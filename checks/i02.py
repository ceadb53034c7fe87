import json, random
XS = [[[1, 1, 3]], [[1, 1, 2], [1, 2, 7]], [[2, 1, 5], [1, 1, 1]], [[3, 2, 4], [2, 2, 0], [3, 1, 6]], []]
DEC = [[[1, 2]], [[1, 0], [2, 0]], [[2, 1], [1, 3]]]
def run(ctx):
    ctx.build("process")
    cs = ctx.generate("InteractionTotalsDesign", f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxX = {ctx.pick(3, 4)}\n MaxD = {ctx.pick(2, 3)}\nINVARIANT Inv\n")
    rnd = random.Random(ctx.seed)
    lines = []
    for c in sorted(cs, key=json.dumps):
        hows = ["both", "mixed", "only", "reload", "json"]
        for how in rnd.sample(hows, ctx.pick(1, 5)):
            lines.append(json.dumps({"kind": "coll", "how": how, "e": rnd.choice([2, 5, 0]), "p": rnd.choice([12, 6, 0, 3]), "rt": rnd.randrange(1, 4), "xsdata": [XS[k-1] for k in c["xs"]], "decdata": [DEC[k-1] for k in c["dec"]], **c}))
    obs = ctx.drive("process", lines, "coll")
    if obs: ctx.validate("InteractionTotalsTrace", obs, count=len(lines))
    ctx.assumptions += ["the interactions in the collection are scripted stand-ins with known strengths; a cross section lists each of its targets once"]
