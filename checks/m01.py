import json, random
def run(ctx):
    ctx.build("density")
    rnd = random.Random(ctx.seed)
    cs = sorted(ctx.generate("DensityProfileDesign", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Additive Grows\n", sample=ctx.pick(5000, None)), key=json.dumps)
    lines = [json.dumps({"g": "one", "c": c}) for c in cs]
    for _ in range(ctx.pick(6, 40)):
        p = rnd.sample(cs, 40); p += [dict(x, k=1, r=[0, 0, 0]) for x in rnd.sample(p, 15)]
        # elements that differ in exactly one part
        for x in rnd.sample(p, 15):
            y = json.loads(json.dumps(x)); k = rnd.choice(["ax", "o", "A", "f"])
            if k == "ax": y["ax"] = "radius" if x["ax"] == "axis" else "axis"
            elif k == "o": y["o"][rnd.randrange(3)] += 1
            elif k == "A": y["A"][rnd.randrange(3)] += 1
            else:
                if "p" in y["f"]:
                    if y["f"]["p"] and rnd.random() < .5: y["f"]["p"][rnd.randrange(len(y["f"]["p"]))] += 1
                    else: y["f"]["p"].append(1)
                else: y["f"][rnd.choice([q for q in ("a", "g", "x0") if q in y["f"]])] += 2
            p.append(y)
        rnd.shuffle(p); lines.append(json.dumps({"g": "pairs", "pool": p}))
    obs = ctx.drive("density", lines, "profiles")
    if obs: ctx.validate("DensityProfileTrace", obs, count=len(lines))
    ctx.assumptions += ["polynomials up to degree 3; radial profiles of odd degree and radial exponentials along lines that do not cross the origin", "values compared to 4 decimal places or 5e-5 relative; distances to 1e-2 m"]
