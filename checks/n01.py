import json, random
def run(ctx):
    ctx.build("tables")
    rnd = random.Random(ctx.seed)
    cs = []
    for part in ("one", "two", "trap", "poly"):
        cs += sorted(ctx.generate("TableInterpDesign", f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Part = \"{part}\"\nINVARIANT Inv\n", sample=ctx.pick(900, None)), key=json.dumps)
    hows = ["plain", "copy", "assign", "bin", "json", "binover", "add"]; rows = ["asis", "reverse", "rotate", "swap"]
    lines = []
    for c in cs:
        for _ in range(ctx.pick(1, 3)):
            d = dict(c)
            if c["k"] in ("one", "two"): d["how"] = rnd.choice(hows); d["rows"] = rnd.choice(rows)
            if c["k"] == "one":
                a = c["ax"]["a"]; d["q"] = list(range(4 * a[0] - 4, 4 * a[-1] + 5))
            if c["k"] == "two":
                a, b = c["ax"]["a"], c["ay"]["a"]
                qs = [(x, y) for x in range(4 * a[0] - 2, 4 * a[-1] + 3) for y in range(4 * b[0] - 2, 4 * b[-1] + 3)]
                d["q"] = [list(q) for q in (rnd.sample(qs, min(len(qs), 60)) + [(4 * x, 4 * y) for x in a for y in b])]
            lines.append(json.dumps(d))
    obs = ctx.drive("tables", lines, "tables")
    if obs: ctx.validate("TableInterpTrace", obs, count=len(lines))
    ctx.assumptions += ["values are compared to four decimal places; tables with a logarithmic axis have nodes and values that are powers of two or zero"]
