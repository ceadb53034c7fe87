import json, random
def run(ctx):
    ctx.build("external")
    rnd = random.Random(ctx.seed); lines = []
    for part in ("cols", "broken", "rows", "many"):
        cs = sorted(ctx.generate("ExternalEventsDesign", f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS Part_ = \"{part}\"\nINVARIANT Inv\n", sample=ctx.pick({"broken": 400}.get(part, 1500), None)), key=json.dumps)
        for c in cs:
            ks = list(c["keys"]); rnd.shuffle(ks)
            if part == "rows" and any(r["k"] == "short" for r in c["rows"]) : pass
            c["keys"] = ks
            lines.append(json.dumps({"c": c, "sep": rnd.choice(["plain", "plain", "crlf", "space", "tab", "noeol"]), "n": rnd.choice([400, 401]) if part != "many" else 4000, "seed": rnd.randrange(1, 10**6)}))
    obs = ctx.drive("external", lines, "lists")
    if obs: ctx.validate("ExternalEventsTrace", obs, count=len(lines))
    ctx.assumptions += ["up to 6 rows; cell values are whole numbers in two notations", "header names are unique"]
