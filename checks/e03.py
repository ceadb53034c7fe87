import json, random
KIN = {"mass", "energy", "ke", "dir", "mom"}
def run(ctx):
    ctx.build("records")
    base = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("PrimaryRecordDesign", base + "CONSTANT EmitCases = FALSE\nINVARIANT Inv\nPROPERTY Monotone\n")
    g = ctx.generate("PrimaryRecordDesign", base + "CONSTANT EmitCases = TRUE\nINVARIANT Scn\n")
    scns = [x for x in g if "vals" in x]; cases = [x for x in g if "sets" in x]
    assert len(scns) == 6 and len(cases) == 2048, (len(scns), len(cases))
    rnd = random.Random(ctx.seed)
    lines = [json.dumps(x) for x in scns]
    n = 0
    def shuffled(s): l = list(s); rnd.shuffle(l); return l
    for rep in range(ctx.pick(2, 5)):
        for j, c in enumerate(cases):
            sets = c["sets"]
            for scn in ([1 + (j + rep) % 6] if not ctx.thorough else range(1, 7)):
                calls = shuffled(sets)
                d = {"op": "primary", "scn": scn, "sets": sets, "calls": calls, "order": "".join(shuffled("medkpflxvaVIt"))}
                if {"energy", "mom"} <= set(sets) and rnd.random() < .5:
                    d["calls"] = shuffled([q for q in sets if q not in ("energy", "mom")] + ["four"])
                if {"energy", "mom", "mass", "x0", "len"} <= set(sets) and rnd.random() < .5:
                    d["calls"] = shuffled([q for q in sets if q not in ("energy", "mom", "mass", "x0", "len")] + ["particle"])
                if rep % 2 == 1 and sets:
                    d["prescn"] = 1 + (scn + 1) % 6; d["pre"] = shuffled(sets)[: rnd.randrange(1, len(sets) + 1)]
                lines.append(json.dumps(d)); n += 1
    for c in cases:
        if not set(c["sets"]) <= KIN: continue
        for scn in range(1, 7):
            for pre in (False, True):
                d = {"op": "secondary", "scn": scn, "sets": c["sets"], "calls": shuffled(c["sets"]), "order": "".join(shuffled("medkpf"))}
                if {"energy", "mom"} <= set(c["sets"]) and rnd.random() < .5: d["calls"] = shuffled([q for q in c["sets"] if q not in ("energy", "mom")] + ["four"])
                if {"energy", "mom", "mass"} <= set(c["sets"]) and rnd.random() < .3: d["calls"] = shuffled([q for q in c["sets"] if q not in ("energy", "mom", "mass")] + ["particle"])
                if pre and c["sets"]: d["prescn"] = 1 + (scn + 1) % 6; d["pre"] = shuffled(c["sets"])
                lines.append(json.dumps(d)); n += 1
    obs = ctx.drive("records", lines, "subsets")
    if obs: ctx.validate("PrimaryRecordTrace", obs, count=n)
    ctx.assumptions += ["the quantities set are mutually consistent (one physical track) and the particle moves; values on exact Pythagorean lattices, compared to 3e-6 absolute"]
