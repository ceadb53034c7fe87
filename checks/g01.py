import json, random
def run(ctx):
    ctx.build("rotation")
    lines = []
    for what, inv, n in (("one", "One", None), ("two", "Two", ctx.pick(1500, None)), ("euler", "Euler", ctx.pick(3000, None)), ("between", None, None)):
        quats = "some" if what == "two" and ctx.tier == "quick" else "all"
        cs = ctx.generate("RotationDesign", f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"{what}\"\n Quats = \"{quats}\"\n" + (f"INVARIANT {inv}\n" if inv else ""), sample=n)
        lines += [json.dumps({"g": what, "c": c}) for c in sorted(cs, key=json.dumps)]
    rnd = random.Random(ctx.seed)
    r = lambda m: [rnd.randint(-m, m) for _ in range(4)]
    for _ in range(ctx.pick(100, 1000)):
        q, p = r(12), r(12)
        if any(q) and any(p): lines += [json.dumps({"g": "one", "c": {"q": q}}), json.dumps({"g": "two", "c": {"a": q, "b": p}})]
        u, v = r(20)[:3], r(20)[:3]
        if any(u) and any(v): lines += [json.dumps({"g": "between", "c": {"u": u, "v": v}}), json.dumps({"g": "between", "c": {"u": u, "v": [-x for x in u]}})]
    # small angles and angles close to a half turn
    for q in ([0, 0, 1, 100], [0, 1, 0, -150], [-1, 0, 0, 99], [1, 0, -1, 160], [100, 0, 0, 1], [3, 120, -2, 1], [1, 1, 150, -1], [0, 2, 150, 150], [99, -100, 1, 0]):
        lines.append(json.dumps({"g": "one", "c": {"q": q}}))
    obs = ctx.drive("rotation", lines, "rot")
    if obs: ctx.validate("RotationTrace", obs, count=len(lines))
    ctx.assumptions += ["quaternions with integer direction, Euler angles with cosine and sine in fifths", "the in-place product and the sum with a number are outside the property"]
