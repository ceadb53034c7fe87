import json, random
ALL = '{"vtime", "stime", "tmass", "thel", "pa", "params"}'
def cfg(n, ops, emit): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = {n}\n Ops = {ops}\n EmitAt = {emit}\nINVARIANT Inv\n"
def run(ctx):
    ctx.build("finalstate")
    ctx.model_check("FinalStateDesign", cfg(ctx.pick(4, 6), '{"vtime", "stime"}', 99))
    hs = ctx.generate("FinalStateDesign", cfg(3, '{"vtime", "stime"}', 3))
    hs += ctx.generate("FinalStateDesign", cfg(2, ALL, 2))
    hs += ctx.generate("FinalStateDesign", cfg(10, ALL, 10), simulate=ctx.pick(100, 1000), depth=12, seed=ctx.seed, sample=ctx.pick(150, 3000))
    hs += [[]]
    rnd = random.Random(ctx.seed)
    lines = []
    for h in hs:
        lines.append(json.dumps({"ops": h, **{k: rnd.random() < .5 for k in ("preset", "rest", "givena", "shrink", "self")}}))
    obs = ctx.drive("finalstate", lines, "hist")
    if obs: ctx.validate("FinalStateTrace", obs, count=len(lines))
    ctx.assumptions += ["final states with two outgoing particles whose kinematics are fully given (partial kinematics are E03's subject)"]
