import json, random
from vlib import VERIF
def cfg(what, p, inv=""): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"{what}\"\n Shared = FALSE\n P = {p}\n{inv}"
def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model_check("FetchDesign", cfg("model", 0, "INVARIANTS Sound Tidy\n"))
    lines = []
    P = 14
    for what, n in (("solo", ctx.pick(700, None)), ("two", ctx.pick(900, 9000))):
        for s in ctx.generate("FetchDesign", cfg(what, P if what == "solo" else ctx.pick(5, 9)), sample=n):
            lines.append(dict(s, g="file", parts=P if what == "solo" else ctx.pick(5, 9), v=rnd.randrange(6)))
    spec = [{"there": t, "url": u} for t in (False, True) for u in ("ok", "bad", "none")]
    for n in (1, 2, 3):
        for _ in range(ctx.pick(25, 200)):
            lines.append({"g": "list", "specs": [rnd.choice(spec) for _ in range(n)], "v": rnd.randrange(2)})
    kinds = ("file", "dir", "absent", "dangling")
    lines += [{"g": "path", "install": a, "download": b} for a in kinds for b in kinds]
    q = ctx.pick(6, 14)
    for ro in (False, True):
        for i in range(q + 1):
            for j in range(q + 1):
                lines.append({"g": "dir", "ro": ro, "n": 2, "parts": q, "turns": [{"p": 1, "q": i, "e": "pause"}, {"p": 2, "q": j, "e": "pause"}, {"p": 1, "q": 0, "e": "end"}, {"p": 2, "q": 0, "e": "end"}]})
    obs = ctx.drive(VERIF + "/drivers/py/fetch.py", [json.dumps(x) for x in lines], "fetch", timeout=700)
    if obs: ctx.validate("FetchTrace", obs, count=len(lines))
    ctx.assumptions += ["processes are stopped and killed between lines of Python (also of the standard library's copying), renames are atomic", "the server is a stand-in behind urllib's urlopen, with http.client's own response class"]
