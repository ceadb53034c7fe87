import json, random
from vlib import VERIF
ARCH = [{"rec": "11", "name": "d.zip", "m": ["data/a/x.bin", "data/a/y.txt", "data/a/sub/w.txt", "data/ab/t.txt", "data/b/z.txt", "top.txt"]},
        {"rec": "11", "name": "d.zip.e.zip", "m": ["more/c/x.bin", "data/a/y.txt"]},
        {"rec": "11", "name": "e.zip", "m": ["other/p.bin", "other/q.txt"]},
        {"rec": "1", "name": "1_e.zip", "m": ["odd/p.bin"]}]
FILES = sorted({f for a in ARCH for f in a["m"]})
def cfg(what, p, inv=""): return f"INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTANTS What = \"{what}\"\n InPlace = FALSE\n P = {p}\n{inv}"
# member names of an archive, the prefix asked for, and whether a requested member leaves the directory
EVIL = [(["../evil.txt"], "", True), (["a/x.txt", "../../evil.txt"], "", True), (["a/../../evil.txt"], "", True), (["@TOP/evil.txt"], "", True), (["../dest2/evil.txt"], "", True),
        (["link/evil.txt"], "", True), (["sib/evil.txt"], "", True), (["a/x.txt", "link/evil.txt"], "", True), (["a/x.txt", "link/evil.txt"], "link", True), (["a/x.txt", "link/evil.txt"], "a", False),
        (["a/x.txt", "../evil.txt"], "a", False), (["a/../../evil.txt", "a/x.txt"], "a", True), (["..a/x.txt", "b..c/y.txt"], "", False), (["inner/x.txt"], "", False), (["a/b/../c.txt"], "", False),
        (["..."], "", False), (["a/x.txt"], "", False), (["real/x.txt", "sib/x.txt", "b.txt"], "", True), (["link/deep/er/x.txt"], "", True), (["a/", "a/x.txt", "b/"], "", False)]
def run(ctx):
    rnd = random.Random(ctx.seed)
    ctx.model_check("ArchiveDesign", cfg("model", 0, "INVARIANT Stays\n"))
    sc = []
    for what, p, n in (("hist", 1, None), ("hist", 2, ctx.pick(150, None)), ("hist", 3, ctx.pick(200, 2500)), ("kill", ctx.pick(40, 90), None), ("over", ctx.pick(5, 12), ctx.pick(350, 4000))):
        if what == "hist" and p == 3: g = ctx.generate("ArchiveDesign", cfg(what, p), sample=n)
        else: g = ctx.generate("ArchiveDesign", cfg(what, p), sample=n)
        sc += [dict(s, g="hist", parts=p, v=rnd.randrange(2), arch=ARCH, files=FILES) for s in g]
    # longer histories with many different calls
    lines = [json.dumps(s) for s in sc] + [json.dumps({"g": "evil", "names": n, "x": x, "escapes": e}) for n, x, e in EVIL]
    obs = ctx.drive(VERIF + "/drivers/py/fetch.py", lines, "archive", timeout=700)
    if obs: ctx.validate("ArchiveTrace", obs, count=len(lines))
    ctx.assumptions += ["processes are stopped and killed between lines of Python; renames are atomic", "one archive per directory and prefix", "escapes are tried inside a scratch directory as an unprivileged user"]
