#!/usr/bin/env python3
"""Drives siren's resource lookup (python/_util.py) on scratch trees. Usage: resources.py script out"""
import sys, os, json, types, importlib.util, tempfile, shutil, random, logging
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
def stub(name, **kw):
    m = types.ModuleType(name); m.__dict__.update(kw); m.__path__ = []; sys.modules[name] = m; return m
siren = stub("siren"); siren.dataclasses = stub("siren.dataclasses"); siren.math = stub("siren.math")
siren.interactions = stub("siren.interactions", DarkNewsCrossSection=object, DarkNewsDecay=object)
for n in ("numpy", "awkward", "h5py"): stub(n)
spec = importlib.util.spec_from_file_location("siren._util", os.path.join(REPO, "python", "_util.py"))
U = importlib.util.module_from_spec(spec); sys.modules["siren._util"] = U; spec.loader.exec_module(U)
for l in (U.logger, logging.getLogger()): l.setLevel(logging.CRITICAL)
logging.disable(logging.CRITICAL)
WORDS = ["", "ab", "deb", "x"]

def spell(v, rnd, plain=False):
    """one of the spellings of a version; returns it and whether every number is written out"""
    c = (lambda s: s) if plain else (lambda s: rnd.choice([s, s.upper(), s.capitalize()]))
    z = (lambda n: str(n)) if plain else (lambda n: rnd.choice(["", "", "0"]) + str(n))
    full = True
    def num(n):
        nonlocal full
        if n == 0 and not plain and rnd.random() < 0.3: full = False; return ""
        return z(n)
    s = "" if plain else rnd.choice(["", "v", "V"])
    if v["e"]: s += z(v["e"]) + "!"
    s += ".".join(z(n) for n in v["rel"])
    if v["pre"]:
        s += ("" if plain else rnd.choice(["", "-", "_", "."])) + c(rnd.choice([["a", "alpha"], ["b", "beta"], ["rc", "c", "pre", "preview"]][v["pre"] - 1]))
        n = num(v["pn"]); s += (rnd.choice(["", "-", "_", "."]) if n and not plain else "") + n
    if v["post"]:
        if rnd.random() < 0.25 and not plain and s[-1].isdigit(): s += "-" + z(v["on"])
        else:
            s += ("." if plain else rnd.choice(["", "-", "_", "."])) + c("post" if plain else rnd.choice(["post", "rev", "r"])); n = num(v["on"]); s += (rnd.choice(["", "-", "_", "."]) if n and not plain else "") + n
    if v["dev"]:
        s += ("." if plain else rnd.choice(["", "-", "_", "."])) + c("dev"); n = num(v["dn"]); s += (rnd.choice(["", "-", "_", "."]) if n and not plain else "") + n
    if v["loc"]: s += "+" + ".".join(c(WORDS[x["w"]]) if x["w"] else z(x["n"]) for x in v["loc"])
    return s, full
# a name that must be read back as the version it stands for: separators of names and versions are both "-", so keep to clear ones
def tag(v, rnd, first): return ("v" if first else rnd.choice(["", "V"])) + spell(v, rnd, True)[0] if first else rnd.choice(["0", "00"]) + spell(v, rnd, True)[0]
RES = {"flux": ("fluxes", "load_flux", U.get_flux_model_path), "detector": ("detectors", "load_detector", U.get_detector_model_path), "processes": ("processes", "load_processes", U.get_processes_model_path)}
def snapshot(d): return sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in b + c)
def find(s, root, rnd):
    kind = rnd.choice(sorted(RES)); folder, _, get = RES[kind]; base = os.path.join(root, folder); os.makedirs(base)
    tree = []; V = s["vs"]
    for k in s["names"]:
        n = s["pool"][k - 1]; d = os.path.join(base, n["n"]); os.mkdir(d); subs = []
        if s["top"]: open(os.path.join(d, kind + ".py"), "w").write("")
        order = list(s["subs"]); rnd.shuffle(order)
        for x in order:
            if x == 0: sub, v = rnd.choice(["data", "notes-old", "extra_2"]), []
            elif x == 8: sub, v = n["n"] + "-" + tag(V[0], rnd, False), [V[0]]
            else: sub, v = rnd.choice([n["n"], n["n"].lower()]) + "-" + tag(V[x - 1], rnd, True), [V[x - 1]]
            os.mkdir(os.path.join(d, sub)); subs.append({"s": sub, "v": v})
        open(os.path.join(d, n["n"] + "-v99"), "w").write("a file, not a folder")
        os.mkdir(os.path.join(d, "__pycache__"))
        tree.append({"n": n["n"], "low": n["low"], "top": s["top"], "subs": subs})
    open(os.path.join(base, s["ask"]["n"] + "_file"), "w").write("")
    v = [] if s["v"] == 0 else [V[s["v"] - 1]] if s["v"] < 8 else [dict(V[0], rel=[77])]
    q = s["ask"]["n"] + ("-" + rnd.choice(["v", "", "V", "0"]) + spell(v[0], rnd, True)[0] if v else "")
    before = snapshot(root)
    try:
        p = get(q, must_exist=s["must"]) if s["file"] else U._get_model_path(q, prefix=folder, is_file=False, must_exist=s["must"])
        p = os.path.relpath(p, base)
    except ValueError: p = "refused"
    return {"tree": tree, "ask": {"q": s["ask"]["n"], "low": s["ask"]["low"], "v": v, "must": s["must"], "file": s["file"]}, "path": p, "tidy": snapshot(root) == before}
def load(s, root, rnd):
    kind = s["kind"]; folder, fn, get = RES[kind]; d = os.path.join(root, folder, "Thing", "Thing-v2"); os.makedirs(d); os.makedirs(os.path.join(root, folder, "Thing", "Thing-v1"))
    open(os.path.join(root, folder, "Thing", "Thing-v1", kind + ".py"), "w").write(f"def {fn}(*a, **k): return -9, a, k\n")
    xs = []; state = "none"; mark = 0; f = os.path.join(d, kind + ".py")
    for op in s["ops"]:
        if op != "load":
            state = op; mark += 1
            if op == "none":
                if os.path.exists(f): os.unlink(f)
            else:
                body = {"good": f"helper = {mark}\ndef {fn}(*a, **k):\n    'doc {mark}'\n    return {mark}, a, k\n", "broken": "x = 1\nraise RuntimeError('broken')\n", "noload": "helper = 3\n"}[op]
                open(f, "w").write(body)
            continue
        mods = set(sys.modules); a, k = (rnd.randrange(9),), {"z": rnd.randrange(9)}; ok = doc = True
        name = rnd.choice(["Thing", "thing-v2", "Thi", "THING-2"])
        try:
            L = U.get_resource_loader(kind, name) if rnd.random() < 0.5 else None
            r = L(*a, **k) if L is not None else U.load_resource(kind, name, *a, **k) if rnd.random() < 0.5 or kind == "detector" else getattr(U, fn)(name, *a, **k)
            if r is None: got = -1
            else: got = r[0]; ok = r[1] == a and r[2] == k
            if L is not None: doc = L.__doc__ == f"doc {mark}" and L.helper == mark and U.__dict__[{"flux": "flux_docs", "detector": "detector_docs", "processes": "process_docs"}[kind]](name) == f"doc {mark}"
        except RuntimeError: got = -2
        except AttributeError: got = -3
        xs.append({"file": state, "mark": mark, "got": got, "args": ok, "doc": doc, "clean": set(sys.modules) == mods})
    return {"xs": xs}
def listing(s, root, rnd):
    want = []
    for n in s["names"]:
        for k, (folder, _, _) in RES.items(): os.makedirs(os.path.join(root, folder, n), exist_ok=True)
        want.append(n)
    for k, (folder, _, _) in RES.items():
        os.makedirs(os.path.join(root, folder, "__pycache__"), exist_ok=True); open(os.path.join(root, folder, "README"), "w").write(""); open(os.path.join(root, folder, "zfile"), "w").write("")
    got = [U.list_fluxes(), U.list_detectors(), U.list_processes()]
    want = sorted(want); return {"got": got, "want": [want, [x for x in want if x != "visuals"], want]}
def main(script, out):
    with open(out, "w") as o:
        for line in open(script):
            s = json.loads(line); rnd = random.Random(s.get("seed", 1)); g = s["g"]; r = {"g": g}
            if g == "version":
                t, full = spell(s["v"], rnd); n = U.normalize_version(t)
                r.update(v=s["v"], full=full, text=t, norm=n, again=U.normalize_version(n), junk=all(U.decompose_version(x) == {} for x in ("", "x", "1..2", "v", "1.0+", "a1", "1-")))
            elif g == "order":
                texts = [spell(v, rnd)[0] for v in s["vs"]]; ts = [U.tokenize_version(t) for t in texts]
                r.update(vs=s["vs"], texts=texts, lt=[[a < b for b in ts] for a in ts], eq=[[a == b for b in ts] for a in ts])
            else:
                root = tempfile.mkdtemp(prefix="res."); U.resource_package_dir = lambda root=root: root
                try: r.update({"find": find, "load": load, "list": listing}[g](s, root, rnd))
                finally: shutil.rmtree(root)
            o.write(json.dumps(r) + "\n"); o.flush()
main(sys.argv[1], sys.argv[2])
