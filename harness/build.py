#!/usr/bin/env python3
"""Build the verification harness from /repo's current working tree.

Compiles every SIREN C++ source that can be compiled offline (including, with a shim for the
missing NamedType submodule, the geometry / DetectorModel / Injector / Weighter code that the
repository's own offline build leaves out) into static archives, and the drivers in
/verif/drivers on top of them.  Everything goes under /verif/.build (git-ignored)."""
import sysconfig, os, sys, glob, subprocess, hashlib, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

# Sources that need libraries that are not installed (photospline, delabella, marley, pythia8)
# or the Python interpreter.
SKIP = re.compile(r"/(test|pybindings|python)/|/py[A-Z]\w*\.cxx$|Marley|Pythia|FromSpline\.cxx$|DMesonELoss\.cxx$|math/private/Interpolation\.cxx$|HepMC3|LeptonInjector\.cxx$")
NEED_MISSING = re.compile(r'#include\s*[<"](photospline|delabella|marley|Pythia8)')

def sources():
    res = []
    for p in sorted(glob.glob(f"{REPO}/projects/*/private/**/*.cxx", recursive=True)):
        if SKIP.search(p[len(REPO):]):
            continue
        res.append(p)
    return res

# projects whose objects go in the core archive (the full archive adds the rest)
def is_full(p):
    rel = p[len(REPO)+1:]
    if rel.startswith("projects/geometry/") and not re.search(r"(MeshBuilder|Placement)\.cxx$", rel):
        return True
    if re.search(r"detector/private/(DetectorModel|Path|GDMLParser)\.cxx$", rel) or "/gdml/" in rel:
        return True
    if rel.startswith("projects/injection/") and not rel.endswith("/Process.cxx"):
        return True
    if re.search(r"distributions/private/(primary/area|primary/vertex|secondary)/", rel) and not re.search(r"(Depth|Range)Function\.cxx$", rel):
        return True
    return False

def vendor_sources():
    res = sorted(glob.glob(f"{REPO}/vendor/rk/rk/*.cc")) + sorted(glob.glob(f"{REPO}/vendor/crundec3/CRunDec3.1/*.cpp"))
    return [p for p in res if "example" not in p.lower() and "main" not in os.path.basename(p).lower()]

def flags():
    inc = [f"-I{d}" for d in sorted(glob.glob(f"{REPO}/projects/*/public"))]
    inc += [f"-I{REPO}/vendor/rk", f"-I{REPO}/vendor/crundec3", f"-I{REPO}/vendor/crundec3/CRunDec3.1",
            f"-I{VERIF}/harness/shim", f"-I{VERIF}/harness", "-I" + sysconfig.get_path("include")]
    return "-std=c++17 -O1 -g0 -w -DNDEBUG -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer " + " ".join(inc)

def gen(wide=False):
    os.makedirs(OUT, exist_ok=True)
    L = []
    cc = "ccache g++" if shutil.which("ccache") else "g++"
    L += ["ninja_required_version = 1.5", f"flags = {flags()}",
          "rule cxx", f"  command = {cc} $flags $extra -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
          "  description = CXX $out",
          "rule ar", "  command = rm -f $out && ar crs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in", "  description = AR $out",
          "rule link", "  command = g++ $in -Wl,--whole-archive $libs -Wl,--no-whole-archive $vend -o $out $ldflags", "  description = LINK $out",
          ""]
    def obj(p):
        rel = os.path.relpath(p, "/").replace("/", "_")
        o = f"{OUT}/obj/{rel}.o"
        L.append(f"build {o}: cxx {p}")
        return o
    core, full, objs = [], [], {}
    for p in sources():
        objs[p[len(REPO)+1:]] = o = obj(p)
        (full if is_full(p) else core).append(o)
    vend = [obj(p) for p in vendor_sources()]
    L.append(f"build {OUT}/libcore.a: ar {' '.join(core)}")
    L.append(f"build {OUT}/libfull.a: ar {' '.join(full)}")
    L.append(f"build {OUT}/libvendor.a: ar {' '.join(vend)}")
    for p in sorted(glob.glob(f"{VERIF}/drivers/*.cxx")):
        name = os.path.basename(p)[:-4]
        head = open(p).read(4000)
        m = re.search(r"//\s*LIBS:\s*(.*)", head)
        libs = m.group(1).split() if m else ["core"]
        m = re.search(r"//\s*EXTRA:\s*(.*)", head)
        o = f"{OUT}/obj/driver_{name}.o"
        L.append(f"build {o}: cxx {p}")
        if m: L.append(f"  extra = {m.group(1).replace(chr(64)+'REPO'+chr(64), REPO)}")
        if libs == ["none"]:
            L.append(f"build {OUT}/{name}: link {o}")
            L.append("  ldflags = -lpthread")
            continue
        m = re.search(r"//\s*SRC:\s*(.*)", head)
        if m:
            # own archive with the sources whose path matches one of the patterns
            pats = [re.compile(x) for x in m.group(1).split()]
            mine = [o2 for rel, o2 in objs.items() if any(x.search(rel) for x in pats)]
            L.append(f"build {OUT}/lib_{name}.a: ar {' '.join(mine)}")
            la = [f"{OUT}/lib_{name}.a"]
        else:
            la = [f"{OUT}/lib{l}.a" for l in libs]
        rest = f"{OUT}/libcore.a {OUT}/libfull.a " if wide and m else ""   # taken from on demand
        L.append(f"build {OUT}/{name}: link {o} | {' '.join(la)} {rest}{OUT}/libvendor.a")
        L.append(f"  libs = {' '.join(la)}")
        L.append(f"  vend = -Wl,--start-group {rest}{OUT}/libvendor.a -Wl,--end-group")
        L.append("  ldflags = -lpthread -ldl -lz -lgsl -lgslcblas")
    L.append("")
    txt = "\n".join(L)
    bn = f"{OUT}/build.ninja"
    if not os.path.exists(bn) or open(bn).read() != txt:
        open(bn, "w").write(txt)

def content_guard():
    """Object files are only reused while the sources' contents are the ones they were built
    from: file times alone are not trusted. After a change all objects are dropped and the
    unaffected ones come back from the compiler cache, which goes by content."""
    h = {}
    for root, top in ((f"{REPO}/projects", 1), (f"{REPO}/vendor/rk", 1), (f"{REPO}/vendor/crundec3", 1), (f"{VERIF}/harness", 1), (f"{VERIF}/drivers", 1)):
        for d, dirs, files in os.walk(root):
            dirs[:] = [x for x in dirs if x not in (".git", "test", "__pycache__")]
            for f in files:
                if f.endswith((".h", ".hpp", ".cxx", ".cpp", ".cc", ".icc", ".tcc", ".def", ".txx", ".inl", ".hh", ".c")):
                    q = os.path.join(d, f)
                    h[q] = hashlib.md5(open(q, "rb").read()).hexdigest()
    import json
    mf = f"{OUT}/contents.json"
    txt = json.dumps(h, sort_keys=True)
    if not os.path.exists(mf) or open(mf).read() != txt:
        if os.path.exists(mf):
            old = json.load(open(mf))
            changed = {k for k in set(old) | set(h) if old.get(k) != h.get(k)}
            if any(not k.startswith(f"{VERIF}/drivers") for k in changed):
                shutil.rmtree(f"{OUT}/obj", ignore_errors=True)
            else:
                for k in changed:
                    o = f"{OUT}/obj/driver_{os.path.basename(k)[:-4]}.o"
                    if os.path.exists(o): os.remove(o)
        open(mf, "w").write(txt)

def build(targets, quiet=True):
    gen()
    content_guard()
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(OUT, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_SLOPPINESS"] = "time_macros"
    env.pop("CCACHE_READONLY", None)
    cmd = ["ninja", "-k", "0", "-C", OUT] + [f"{OUT}/{t}" for t in targets]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and targets:
        # a driver links only the sources it names; when code moved to another file, link everything
        gen(wide=True)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    if not quiet:
        sys.stderr.write(r.stdout[-2000:])

if __name__ == "__main__":
    build(sys.argv[1:] or ["libcore.a", "libfull.a", "libvendor.a"], quiet=False)
