#!/usr/bin/env python3
"""Runs calls of siren.download in processes of their own that can be stopped between any two
lines, killed, and served by a server that misbehaves. Usage: fetch.py script out"""
import sys, os, json, io, hashlib, http.client, urllib.request, urllib.error, importlib.util, tempfile, shutil, signal, struct, zipfile, random, traceback, socket, email, base64, stat
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "python", "download.py")
CHUNK = 1 << 16
GOOD = random.Random(7).randbytes(2 * CHUNK + 9000)
WRONG = random.Random(8).randbytes(2 * CHUNK + 9000)
OLD = b"the content that was there before\n" * 10
SHORT, CUT = GOOD[:CHUNK + 777], GOOD[:CHUNK]
SHA = hashlib.sha256(GOOD).hexdigest()

# ---- the server -------------------------------------------------------------------------------
class Wire(io.RawIOBase):
    def __init__(self, data, fault): self.d, self.pos, self.fault = data, 0, fault
    def readable(self): return True
    def readinto(self, b):
        n = min(len(b), len(self.d) - self.pos)
        if n == 0 and self.fault:
            if self.fault == "interrupt": raise KeyboardInterrupt()
            raise ConnectionResetError(104, "Connection reset by peer")
        b[:n] = self.d[self.pos:self.pos + n]; self.pos += n
        return n
class Sock:
    def __init__(self, data, fault): self.w = Wire(data, fault)
    def makefile(self, *a, **k): return io.BufferedReader(self.w)
    def close(self): pass
def respond(body, length, fault=None):
    head = b"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\n" + (b"Content-Length: %d\r\n" % length if length is not None else b"Connection: close\r\n") + b"\r\n"
    r = http.client.HTTPResponse(Sock(head + body, fault), method="GET"); r.begin(); r.url = "http://x/"; r.msg = r.reason
    return r
REQ = [0]
def serve(handler):
    def urlopen(req, *a, **k):
        url = req if isinstance(req, str) else req.full_url
        REQ[0] += 1
        return handler(url)
    urllib.request.urlopen = urlopen
    urllib.request.OpenerDirector.open = lambda self, req, *a, **k: urlopen(req)
def body_of(srv, full, length, wrong=WRONG):
    n = len(full) if length else None
    if srv == "full": return respond(full, n)
    if srv == "short": return respond(full[:CHUNK + 777], n)
    if srv == "cut": return respond(full[:CHUNK], n)
    if srv == "wrong": return respond(wrong, len(wrong) if length else None)
    if srv == "garbage": g = b"<html>sorry</html>" * 50; return respond(g, len(g))
    if srv == "corrupt":
        b = bytearray(full); b[200] ^= 0xff; b[-400] ^= 0; return respond(bytes(b), n)
    if srv == "error": raise urllib.error.HTTPError("http://x/", 404, "Not Found", email.message.Message(), io.BytesIO(b"no"))
    if srv == "reset": return respond(full[:CHUNK + 5000], n, "reset")
    if srv == "interrupt": return respond(full[:CHUNK + 5000], n, "interrupt")
    raise SystemExit(3)

# ---- processes that can be stopped between two lines ---------------------------------------------
def load():
    spec = importlib.util.spec_from_file_location("siren_download", SRC); m = importlib.util.module_from_spec(spec); sys.modules["siren_download"] = m; spec.loader.exec_module(m)
    return m
class Proc:
    def __init__(self, call):
        self.ctl_r, self.ctl_w = os.pipe(); self.rep_r, self.rep_w = os.pipe()
        self.ended = None; self.started = False; self.req = 0; self.count = 0; self.res = ""
        self.pid = os.fork()
        if self.pid == 0:
            try: self.child(call)
            finally: os._exit(9)
        os.close(self.ctl_r); os.close(self.rep_w)
    def child(self, call):
        os.close(self.ctl_w); os.close(self.rep_r)
        st = {"left": 0, "n": 0}
        def wait():
            d = os.read(self.ctl_r, 4)
            if len(d) < 4: os._exit(8)
            st["left"] = struct.unpack("<i", d)[0]
        def say(x):
            b = json.dumps(x).encode(); os.write(self.rep_w, struct.pack("<i", len(b)) + b)
        def tick():
            st["n"] += 1
            if st["left"] > 0:
                st["left"] -= 1
                if st["left"] == 0: say({"e": "pause", "req": REQ[0], "n": st["n"]}); wait()
        def local(frame, event, arg):
            if event == "line": tick()
            return local
        names = {"extract", "_extract_member", "copyfileobj", "copy", "copyfile", "move", "write_bytes", "extractall"}
        def tracer(frame, event, arg):
            c = frame.f_code
            if c.co_filename == SRC or (c.co_name in names and ("zipfile" in c.co_filename or "shutil" in c.co_filename)): return local
            return None
        sys.stdout = open(os.devnull, "w"); sys.stderr = sys.stdout
        if os.getuid() == 0:
            try: os.setgroups([]); os.setgid(65534); os.setuid(65534)
            except OSError: pass
        wait(); REQ[0] = 0
        sys.settrace(tracer)
        try: res = call(); e = "ok"
        except BaseException as x:
            e = "error"; res = f"{type(x).__name__}: {x}"[:200]
        sys.settrace(None)
        say({"e": e, "req": REQ[0], "n": st["n"], "res": str(res)}); os._exit(0)
    def run(self, n):
        """n lines (0: to the end); returns the event"""
        if self.ended: return self.ended
        self.started = True
        os.write(self.ctl_w, struct.pack("<i", n if n > 0 else -1))
        h = os.read(self.rep_r, 4)
        if len(h) < 4: self.stop(); self.ended = "died"; return "died"
        k = struct.unpack("<i", h)[0]; b = b""
        while len(b) < k: b += os.read(self.rep_r, k - len(b))
        r = json.loads(b); self.req = r["req"]; self.count = r["n"]
        if r["e"] != "pause": self.ended = r["e"]; self.res = r["res"]; self.stop()
        return r["e"]
    def kill(self):
        if not self.ended: os.kill(self.pid, signal.SIGKILL); self.ended = "killed"
        self.stop()
        return "killed"
    def stop(self):
        if self.pid:
            os.close(self.ctl_w); os.close(self.rep_r); os.waitpid(self.pid, 0); self.pid = 0
LEN = {}
def play(calls, keys, turns, parts, fresh, snap):
    """calls: functions; keys: name of the kind of call, to know how long it runs; fresh(): makes the scene; snap(): what is there"""
    for f, k in zip(calls, keys):
        if k not in LEN:
            fresh(); p = Proc(f); p.run(0); LEN[k] = max(1, p.count)
    fresh()
    ps = [Proc(f) for f in calls]; obs = []
    for t in turns:
        p = ps[t["p"] - 1]; L = LEN[keys[t["p"] - 1]]
        if t["e"] == "kill": was = bool(p.ended); ev = "none" if was else p.kill(); ran = False
        else:
            n = (t["q"] * L) // parts if t["e"] == "pause" else 0
            if p.ended or (t["e"] == "pause" and n == 0): ev, ran = "none", False
            else: ev, ran = p.run(n), True
        o = {"p": t["p"], "ev": ev, "ran": ran, "req": p.req, "res": p.res}; o.update(snap()); obs.append(o)
    for p in ps:
        if not p.ended: p.kill()
    return obs, not any(x["ev"] in ("killed", "died") for x in obs)

# ---- scenes ----------------------------------------------------------------------------------------
ROOT = None
def clean(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d); os.chmod(d, 0o777)
def kind(path):
    try: b = open(path, "rb").read()
    except OSError: return "absent"
    return {GOOD: "good", OLD: "old", WRONG: "wrong", SHORT: "short", CUT: "cut"}.get(b, "other")
def walk(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)
def file_scene(dl, s, parts):
    d = os.path.join(ROOT, "f"); dest = os.path.join(d, "sub", "dest.bin"); rec = [{"key": "other.bin", "links": {"self": "http://x/other"}}, {"key": "dest.bin", "links": {"self": "http://x/file"}}]
    def fresh():
        clean(d)
        if s["init"] == "old": os.makedirs(os.path.dirname(dest)); os.chmod(os.path.dirname(dest), 0o777); open(dest, "wb").write(OLD); os.chmod(dest, 0o666)
    def call(c):
        def f():
            serve(lambda url: respond(json.dumps({"entries": rec}).encode(), None) if "api" in url else body_of(c["srv"], GOOD if url.endswith("file") else WRONG, c["len"]))
            os.umask(0o022); sha = SHA if c["sha"] else ""
            if c["k"] == "file": dl.download_file("http://x/file", dest, sha256=sha, show_progress=s.get("v", 0) % 2 == 0)
            elif s.get("v", 0) % 3 == 0: dl.ensure_zenodo_files("5", [{"name": "dest.bin", "path": "sub/dest.bin", **({"sha256": sha} if sha else {})}], d)
            else: dl.ensure_files([{"path": dest, "url": "http://x/file", **({"sha256": sha} if sha else {})}])
        return f
    def snap():
        k = kind(dest); m = True
        if k not in ("absent", "old"): m = stat.S_IMODE(os.stat(dest).st_mode) & 0o444 == 0o444
        return {"dest": k, "extra": sum(1 for f in walk(d) if f != "sub/dest.bin"), "mode": m}
    obs, nk = play([call(c) for c in s["calls"]], [json.dumps([c, s["init"], s.get("v", 0) % 6]) for c in s["calls"]], s["turns"], parts, fresh, snap)
    return {"g": "file", "calls": s["calls"], "init": s["init"], "turns": obs, "nokill": nk}
def list_scene(dl, s):
    d = os.path.join(ROOT, "l"); clean(d); n = len(s["specs"]); p = [os.path.join(d, f"dir{k % 2}", f"file{k}") for k in range(n)]; z = s.get("v", 0) % 2 == 1
    for k, x in enumerate(s["specs"]):
        if x["there"]: os.makedirs(os.path.dirname(p[k]), exist_ok=True); os.chmod(os.path.dirname(p[k]), 0o777); open(p[k], "wb").write(OLD)
    def call():
        rec = [{"key": f"name{k}", "links": {"self": f"http://x/{x['url']}"}} for k, x in enumerate(s["specs"]) if x["url"] != "none"]
        serve(lambda url: respond(json.dumps(rec).encode(), None) if "api" in url else body_of("full" if url.endswith("ok") else "error", GOOD, True))
        if z: dl.ensure_zenodo_files("5", [{"name": f"name{k}", "path": os.path.relpath(p[k], d)} for k in range(n)], d)
        else: dl.ensure_files([{"path": p[k], **({} if x["url"] == "none" else {"url": "http://x/" + x["url"]})} for k, x in enumerate(s["specs"])])
    q = Proc(call); ev = q.run(0)
    return {"g": "list", "specs": [dict(x, url="bad" if z and x["url"] == "none" else x["url"]) for x in s["specs"]], "ev": ev, "req": q.req, "api": 1 if z else 0, "after": [kind(x) for x in p]}
def dir_scene(dl, s, parts):
    d = os.path.join(ROOT, "d"); mod = os.path.join(d, "pkg", "resources", "detectors", "X", "X-v1"); home = os.path.join(d, "home"); exp = os.path.join(home, ".siren", "resources", "detectors", "X", "X-v1")
    def fresh():
        clean(d); os.makedirs(mod); os.makedirs(home); os.chmod(home, 0o777); os.chmod(mod, 0o755 if s["ro"] else 0o777)
    def call(): os.environ["HOME"] = home; return dl.writable_data_dir(mod)
    obs, nk = play([call] * s["n"], [f"dir{s['ro']}"] * s["n"], s["turns"], parts, fresh, lambda: {"extra": len(walk(d))})
    for o in obs: o["res"] = "given" if o["res"] == mod else "mirror" if o["res"] == exp else o["res"]
    return {"g": "dir", "ro": s["ro"], "turns": obs, "nokill": nk}
def path_scene(dl, s):
    d = os.path.join(ROOT, "p"); clean(d); w = {"install": os.path.join(d, "i"), "download": os.path.join(d, "w")}
    for k, x in w.items():
        os.makedirs(x); f = os.path.join(x, "sub", "f.dat")
        if s[k] == "file": os.makedirs(os.path.dirname(f)); open(f, "w").write("x")
        elif s[k] == "dir": os.makedirs(f)
        elif s[k] == "dangling": os.makedirs(os.path.dirname(f)); os.symlink("/nonexistent/x", f)
    r = dl.resolve_data_path(w["install"], w["download"], os.path.join("sub", "f.dat"))
    return {"g": "path", "install": s["install"], "download": s["download"], "res": "install" if r == os.path.join(w["install"], "sub", "f.dat") else "download" if r == os.path.join(w["download"], "sub", "f.dat") else "other"}
# archives: contents told apart by the archive
def big(a, f): return (f"archive {a} member {f}\n".encode() + random.Random(f"{a}{f}").randbytes(CHUNK + 30000)) if f.endswith(".bin") else f"archive {a} member {f}\n".encode() * 20
def make_zip(a, members, dirs=True):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED) as z:
        seen = set()
        for f in members:
            if dirs and "/" in f and os.path.dirname(f) not in seen: seen.add(os.path.dirname(f)); z.writestr(zipfile.ZipInfo(os.path.dirname(f) + "/"), b"")
            z.writestr(zipfile.ZipInfo(f), big(a, f))
    return b.getvalue()
def hist_scene(dl, s, arch, files, parts):
    top = os.path.join(ROOT, "h"); d = os.path.join(top, "dest"); zips = {k + 1: make_zip(k + 1, sorted(a["m"]), s.get("v", 0) % 2 == 0) for k, a in enumerate(arch)}
    def fresh(): clean(top); os.makedirs(d); os.chmod(d, 0o777); open(os.path.join(top, "outside.txt"), "w").write("x")
    def call(c):
        a = arch[c["a"] - 1]
        def f():
            os.umask(0o022)
            def h(url):
                if "api" in url:
                    if f"/{a['rec']}/" not in url: raise urllib.error.HTTPError(url, 404, "no", email.message.Message(), io.BytesIO())
                    return respond(json.dumps([{"key": x["name"], "links": {"self": f"http://x/z{k + 1}"}} for k, x in enumerate(arch) if x["rec"] == a["rec"]]).encode(), None)
                return body_of(c["srv"], zips[int(url[-1])], True)
            serve(h); dl.ensure_zenodo_archive(a["rec"], a["name"], d, prefix=c["x"])
        return f
    def snap():
        st = {}
        for f in files:
            try: b = open(os.path.join(d, f), "rb").read()
            except OSError: st[f] = "absent"; continue
            st[f] = next((str(k + 1) for k, a in enumerate(arch) if f in a["m"] and b == big(k + 1, f)), "other")
        w = walk(d); extra = sum(1 for x in w if x not in files and not x.endswith(".zip") and os.path.getsize(os.path.join(d, x)) > 1000) + sum(1 for x in w if x.endswith(".tmp"))
        return {"f": st, "extra": extra, "out": sorted(os.listdir(top)) != ["dest", "outside.txt"]}
    obs, nk = play([call(c) for c in s["calls"]], [json.dumps([c, "arch", s.get("v", 0) % 2]) for c in s["calls"]], s["turns"], parts, fresh, snap)
    return {"g": "hist", "calls": s["calls"], "turns": obs, "nokill": nk}
def evil_scene(dl, s):
    top = os.path.join(ROOT, "e", "u", "v"); clean(os.path.join(ROOT, "e")); os.makedirs(top); os.chmod(top, 0o777); os.chmod(os.path.dirname(top), 0o777)
    d = os.path.join(top, "dest"); sib = os.path.join(top, "dest2"); out = os.path.join(top, "out")
    for x in (d, sib, out): os.makedirs(x); os.chmod(x, 0o777)
    os.symlink(out, os.path.join(d, "link")); os.symlink(sib, os.path.join(d, "sib")); os.makedirs(os.path.join(d, "real")); os.chmod(os.path.join(d, "real"), 0o777); os.symlink(os.path.join(d, "real"), os.path.join(d, "inner"))
    names = [x.replace("@TOP", top) for x in s["names"]]
    def outside(): return [x for x in walk(os.path.join(ROOT, "e")) if not x.startswith("u/v/dest/")]
    z = make_zip(9, names, False); o0 = outside()
    def call():
        serve(lambda url: respond(json.dumps([{"key": "z.zip", "links": {"self": "http://x/z"}}]).encode(), None) if "api" in url else respond(z, len(z)))
        dl.ensure_zenodo_archive("3", "z.zip", d, prefix=s["x"])
    p = Proc(call); ev = p.run(0); q = Proc(call); again = q.run(0)
    if os.getuid() != 0: pass
    return {"g": "evil", "names": s["names"], "x": s["x"], "escapes": s["escapes"], "ev": ev, "again": again, "out": outside() != o0, "res": p.res}

def main():
    global ROOT
    ROOT = tempfile.mkdtemp(prefix="siren-fetch-"); os.chmod(ROOT, 0o777)
    try:
        dl = load(); out = open(sys.argv[2], "w")
        for line in open(sys.argv[1]):
            s = json.loads(line); g = s["g"]
            if g == "file": o = file_scene(dl, s, s["parts"])
            elif g == "list": o = list_scene(dl, s)
            elif g == "path": o = path_scene(dl, s)
            elif g == "dir": o = dir_scene(dl, s, s["parts"])
            elif g == "hist": o = hist_scene(dl, s, s["arch"], s["files"], s["parts"])
            else: o = evil_scene(dl, s)
            out.write(json.dumps(o) + "\n"); out.flush()
        out.close()
    finally: shutil.rmtree(ROOT, ignore_errors=True)
main()
