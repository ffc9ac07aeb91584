"""Sessions with the deployment scripts, in scratch copies, as an unprivileged user."""
import hashlib, json, os, random, shutil, subprocess, sys, time
from vlib import REPO, HARNESS, Broken

HERE = os.path.join(HARNESS, "deploy")
NOBODY = 65534
STUBS = ("cmake", "ctest", "sudo", "git", "dpkg-deb", "rpm", "debtap", "uname")
WINSTUBS = ("cmake", "ctest", "makensis", "git", "rmdir")
HDRS = ("string.hxx", "string_trim.hxx", "string_splitjoin.hxx")
EDITS = ("source/string.cxx", "interface/string.hxx", "source/string_internal.hxx", "interface/string_trim.hxx", "CMakeLists.txt",
         "interface/string_splitjoin.hxx", "source/bits16/char_to_lower.cxx", "interface/internal/string_decode_utf8.hxx", "source/string_tolower.cxx")
PICTURES = {}


def prepare(c):
    """What is copied for each session; small stand-ins for the big data files."""
    base = c.path("deploy-base"); os.makedirs(base)
    r = subprocess.run(["git", "-C", REPO, "ls-files", "-z"], capture_output=True)
    names = [n for n in r.stdout.decode().split("\0") if n] if r.returncode == 0 else []
    if not names:
        names = [os.path.relpath(os.path.join(d, f), REPO) for d, ds, fs in os.walk(REPO) if not os.path.relpath(d, REPO).startswith((".git", "_build", "build")) for f in fs]
    for n in names:
        src, dst = os.path.join(REPO, n), os.path.join(base, n)
        if not os.path.isfile(src): continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if n.endswith("UnicodeData.txt"): open(dst, "w").write("stand-in\n")
        else: shutil.copy(src, dst)
    os.makedirs(os.path.join(base, "submods", "googletest"), exist_ok=True)
    stubs = {"unix": c.path("stubs"), "win": c.path("winstubs")}
    for plat, names in (("unix", STUBS), ("win", WINSTUBS)):
        os.makedirs(stubs[plat])
        for s in names: shutil.copy(os.path.join(HERE, "stub.py"), os.path.join(stubs[plat], s)); os.chmod(os.path.join(stubs[plat], s), 0o755)
    shutil.copy(os.path.join(HERE, "winpy.py"), c.path("winpy.py"))
    os.chmod(c.dir, 0o755)
    return base, stubs


class Session:
    def __init__(self, c, base, stubs, k, plat, crowded, seed):
        self.c, self.plat, self.stubs, self.k = c, plat, stubs[plat], k
        self.r = random.Random(seed)
        self.top = c.path(f"ses{k}")
        # some have spaces in their paths, and some are other Unix-like systems
        sp = self.r.random() < 0.4
        self.uname = self.r.choices(["Linux", "Darwin", "MINGW64_NT-10.0-19045", "CYGWIN_NT-10.0"], (4, 2, 1, 1))[0] if plat == "unix" else "Linux"
        self.root, self.home, self.cm, self.other, self.tmp = (os.path.join(self.top, x) for x in (("our tree", "my home", "Program Files/CMake", "elsewhere", "tmp") if sp else ("tree", "home", "cmroot", "elsewhere", "tmp")))
        shutil.copytree(base, self.root, symlinks=True)
        for d in (self.home, os.path.join(self.cm, "Modules"), self.other, self.tmp): os.makedirs(d)
        self.nsis = self.r.random() < 0.6
        self.prefixes = {0: os.path.join(self.root, "C:/ProgramData"), 1: self.home, 2: os.path.join(self.top, "opt"), 3: os.path.join(self.top, "stage"), 4: os.path.join(self.top, "my things/all of them")}
        self.used = set()
        self.foreign = {}
        def keep(path, text="somebody else's\n"):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f: f.write(text)
            self.foreign[path] = text
        keep(os.path.join(self.home, "notes.txt")); keep(os.path.join(self.cm, "Modules", "FindOther.cmake")); keep(os.path.join(self.other, "mine.txt"))
        keep(os.path.join(self.top, "my"))
        if crowded:
            for p in (1, 2, 4):
                for n in ("include/other.h", "include/ansak/other.hxx", "include/ansak/string_more.hxx", "lib/libother.a", "lib/libansakOther.a", "lib/Win32/Release/other.lib", "lib/x64/Debug/ansakOther.pdb", "share/x"):
                    if self.r.random() < 0.7: keep(os.path.join(self.prefixes[p], n))
        self.dirs = [os.path.join(self.home, "include"), os.path.join(self.home, "lib")]
        for d in self.dirs: os.makedirs(d, exist_ok=True)
        self.expected = {os.path.relpath(os.path.join(d, f), self.root): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(self.root) for f in fs}
        self.hist = [self.picture()]
        subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", self.top], check=True)
        self.env = {"PATH": f"{self.stubs}:/usr/local/bin:/usr/bin:/bin", "HOME": self.home, "LC_ALL": "C.UTF-8", "STUB_CMAKE_ROOT": self.cm, "STUB_NSIS": "1" if self.nsis else "0", "STUB_UNAME": self.uname,
                    "PYTHONDONTWRITEBYTECODE": "1", "TMPDIR": self.tmp}
        self.steps, self.nedits = [], 0

    def picture(self):
        """What can be told apart of the sources: the hash of a build, and each header."""
        h = hashlib.sha1()
        for s in ("source", "interface", "CMakeLists.txt"):
            fs = [s] if s in self.expected else sorted((n for n in self.expected if n.startswith(s + "/") and n.endswith(("cxx", "hxx"))), key=lambda n: os.path.join(self.root, n))
            for f in fs: h.update(b"/" + f.encode() + b"\0" + self.expected[f] + b"\0")
        return {"hash": h.hexdigest(), **{x: self.expected["interface/" + x] for x in HDRS}}

    def run(self, cmd, cwd=None):
        try: p = subprocess.run(cmd, cwd=cwd or self.root, env=self.env, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired: return -99
        self.out = (p.stdout + p.stderr)[-1500:]
        return p.returncode

    def make(self, *targets):
        if self.plat == "unix": return self.run(["make", "--no-print-directory", *targets])
        return self.run([sys.executable, "-S", os.path.join(self.c.dir, "winpy.py"), self.stubs, "make.py", *targets])

    def configure(self, *args):
        if self.plat == "unix":
            rel = "../stage" in args
            if not rel and self.r.random() < 0.3: return self.run([os.path.join(self.root, "configure"), *args], cwd=self.other)
            return self.run(["./configure", *args])
        first = ["python3"] if self.r.random() < 0.5 else []
        return self.run([sys.executable, "-S", os.path.join(self.c.dir, "winpy.py"), self.stubs, "configure.py", *first, *args])

    def do(self, op):
        time.sleep(0.012)                            # make looks at time stamps
        self.out = ""
        if op[0] == "configure":
            p, v, cc = op[1:4]
            self.used.add(p)
            a = [["--prefix", "../stage" if p == 3 else self.prefixes[p]], ["--unicode-version", str(v)]]
            if cc: a.append(["--compiler", {1: "g++", 2: "clang++"}[cc]])
            self.r.shuffle(a)
            rc = self.configure(*sum(a, []), *(["-v"] if self.r.random() < 0.2 else []))
        elif op[0] == "badconf":
            bad = [["--bogus"], ["--prefix"], ["--unicode-version"], ["--compiler"]][self.r.randrange(4)]
            rc = self.configure(*bad)
        elif op[0] == "edit":
            f = EDITS[(op[1] + self.nedits) % len(EDITS)]; self.nedits += 1
            if f not in self.expected: f = EDITS[0]
            p = os.path.join(self.root, f)
            t = self.expected[f] + b"// %d\n" % self.nedits if not f.endswith(".txt") else self.expected[f] + b"# %d\n" % self.nedits
            if os.path.isdir(os.path.dirname(p)):
                with open(p, "wb") as g: g.write(t)
                os.chown(p, NOBODY, NOBODY)
            self.expected[f] = t; self.hist.append(self.picture()); rc = 0
            time.sleep(0.012)
        elif op[0] == "make": rc = self.make(op[1])
        else: rc = self.make(op[1], op[2])
        if self.plat == "win" and op[0] in ("make", "make2"): self.used.add(0)
        self.steps.append({"op": list(op), "rc": rc, **self.look(), "out": self.out if rc else ""})

    def about(self, area, path, text):
        """A file of the library: what it is, and which edits it may be from."""
        n = os.path.basename(path)
        if path == "FindANSAK.cmake": return [area, path, "find", [i for i in range(len(self.hist)) if text.encode() == self.expected["FindANSAK.cmake"]], 0, 0]
        if text == "uninstaller": return [area, path, "uninstaller", list(range(len(self.hist))), 0, 0]
        if n in HDRS:
            return [area, path, "h:" + n, [i for i, h in enumerate(self.hist) if h[n] == text.encode()], 0, 0]
        try: j = json.loads(text); return [area, path, j["kind"], [i for i, h in enumerate(self.hist) if h["hash"] == j["hash"]], j["ver"], {"": 0, "g++": 1, "clang++": 2}.get(j["cxx"], 9)]
        except Exception: return [area, path, "?", [], 0, 0]

    def files(self, area, top, skip):
        out = []
        for d, ds, fs in os.walk(top):
            ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
            for f in fs:
                p = os.path.join(d, f)
                if p in self.foreign: continue
                with open(p, errors="replace") as g: out.append(self.about(area, os.path.relpath(p, top), g.read()))
        return sorted(out, key=str)

    def look(self):
        fs, tree, others = [], 1, 1
        b = os.path.join(self.root, "build")
        for x in (["libansakString.a", "Release/libansakString.a"] if self.plat == "unix" else [f"{a}/{q}/ansakString.lib" for a in ("Win32", "x64") for q in ("Release", "Debug", "RelWithDebInfo", "MinSizeRel")]):
            p = os.path.join(b, x)
            if os.path.isfile(p): fs.append(self.about("build", "build/" + (x if self.plat != "unix" or os.path.dirname(x) != ("Release" if self.uname == "Darwin" else "") else "libansakString.a"), open(p).read()))
        for k, p in self.prefixes.items():
            if os.path.isdir(p) and (k in self.used or k in (1, 2, 4)): fs += self.files(f"p{k}", p, ())
        own = {"config.make", "configvars.py", "make.cmd"}
        owndirs = {"build", "__pycache__"} | ({"C:"} if 0 in self.used else set())
        seen = set()
        for d, ds, xs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            if rel == ".": ds[:] = [x for x in ds if x not in owndirs]
            for f in xs:
                n = f if rel == "." else rel + "/" + f
                if n in self.expected:
                    seen.add(n)
                    if open(os.path.join(d, f), "rb").read() != self.expected[n]: tree = 0
                elif n not in own: tree = 0
        if seen != set(self.expected): tree = 0
        for p, t in self.foreign.items():
            if not os.path.isfile(p) or open(p).read() != t: others = 0
        if sorted(os.listdir(self.other)) != ["mine.txt"]: others = 0
        if 1 not in self.used and not all(map(os.path.isdir, self.dirs)): others = 0
        mods = set(os.listdir(os.path.join(self.cm, "Modules"))) - {"FindOther.cmake"}
        mod = 0
        if mods:
            mod = 1
            if mods != {"FindANSAK.cmake"} or open(os.path.join(self.cm, "Modules", "FindANSAK.cmake"), "rb").read() != self.expected["FindANSAK.cmake"]: others = 0
        packs = []
        if self.plat == "win" and os.path.isdir(b):
            for f in sorted(os.listdir(b)):
                if f.endswith(".exe"):
                    try: j = json.load(open(os.path.join(b, f))); packs.append([j["ver"] if f == "ansak-string-u%s-setup.exe" % j["ver"] else 0, [self.about("pkg", p, t) for p, t in j["files"]], j["removes"]])
                    except Exception: packs.append([0, [], []])
        return {"tree": tree, "others": others, "mod": mod, "files": fs, "packs": packs}

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def session(c, base, stubs, k, plat, ops, seed, crowded):
    s = Session(c, base, stubs, k, plat, crowded, seed)
    try:
        for op in ops:
            if op[0] == "start" or (plat == "win" and not s.nsis and "package" in op[1:3]): continue
            s.do(op)
            if s.steps[-1]["tree"] == 0: break           # nothing sensible can follow
    finally: s.close()
    return {"k": "deploy", "plat": plat, "nsis": int(s.nsis), "crowded": int(crowded), "uname": s.uname, "root": os.path.basename(s.root), "steps": s.steps}
