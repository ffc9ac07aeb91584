"""Sessions with the package targets: the real Makefile, configure, CMake and CPack in scratch copies, as an unprivileged user (C27)."""
import hashlib, json, os, random, re, shutil, subprocess, tarfile
from vlib import REPO, HARNESS, Broken
import deploy, find

NOBODY = deploy.NOBODY
HDRS = deploy.HDRS
STUBS = ("rpm", "rpmbuild", "debtap", "lsb_release", "uname", "sudo", "git", "dpkg-deb")
PROGRAM = """#include <ansak/string.hxx>
#include <cstdio>
int main() { std::puts(ansak::getUnicodeVersionSupported().c_str()); return ansak::toLower("A") == "a" ? 0 : 1; }
"""
EDITS = ("source/string.cxx", "interface/string.hxx", "source/string_toutf8.cxx", "interface/string_trim.hxx", "interface/string_splitjoin.hxx", "source/encoding_check_predicate.cxx")
DISTROS = ("", "Debian", "Ubuntu", "Fedora", "CentOS", "RedHat", "openSUSE Leap", "Arch", "n/a")


def prepare(c):
    """deploy-base, with tests that do nothing."""
    deploy.prepare(c)
    base = c.path("pkg-base")
    shutil.copytree(c.path("deploy-base"), base)
    for d, _, fs in os.walk(os.path.join(base, "test")):
        for f in fs:
            if f.endswith(".cxx"): open(os.path.join(d, f), "w").write("int main() { return 0; }\n" if f == "string_test.cxx" else "int nothing_%s = 0;\n" % re.sub(r"\W", "_", f))
    with open(os.path.join(base, "submods", "googletest", "CMakeLists.txt"), "w") as f: f.write("add_library( gtest INTERFACE )\nadd_library( gtest_main INTERFACE )\n")
    stubs = c.path("pkg-stubs"); os.makedirs(stubs)
    for s in STUBS: shutil.copy(os.path.join(HARNESS, "packages", s if s == "lsb_release" else "stub.py"), os.path.join(stubs, s)); os.chmod(os.path.join(stubs, s), 0o755)
    # who asks for the distribution asks the stand-in
    for n in ("packaging.cmake", "CMakeLists.txt"):
        p = os.path.join(base, n)
        if os.path.isfile(p): t = open(p).read(); open(p, "w").write(t.replace("/usr/bin/lsb_release", os.path.join(stubs, "lsb_release")))
    asks = "lsb_release" in open(os.path.join(base, "packaging.cmake")).read() if os.path.isfile(os.path.join(base, "packaging.cmake")) else False
    m = re.search(r"project\s*\(\s*ansakString\s+VERSION\s+([\d.]+)", open(os.path.join(base, "CMakeLists.txt")).read())
    return base, stubs, asks, m[1] if m else ""


class Session:
    def __init__(self, c, base, stubs, project, k, distro, tools, multi, seed):
        self.c, self.k, self.project, self.multi = c, k, project, multi
        self.distro, self.tools = distro, tools
        self.r = random.Random(seed)
        self.top = c.path(f"pkg{k}")
        self.root, self.home = os.path.join(self.top, "tree"), os.path.join(self.top, "home")
        shutil.copytree(base, self.root); os.makedirs(self.home)
        self.expected = {os.path.relpath(os.path.join(d, f), self.root): open(os.path.join(d, f), "rb").read() for d, _, fs in os.walk(self.root) for f in fs}
        self.hist = [self.headers()]
        subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", self.top], check=True)
        self.env = {"PATH": f"{stubs}:/usr/local/bin:/usr/bin:/bin", "HOME": self.home, "LC_ALL": "C.UTF-8", "TMPDIR": self.home, "STUB_DISTRO": distro, "STUB_TOOLS": ",".join(tools),
                    "MAKEFLAGS": "", "CMAKE_BUILD_PARALLEL_LEVEL": "2"}
        self.steps, self.nedits, self.known = [], 0, {}

    def headers(self): return {x: self.expected["interface/" + x] for x in HDRS}

    def run(self, cmd):
        try: p = subprocess.run(cmd, cwd=self.root, env=self.env, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired: return -99
        self.out = (p.stdout + p.stderr)[-1500:]
        return p.returncode

    def do(self, op):
        self.out = ""
        if op[0] == "configure": rc = self.run(["./configure", "--prefix", self.home, "--unicode-version", str(op[1]), "--compiler", "g++"])
        elif op[0] == "edit":
            f = EDITS[(self.r.randrange(6) + self.nedits) % len(EDITS)]; self.nedits += 1
            if f not in self.expected: f = EDITS[0]
            self.put(f, self.expected[f] + b"// %d\n" % self.nedits)
            g = "source/string_tolower.cxx" if "source/string_tolower.cxx" in self.expected else EDITS[0]   # the library tells which edit it is
            self.put(g, re.sub(rb"\nchar ansakEdit\[\] = .*\n", b"\n", self.expected[g]) + b'\nchar ansakEdit[] = "ansakEdit=%d.";\n' % self.nedits)
            self.hist.append(self.headers()); rc = 0
        else: rc = self.run(["make", "--no-print-directory", *(["GENERATOR=Ninja Multi-Config", "CONFIG=Release"] if self.multi else []), op[1]])
        self.steps.append({"op": list(op), "rc": rc, **self.look(), "out": self.out if rc else ""})

    def put(self, f, t):
        with open(os.path.join(self.root, f), "wb") as g: g.write(t)
        self.expected[f] = t

    def judge(self, held, prefix):
        """held: path -> contents; where the headers and the library belong begins with prefix."""
        want = {f"{prefix}include/ansak/{h}": h for h in HDRS}
        lib = f"{prefix}lib/libansakString.a"
        whole = int(set(held) == set(want) | {lib})
        edits = set(range(len(self.hist)))
        for p, h in want.items(): edits &= {i for i, x in enumerate(self.hist) if x[h] == held.get(p)}
        marks = set(re.findall(rb"ansakEdit=(\d+)\.", held.get(lib, b"")))
        edits &= {int(x) for x in marks} if marks else {0}
        ver = 0
        if whole:
            d = os.path.join(self.top, "try"); shutil.rmtree(d, ignore_errors=True)
            for p, t in held.items():
                q = os.path.join(d, p[len(prefix):]); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "wb").write(t)
            open(os.path.join(d, "p.cxx"), "w").write(PROGRAM)
            p = subprocess.run(["g++", "-std=c++11", "-Iinclude", "p.cxx", "lib/libansakString.a", "-o", "p"], cwd=d, capture_output=True)
            if p.returncode == 0:
                p = subprocess.run([os.path.join(d, "p")], capture_output=True, text=True)
                m = re.fullmatch(r"(\d+)\.0\.0\n", p.stdout)
                if m and p.returncode == 0: ver = int(m[1])
        return [sorted(edits), ver, whole]

    def package(self, fmt, f, data):
        base = os.path.basename(f)
        m = re.search(r"-u?(\d+)(?=[-.])", base)
        named = int(m[1]) if m else 0
        meta = int(self.project in base or fmt == "rpm")
        if fmt == "deb":
            d = os.path.join(self.top, "x"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(os.path.join(d, "p.deb"), "wb").write(data)
            subprocess.run(["/usr/bin/dpkg-deb", "-x", "p.deb", "out"], cwd=d, check=False)
            held = {os.path.relpath(os.path.join(q, n), os.path.join(d, "out")): open(os.path.join(q, n), "rb").read() for q, _, ns in os.walk(os.path.join(d, "out")) for n in ns}
            say = lambda x: subprocess.run(["/usr/bin/dpkg-deb", "-f", "p.deb", x], cwd=d, capture_output=True, text=True).stdout.strip()
            deps = [re.split(r"[\s(|:]", x.strip())[0] for x in say("Depends").split(",") if x.strip()]
            meta &= int(re.search(rf"(?<!\d){named}(?!\d)", say("Package")) is not None and say("Version").split("-")[0] == self.project and all(exists(x) for x in deps))
            return [fmt, named, *self.judge(held, "usr/"), meta]
        if fmt == "tgz":
            import io
            try:
                with tarfile.open(fileobj=io.BytesIO(data)) as t: held = {x.name.removeprefix("./"): t.extractfile(x).read() for x in t.getmembers() if x.isfile()}
            except Exception: held = {}
            first = base[:-len(".tar.gz")] + "/"
            return [fmt, named, *self.judge(held, first), meta]
        if fmt == "rpm":
            j = json.loads(data)
            meta &= int(re.search(rf"(?<!\d){named}(?!\d)", j["said"]["Name"]) is not None and j["said"]["Version"] == self.project)
            return [fmt, named, *self.judge({p: bytes.fromhex(x) for p, x in j["files"]}, "usr/"), meta & int(len(j["files"]) == len(j["listed"]))]
        j = json.loads(data)                                          # debtap's
        inner = self.package("deb", base[:-len(".pkg.tar.zst")] + ".deb", bytes.fromhex(j["deb"]))
        return ["zst", *inner[1:]]

    def look(self):
        tree, pkgs, seen = 1, [], set()
        b = os.path.join(self.root, "build")
        for f in sorted(os.listdir(b)) if os.path.isdir(b) else []:
            fmt = next((x for e, x in ((".tar.gz", "tgz"), (".deb", "deb"), (".rpm", "rpm"), (".pkg.tar.zst", "zst")) if f.endswith(e)), None)
            if not fmt: continue
            data = open(os.path.join(b, f), "rb").read()
            key = f, hashlib.sha1(data).hexdigest(), len(self.hist)
            if key not in self.known: self.known[key] = self.package(fmt, f, data)
            pkgs.append(self.known[key])
        for d, ds, xs in os.walk(self.root):
            rel = os.path.relpath(d, self.root)
            if rel == ".": ds[:] = [x for x in ds if x != "build"]
            for f in xs:
                n = f if rel == "." else rel + "/" + f
                if n in self.expected:
                    seen.add(n)
                    if open(os.path.join(d, f), "rb").read() != self.expected[n]: tree = 0
                elif n != "config.make": tree = 0
        if seen != set(self.expected): tree = 0
        return {"tree": tree, "pkgs": pkgs}


EXISTING = {}


def exists(name):
    """Is there a Debian package of that name?  (Those that are installed here, and a few more.)"""
    if re.fullmatch(r"libc6(-dev)?|libc-dev|libstdc\+\+6|libstdc\+\+-\d+-dev|libgcc-s1|libstdc\+\+-dev|g\+\+|c\+\+-compiler|build-essential|cmake", name): return True
    if name not in EXISTING:
        try: EXISTING[name] = subprocess.run(["dpkg-query", "-W", name], capture_output=True).returncode == 0
        except OSError: EXISTING[name] = True
    return EXISTING[name]


def session(c, prepared, k, distro, tools, multi, ops, seed):
    base, stubs, asks, project = prepared
    s = Session(c, base, stubs, project, k, distro, tools, multi, seed)
    try:
        for op in ops:
            if op[0] == "start": continue
            s.do(op)
            if s.steps[-1]["tree"] == 0: break
    finally: shutil.rmtree(s.top, ignore_errors=True)
    return {"k": "pkg", "distro": distro, "tools": sorted(tools), "multi": int(multi), "steps": s.steps}
