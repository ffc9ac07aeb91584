"""find_package(ANSAK) in worlds that the specification lists, and projects that use the library (C25)."""
import os, random, shutil, subprocess
from vlib import REPO, HARNESS, Broken
import deploy

NOBODY = deploy.NOBODY
ARCHS, CONFIGS = ("Win32", "x64"), ("Release", "Debug", "RelWithDebInfo", "MinSizeRel")
CMAKE = shutil.which("cmake") or "/usr/bin/cmake"


def run(cmd, cwd, env, timeout=300):
    try: p = subprocess.run(cmd, cwd=cwd, env=env, user=NOBODY, group=NOBODY, extra_groups=[], stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return -99, ""
    return p.returncode, (p.stdout + p.stderr)[-3000:]


def environment(home): return {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": home, "LC_ALL": "C.UTF-8", "TMPDIR": home}


def touch(p):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f: f.write("x\n")


def lookup(c, k, w, seed):
    """One world: make it, run CMake twice, see what it found."""
    r = random.Random(seed * 7919 + k)
    top = c.path(f"world{k}")
    src = os.path.join(top, "user"); mods = os.path.join(top, "modules"); home = os.path.join(top, "home")
    names = {"A": "opt-a", "B": "opt b" if r.random() < 0.3 else "opt-b", "S": "std"}
    place = {p: os.path.join(top, n) for p, n in names.items()}
    for d in (src, mods, home, *place.values()): os.makedirs(d)
    shutil.copy(os.path.join(HARNESS, "find", "CMakeLists.txt"), src)
    shutil.copy(os.path.join(REPO, "FindANSAK.cmake"), mods)
    win = w["plat"] == "win"
    for p, xs in w["at"].items():
        libs = [n for n, x in (("String", "string"), ("String", "nohdr"), ("", "lib"), ("Sqlite", "sqlite")) if x in xs]
        for n in libs:
            if win:
                for a in ARCHS:
                    for q in CONFIGS: touch(f"{place[p]}/lib/{a}/{q}/ansak{n}.lib")
            else: touch(f"{place[p]}/lib/libansak{n}.a")
        for h, x in (("string.hxx", "string"), ("string_trim.hxx", "string"), ("string_splitjoin.hxx", "string"), ("runtime_exception.hxx", "libh"), ("sqlite_exception.hxx", "sqliteh")):
            if x in xs: touch(f"{place[p]}/include/ansak/{h}")
    subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", top], check=True)
    arch, vs = r.choice(ARCHS), r.random() < 0.5
    env = environment(home)
    if w["env"] != "-": env["ANSAK_DIR"] = place[w["env"]]
    args = [f"-DSTD={place['S']}", f"-DMODULES={mods}", f"-DAS_WIN={int(win)}", f"-DAS_ARCH={arch}", f"-DAS_VS={int(vs)}", f"-DWITH_SQLITE={int(w['sqlite'])}"]
    if w["var"] != "-": args.append(f"-DANSAK_DIR={place[w['var']]}")
    if w["isolate"]: args.append("-DANSAK_ISOLATE=True")
    if r.random() < 0.2: args.append("-DANSAK_DEBUG=1")
    which = lambda x, path: next((p for p in place if x == path(place[p])), "-" if not x else "?")
    def libpath(n):
        if not win: return lambda p: f"{p}/lib/libansak{n}.a"
        return lambda p: f"{p}/lib/{arch}/{'$<CONFIG>' if vs else 'Debug'}/ansak{n}.lib"
    def once():
        rc, out = run([CMAKE, "-S", src, "-B", os.path.join(top, "b"), *args], top, env)
        f = os.path.join(top, "b", "found.txt")
        lines = (open(f).read().split("\n") if os.path.exists(f) else []) + [""] * 7
        if os.path.exists(f): os.unlink(f)
        return rc, out, lines
    rc, out, ls = once()
    rc2, _, ls2 = once()
    b = (ls[0] + "000")[:3]
    e = {"k": "find", "plat": w["plat"], "at": w["at"], "var": w["var"], "env": w["env"], "sqlite": int(w["sqlite"]), "isolate": int(w["isolate"]),
         "rc": rc, "found": int(b[0]), "libf": int(b[1]), "sqlitef": int(b[2]), "string": which(ls[1], libpath("String")), "lib": which(ls[2], libpath("")), "sqlitelib": which(ls[3], libpath("Sqlite")),
         "include": which(ls[4], lambda p: p + "/include"), "dirs": sorted({which(x, lambda p: p + "/include") for x in ls[5].split(";") if x}), "again": int((rc, ls) == (rc2, ls2)),
         "arch": arch, "vs": int(vs), "out": out[-600:] if rc else ""}
    shutil.rmtree(top, ignore_errors=True)
    return e


def use(c, k, how, ver, cxx, std):
    """Install the library for real (or take it as a sub-directory) and build a program with it."""
    top = c.path(f"use{k}")
    tree, home, src, b, mods = (os.path.join(top, x) for x in ("tree", "home", "user", "b", "modules"))
    shutil.copytree(c.path("deploy-base"), tree)
    touch(os.path.join(tree, "submods", "googletest", "CMakeLists.txt"))
    open(os.path.join(tree, "submods", "googletest", "CMakeLists.txt"), "w").write("add_library( gtest INTERFACE )\nadd_library( gtest_main INTERFACE )\n")
    shutil.copytree(os.path.join(HARNESS, "find", "use"), src)
    for d in (home, mods): os.makedirs(d)
    shutil.copy(os.path.join(REPO, "FindANSAK.cmake"), mods)
    subprocess.run(["chown", "-R", f"{NOBODY}:{NOBODY}", top], check=True)
    env = environment(home)
    prefix, log, ok = home, "", True
    def step(*cmd, cwd=tree):
        nonlocal ok, log
        if ok: rc, out = run(list(cmd), cwd, env); ok = rc == 0; log = out
    if how == "find":
        step("./configure", "--prefix", home, "--unicode-version", str(ver), "--compiler", "g++")
        step("make", "install")
    elif how == "cmake":
        prefix = os.path.join(home, "opt")
        env["CXX"] = "g++"
        step(CMAKE, "-S", ".", "-B", "build", f"-DCMAKE_INSTALL_PREFIX={prefix}", f"-DANSAK_UNICODE_SUPPORT={ver}")
        step(CMAKE, "--build", "build", "--target", "ansakString")
        step(CMAKE, "--install", "build")
    env["CXX"] = cxx                                 # the user's; the library itself is built with all warnings, by g++
    a = [f"-DSTD_CXX={std}", f"-DMODULES={mods}", "-DCMAKE_BUILD_TYPE=" + ("Release", "Debug")[k % 2]]   # like the library's own or not
    if how == "sub": a += [f"-DSUB={tree}", f"-DANSAK_UNICODE_SUPPORT={ver}"]
    else: a.append(f"-DANSAK_DIR={prefix}")
    step(CMAKE, "-S", src, "-B", b, *a, cwd=top)
    step(CMAKE, "--build", b, cwd=top)
    built = ok
    if ok: rc, out = run([os.path.join(b, "user")], top, env)
    else: rc, out = -1, ""
    shutil.rmtree(top, ignore_errors=True)
    return {"k": "use", "how": how, "cxx": cxx, "std": std, "built": int(built), "ran": int(rc == 0), "version": out.strip()[-40:], "want": f"{ver}.0.0", "out": "" if built else log[-1200:]}
