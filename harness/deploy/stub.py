#!/usr/bin/env -S python3 -IS
"""Stands in for cmake, ctest, sudo, makensis, git and cmd.exe's rmdir in sessions with the deployment scripts."""
import glob, hashlib, json, os, shutil, sys

SOURCES = ("source", "interface", "CMakeLists.txt")


def tree_hash(root):
    h = hashlib.sha1()
    for s in SOURCES:
        p = os.path.join(root, s)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, x in os.walk(p) for f in x if f.endswith(("cxx", "hxx")))
        for f in fs: h.update(f[len(root):].encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def write(path, what):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: json.dump(what, f)


def cmake(a):
    a = [y for x in a for y in (x.split(" ", 1) if x.startswith("--") and " " in x else [x])]    # CMake takes "--config Release" as one, too
    if "--system-information" in a:
        print('CMAKE_VERSION "3.28.3"\nCMAKE_ROOT "%s"' % os.environ["STUB_CMAKE_ROOT"]); return 0
    if "--help" in a:
        print("Generators\n* Visual Studio 17 2022        = Generates Visual Studio 2022 project files.\n  Visual Studio 16 2019 [arch] = Generates older ones.\n  Ninja = x"); return 0
    if "--version" in a: print("cmake version 3.28.3"); return 0
    if "--build" in a:
        b = a[a.index("--build") + 1].replace("\\", "/")
        opt = lambda o, d: a[a.index(o) + 1] if o in a else d
        target, config = opt("--target", opt("-t", "all")), opt("--config", "")
        c = json.load(open(os.path.join(b, "stub.cache")))
        if target.lower() not in ("ansakstring", "ansakstringtest", "all"): return 1
        if target.lower() == "ansakstringtest" and c["arch"] is None and target != "ansakStringTest": return 1
        if not os.path.isfile(os.path.join(c["root"], "CMakeLists.txt")): return 1
        out = {"hash": tree_hash(c["root"]), "ver": c["ver"], "cxx": c["cxx"]}
        if c["arch"] is None: write(os.path.join(b, *([config or "Debug"] if c["gen"] == "Xcode" else []), "libansakString.a"), {"kind": "lib", **out})
        else:
            for e in ("lib", "pdb"): write(os.path.join(b, config, "ansakString." + e), {"kind": "%s:%s:%s" % (e, c["arch"], config), **out})
        return 0
    src = None; ver = arch = None; k = 0; gen = "Unix Makefiles"
    b = os.getcwd()
    while k < len(a):
        x = a[k]
        if x == "-S": src = a[k + 1]; k += 1
        elif x == "-B": b = os.path.abspath(a[k + 1].replace("\\", "/")); k += 1
        elif x in ("-G", "-A", "-T"):
            if x == "-A": arch = a[k + 1]
            if x == "-G": gen = a[k + 1]
            k += 1
        elif x.startswith("-G"): gen = x[2:]
        elif x.startswith("-A"): arch = x[2:]
        elif x.startswith("-DANSAK_UNICODE_SUPPORT"): ver = x.split("=", 1)[1]
        elif not x.startswith("-") and x: src = x
        k += 1
    root = os.path.abspath((src or ".").replace("\\", "/"))
    if not os.path.isfile(os.path.join(root, "CMakeLists.txt")): return 1
    cache = os.path.join(b, "stub.cache")
    old = json.load(open(cache)) if os.path.exists(cache) else {"cxx": os.environ.get("CXX", ""), "ver": None}
    ver = ver or old["ver"] or "16"
    write(cache, {"root": root, "ver": int(ver) if ver in map(str, range(7, 17)) else 16, "arch": arch, "cxx": old["cxx"], "gen": gen})
    return 0


def nsis(script):
    """What the installer would put where, and what its uninstaller would delete."""
    fs, removes, out, part = [], [], None, None
    place = lambda x: x.strip().strip('"').replace("$INSTDIR", "").replace("\\", "/").strip("/")
    for l in open(script, encoding="utf-8", errors="replace"):
        w = l.split(";")[0].split(None, 1)
        if not w: continue
        k, rest = w[0].lower(), w[1].strip() if len(w) > 1 else ""
        if k == "section": part = "remove" if rest.strip('"').lower() == "uninstall" else "install"
        elif k in ("sectionend", "functionend"): part = None
        elif k == "function": part = "function"
        elif k == "setoutpath": out = place(rest)
        elif k == "file" and part == "install":
            for f in sorted(glob.glob(place(rest))):
                if os.path.isfile(f): fs.append([os.path.join(out, os.path.basename(f)), open(f, errors="replace").read()])
        elif k == "writeuninstaller": fs.append([place(rest), "uninstaller"])
        elif k == "delete" and part == "remove": removes.append(place(rest))
    return fs, removes


def main(name, a):
    if name == "cmake": return cmake(a)
    if name == "uname": print(os.environ.get("STUB_UNAME", "Linux")); return 0
    if name == "sudo": os.execvp(a[0], a)
    if name == "makensis":
        if "/VERSION" in a: print("v3.08"); return 0
        v = None
        for l in open("ansakVersion.nsh"):
            if "ANSAK_UNICODE_SUPPORT" in l: v = l.split()[-1]
        fs, removes = nsis(a[-1])
        with open("ansak-string-u%s-setup.exe" % v, "w") as f: json.dump({"ver": int(v), "files": fs, "removes": removes}, f)
        return 0
    if name == "rmdir":                             # cmd.exe's
        for x in a:
            if x.lower() not in ("/s", "/q"): shutil.rmtree(x.replace("\\", "/"))
        return 0
    return 0                                        # ctest, git, dpkg-deb, ...


sys.exit(main(os.path.basename(sys.argv[0]), sys.argv[1:]))
