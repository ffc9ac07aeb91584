"""Runs a Python script of the repository as if it were on Windows: back slashes separate the parts of a path,
and commands are those of the stubs (first argument)."""
import builtins, functools, io, os, runpy, subprocess, sys

stubs, script, args = sys.argv[1], sys.argv[2], sys.argv[3:]


def fix(x):
    if isinstance(x, os.PathLike): x = os.fspath(x)
    return x.replace("\\", "/") if isinstance(x, str) else x


def wrap(f):
    @functools.wraps(f)
    def g(*a, **k): return f(*[fix(x) for x in a], **k)
    return g


for n in ("stat", "lstat", "mkdir", "unlink", "remove", "rmdir", "listdir", "scandir", "open", "rename", "replace", "utime", "chmod", "access"):
    setattr(os, n, wrap(getattr(os, n)))
for n in ("realpath", "abspath", "isdir", "isfile", "exists", "lexists", "dirname", "basename", "normpath", "getmtime"):
    setattr(os.path, n, wrap(getattr(os.path, n)))
builtins.open = io.open = wrap(io.open)
real = subprocess.Popen


class Popen(real):
    def __init__(self, a, *r, **k):
        a = a.split() if isinstance(a, str) else list(a)
        if os.path.basename(fix(a[0])).lower() in ("cmd.exe", "cmd"): a = a[2:]
        name = os.path.basename(fix(a[0])).lower()
        name = name[:-4] if name.endswith(".exe") else name
        p = os.path.join(stubs, name)
        if not os.path.isfile(p) or (name == "makensis" and os.environ.get("STUB_NSIS") != "1"): raise FileNotFoundError(a[0])
        if k.get("cwd"): k["cwd"] = fix(str(k["cwd"]))
        k.pop("shell", None); k.pop("executable", None)
        super().__init__([p, *map(str, a[1:])], *r, **k)


subprocess.Popen = Popen
sys.path.insert(0, os.getcwd())
sys.argv = [script, *args]
runpy.run_path(os.path.join(os.getcwd(), script), run_name="__main__")
