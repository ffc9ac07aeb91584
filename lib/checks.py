"""One function per property."""
import json, os
from models import models
from vlib import VERSIONS, CORES, Broken, REPO, log


def start_models(c):
    return [c.later(c.model, m, cfg, 3, 800, None, (), n) for m, cfg, n in models(c.prop, c.thorough)]


HUGE = ("C01", "C02", "C03", "C04", "C08", "C09", "C15", "C16", "C17")


def huge(c, lib):
    """Strings of billions of units; every call is judged by TLC. Nothing comes of a call that is slow."""
    if c.prop not in HUGE: return
    exe = c.exe("huge", ["drv_huge.cxx"], lambda: lib.result(), tag="h")
    try: mis, smp = c.shards(exe, n=4, tag="h", timeout=1200 if c.thorough else 120)
    except Broken as e: c.notes.append("huge strings: " + str(e)[:300]); return
    rej, _ = c.validate("Huge", mis + smp)
    for l in rej: c.violate(json.loads(l), "string of billions of units")
    c.notes.append(f"huge strings: {len(smp)} calls")


def codec(c):
    """Lockstep of the library with the specification's tables over families of strings; TLC judges the record."""
    lib = c.later(c.lib, 16)
    c.tables()
    text = c.later(c.exe, "text", ["drv_text.cxx"], lambda: lib.result(), tag="t") if c.prop == "C17" else None
    exe = c.exe("drv", ["drv_codec.cxx"], lambda: lib.result())
    ms = start_models(c)
    asn = c.later(sanitized, c, "asan", ["drv_codec.cxx"], ["--scale", "0.05" if c.thorough else "0.01", "--samples", "2"], "address", "g++", 4, of=8 if c.thorough else 40)
    big = c.later(huge, c, lib)
    mis, smp = c.shards(exe)
    if text:
        m, s = c.shards(text.result(), tag="t")
        mis += m; smp += s
    mis += asn.result()[0]
    c.judge(mis, smp)
    for m in ms + [big]: m.result()


CHECKS = {p: codec for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C11", "C14", "C15", "C17", "C21")}


def texts(c):
    """split and join: lockstep of the templates with the specification, for five character types."""
    lib = c.later(c.lib, 16)
    c.tables()
    exe = c.exe("drv", ["drv_text.cxx"], lambda: lib.result())
    ms = start_models(c)
    asn = c.later(sanitized, c, "asan", ["drv_text.cxx"], ["--scale", "0.1"], "address", "g++", 2, of=40)
    big = c.later(huge, c, lib)
    mis, smp = c.shards(exe)
    mis += asn.result()[0]
    c.judge(mis, smp)
    for m in ms + [big]: m.result()


CHECKS["C16"] = texts


def wide(c):
    """The adapters, in builds with wchar_t of 32 and of 16 bits and with narrow and wide TCHAR."""
    lib = c.later(c.lib, 16)
    c.tables()
    builds = [32, 16, 1, 2] if c.prop == "C18" else [1, 2]
    exes = [c.later(c.exe, "wide", ["drv_wide.cxx"], lambda: lib.result(), flags=("-std=c++17", "-O2", f"-DBUILD={b}"), tag=str(b)) for b in builds]
    ms = start_models(c)
    mis, smp = [], []
    for b, e in zip(builds, exes):
        try: e = e.result()
        except Broken as x:
            # another width of wchar_t is had by replacing the name, which takes functions that are inline
            if b == 32 or len(builds) == 2: raise
            c.notes.append(f"no build {b}: {str(x)[:200]}"); continue
        m, s = c.shards(e, tag=f"b{b}")
        mis += m; smp += s
    c.judge(mis, smp)
    for m in ms: m.result()


CHECKS.update({"C18": wide, "C19": wide})


def sweeps(c, libs, versions, args=()):
    """Runs drv_chars on each version's library; returns {version: path of its sweep}."""
    objs = {}
    def one(v):
        exe = c.exe(f"chars{v}", ["drv_chars.cxx"], libs[v], tag=f"c{v}")
        mis, _ = c.shards(exe, n=1, v=v, args=list(args), tag="sw")
        for l in mis: c.violate(json.loads(l), "in the sweep")     # a crash or a hang: never allowed
        return None if mis else c.path(f"sw.{v}.0.sweep.json")
    got = {v: f.result() for v, f in [(v, c.later(one, v)) for v in versions]}
    return {v: p for v, p in got.items() if p}


def more_sweeps(sw):
    """What other orders of the same questions gave, where it is not the same."""
    out = []
    for k in (1, 2):
        e = {v: p[:-len(".json")] + f"{k}.json" for v, p in sw.items()}
        e = {v: p for v, p in e.items() if os.path.exists(p)}
        if e: out.append(e)
    return out


def judge_sweep(c, sw, facets, spec="Spec", module="Sweep", extra=""):
    import re
    if not sw: return
    files = {f"sweep{v}.json": open(p).read() for v, p in sw.items()}
    vs = "{" + ",".join(map(str, sorted(sw))) + "}"
    fs = "{" + ",".join(f'"{f}"' for f in facets) + "}"
    r = c.tlc(module, cfgtext=f"CONSTANTS\n Checked = {vs}\n Facets = {fs}\n{extra}SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n", files=files, timeout=800)
    if r["rc"]: raise Broken(f"{module}: " + r["out"][-3000:])
    done = re.findall(r'<<"FACET", (\d+), "(\w+)">>', r["out"])
    want = len(sw) * len(facets) + (sum(v + 1 in sw for v in sw) if spec == "UpSpec" else 0)
    if len(done) != want: raise Broken(f"{module}: {len(done)} of {want} facets judged")
    c.states += r["distinct"]; c.transitions += r["generated"]; c.traces += len(done)
    c.models.append({"module": module, "distinct_states": r["distinct"], "generated_states": r["generated"], "wall_s": round(r["wall"], 1)})
    diff = {(v, f): d for v, f, d in re.findall(r'DIFF (\d+) (\w+) ([^\n]*)', r["out"])}
    for v, f in sorted(set(re.findall(r'<<"BAD", (\d+), "(\w+)">>', r["out"]))):
        c.violate({"version": int(v), "facet": f, "differences": diff.get((v, f), "")[:2000]}, "sweep")
    ids = {k["id"]: k["what"] for k in c.findings["known"] if k["property"] == c.prop}
    for k in re.findall(r'<<"KNOWNID", "([^"]+)">>', r["out"]):
        if k in ids: c.known[k] = ids[k]
    c.samples += [{"version": int(v), "facet": f} for v, f in done[:3]]


def chars(c):
    """Every value of every class, and every lower-case mapping, of all ten versions."""
    libs = {v: c.later(c.lib, v) for v in VERSIONS}
    c.tables()
    libs = {v: f.result() for v, f in libs.items()}
    asn = [c.later(sanitized, c, f"asan{v}", ["drv_chars.cxx"], [], "address", "g++", 1, v) for v in VERSIONS]
    sw = sweeps(c, libs, VERSIONS, ["--full", "1"] if c.thorough else [])
    for a in asn:
        for l in a.result()[0]: c.violate(json.loads(l), "in the sanitized sweep")
    for s in [sw] + more_sweeps(sw): judge_sweep(c, s, ["class32", "class16"] if c.prop == "C12" else ["lower", "lowerTr", "twice"])
    if c.thorough: c.notes.append("all 2^32 values")


CHECKS.update({"C12": chars, "C13": chars})


def cmake_libs(c, settings):
    """The library as a user of CMake gets it; settings is a list of values for ANSAK_UNICODE_SUPPORT (None: unset)."""
    import subprocess
    src = c.path("cm"); os.makedirs(src)
    with open(src + "/CMakeLists.txt", "w") as f:
        f.write(f"cmake_minimum_required(VERSION 3.10)\nproject(user CXX)\nadd_subdirectory({REPO} ansak)\n")
    def one(sv):
        b = c.path(f"cm-{sv}")
        cmd = ["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_CXX_COMPILER=g++"]
        if sv is not None: cmd.append(f"-DANSAK_UNICODE_SUPPORT={sv}")
        for k in (cmd, ["ninja", "-C", b, "ansakString"]):
            p = subprocess.run(k, capture_output=True, text=True)
            if p.returncode: raise Broken(f"cmake build for {sv}: {p.stdout[-2000:]}{p.stderr[-2000:]}")
        lib = os.path.join(b, "ansak", "libansakString.a")
        if not os.path.exists(lib): raise Broken("no library from cmake")
        return [lib]
    fs = [(sv, c.later(one, sv)) for sv in settings]
    return {sv: f.result() for sv, f in fs}


def versions(c):
    """CMake builds of all versions: what they report, what changes between them, and that nothing else does."""
    odd = [None, "6", "17", "16.0", "x"]
    fl = c.later(cmake_libs, c, VERSIONS + odd)
    direct = {v: c.later(c.lib, v) for v in VERSIONS}
    c.tables()
    libs = fl.result()
    sw = sweeps(c, {v: libs[v] for v in VERSIONS}, VERSIONS)
    for s in [sw] + more_sweeps(sw): judge_sweep(c, s, ["report", "class32", "class16", "lower", "lowerTr"], "UpSpec", "Versions", " UseSpec = FALSE\n")
    # the model itself: the specification's own data only ever adds
    judge_sweep(c, sw, [], "UpSpec", "Versions", " UseSpec = TRUE\n")
    # the build selected by number answers as that version's sources do; anything else is version 16
    load = lambda p: {k: x for k, x in json.load(open(p)).items()}
    def sweep_of(objs, v, tag):
        exe = c.exe(f"chars{tag}", ["drv_chars.cxx"], objs, tag="s" + tag)
        mis, _ = c.shards(exe, n=1, v=v, tag="sx" + tag)
        return None if mis else load(c.path(f"sx{tag}.{v}.0.sweep.json"))
    jobs = [(f"direct {v}", v, c.later(sweep_of, direct[v].result(), v, f"d{v}")) for v in VERSIONS]
    jobs += [(f"ANSAK_UNICODE_SUPPORT={o}", 16, c.later(sweep_of, libs[o], 16, f"o{i}")) for i, o in enumerate(odd)]
    for what, v, j in jobs:
        got = j.result()
        if got is not None and v in sw and got != load(sw[v]):
            c.violate({"setting": what, "expected_version": v, "reported": got["report"]}, "build selects other character data")
    # everything else is the same in all versions: a disagreement with the specification counts here only
    # when the versions differ in it
    def codec_run(v, *args, tag="vc"):
        if not args: kexe[v] = c.exe(f"codec{v}", ["drv_codec.cxx"], libs[v], flags=("-std=c++17", "-O1"), tag=f"k{v}")
        return c.shards(kexe[v], n=1, v=v, tag=tag, nshards=1 if c.thorough else 6, args=args or ["--hashes", c.path(f"hashes{v}")])
    kexe = {}
    runs = {v: f.result() for v, f in [(v, c.later(codec_run, v)) for v in VERSIONS]}
    import array
    sets = {}
    for v in VERSIONS:
        a = array.array("Q"); n = os.path.getsize(c.path(f"hashes{v}")) // 8
        with open(c.path(f"hashes{v}"), "rb") as f: a.fromfile(f, n)
        sets[v] = set(a)
    common = set.intersection(*sets.values())
    norm = lambda l: json.dumps({k: x for k, x in json.loads(l).items() if k != "v"}, sort_keys=True)
    ends = set.intersection(*[{norm(l) for l in runs[v][0]} for v in VERSIONS])
    for v in VERSIONS:
        for l in runs[v][0]:            # crashes and hangs
            if norm(l) not in ends: c.violate({"version": v, "event": json.loads(l)}, "not the same in all versions")
        d = sets[v] - common
        if d and len(c.violations) < 3:
            ev = codec_run(v, "--hashes", "/dev/null", "--find", str(min(d)), tag="vf")[0]
            c.violate({"version": v, "deviations of this version only": len(d), "event": json.loads(ev[0]) if ev else None}, "not the same in all versions")
    if common: c.notes.append(f"{len(common)} deviations that all versions share (other properties)")
    smp = runs[16][1] + runs[7][1]
    rej, known = c.validate("ApiTrace", smp[:3000])
    c.samples += [json.loads(l) for l in smp[:3]]


CHECKS["C23"] = versions


def tla_value(s):
    return json.loads(s.replace("<<", "[").replace(">>", "]"))


def simulate(c, module, cfgtext, num, depth, var="last"):
    """Behaviours that TLC generates from a specification: for each, the values of one variable."""
    import glob, re
    d = c.specdir()
    r = c.tlc(module, cfgtext=cfgtext, d=d, workers=1, extra=["-simulate", f"file={d}/tr,num={num}", "-depth", str(depth), "-seed", str(c.seed)])
    out = []
    for f in sorted(glob.glob(f"{d}/tr_*")):
        t = open(f).read()
        out.append([tla_value(x.replace("\n", " ")) for x in re.findall(rf"/\\ {var} = (<<.*?>>)\s*(?=/\\|\n\s*\n|\Z|STATE)", t, re.S)])
    if not out: raise Broken(f"{module}: no behaviours: " + r["out"][-1500:])
    c.models.append({"module": module + " (simulation)", "behaviours": len(out), "steps": sum(map(len, out)), "wall_s": round(r["wall"], 1)})
    return out


def sessions(c, module, mis, smp, cfgtext, what):
    """TLC replays recorded sessions; the ones it refuses are violations."""
    import re
    mis = sorted(set(mis), key=len)[:40]
    lines = mis + smp
    if not lines: return
    d = c.specdir()
    with open(os.path.join(d, "trace.ndjson"), "w") as f: f.write("\n".join(lines) + "\n")
    r = c.tlc(module, cfgtext=cfgtext, d=d, timeout=800)
    if r["rc"]: raise Broken(f"{module}:\n{r['out'][-3500:]}{r['err'][-500:]}")
    done = set(re.findall(r'<<"SESSION", (\d+)>>', r["out"]))
    if len(done) != len(lines): raise Broken(f"{module}: {len(done)} of {len(lines)} sessions judged; not: " + [l for i, l in enumerate(lines) if str(i + 1) not in done][0][:1500])
    c.states += r["distinct"]; c.transitions += r["generated"]; c.traces += len(lines)
    rej = sorted({int(x) - 1 for x in re.findall(r'<<"REJECTED", (\d+)>>', r["out"])})
    at = {int(a) - 1: int(b) for a, b in re.findall(r'<<"AT", (\d+), (\d+)>>', r["out"])}
    for i in rej: c.violate({**({"at": at[i]} if i in at else {}), **json.loads(lines[i])}, what)
    if mis and not rej: raise Broken(f"{module}: the walker and the specification disagree: " + mis[0][:600])
    if smp: c.samples += [json.loads(l) for l in sorted(smp, key=len)[len(smp) // 2:][:2]]


def predicates(c):
    lib = c.later(c.lib, 16)
    props = "PROPERTIES OnlyNarrows LookingChangesNothing\n"
    inv = "INVARIANTS TypeOK Conjunction ContradictionHoldsForNone EmptyHoldsForAll EqualityIsMeaning\n"
    n = 2
    m = c.later(c.model, "PredSession", "CONSTANTS\n Slots = {1, 2}\n Types = {0, 1, 2, 3, 4, 5}\nSPECIFICATION Spec\nVIEW View\n" + inv + "CHECK_DEADLOCK FALSE\n"
                if c.thorough else "CONSTANTS\n Slots = {1, 2}\n Types = {0, 1, 2, 5}\nSPECIFICATION Spec\n" + inv + props + "CHECK_DEADLOCK FALSE\n", 4)
    sim = c.later(simulate, c, "PredSession", "CONSTANTS\n Slots = {1, 2, 3, 4}\n Types = {0, 1, 2, 3, 4, 5}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", 300 if c.thorough else 60, 40)
    c.tables()
    exe = c.exe("drv", ["drv_pred.cxx"], lambda: lib.result())
    with open(c.path("script.txt"), "w") as f:
        for b in sim.result():
            for e in b: f.write(" ".join(map(str, e)) + "\n")
    asn = c.later(sanitized, c, "asan", ["drv_pred.cxx"], ["--scale", "0.1"], "address", "g++", 2)
    mis, smp = c.shards(exe, args=["--script", c.path("script.txt")])
    mis += asn.result()[0]
    sessions(c, "PredTrace", mis, smp, "CONSTANTS\n Slots = {1, 2, 3, 4}\n Types = {0}\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "predicate session")
    m.result()


CHECKS["C10"] = predicates


def walks(c):
    """Texts on their way through the encodings."""
    lib = c.later(c.lib, 16)
    inv = "INVARIANTS LosesNothing BrokenStays SettlesAtOnce Accepted NothingCutOff Canonical FitsArrives Injective\nCHECK_DEADLOCK FALSE\n"
    cps = "{65, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 128512, 1114111, 1114112, 2147483647}"
    m = c.later(c.model, "Session", f"CONSTANTS\n Cps = {cps}\n MaxCps = {3 if c.thorough else 2}\nSPECIFICATION Spec\nVIEW View\n" + inv, 4, 1500)
    few = "{1, 65, 127, 128, 2047, 2048, 55295, 57344, 65279, 65535, 65536, 128512, 1114111, 1114112, 2097151, 2097152, 67108864, 2147483647}"
    sim = c.later(simulate, c, "Session", f"CONSTANTS\n Cps = {few}\n MaxCps = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", 400 if c.thorough else 100, 12)
    ms = start_models(c)
    c.tables()
    exe = c.exe("drv", ["drv_walk.cxx"], lambda: lib.result())
    with open(c.path("script.txt"), "w") as f:
        for b in sim.result():
            for e in b: f.write(f"{e[0]} {len(e) - 1} " + " ".join(map(str, e[1:])) + "\n")
    mis, smp = c.shards(exe, args=["--script", c.path("script.txt")])
    sessions(c, "SessionTrace", mis, smp, "CONSTANTS\n Cps = {65}\n MaxCps = 1\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "walk")
    for x in [m] + ms: x.result()


CHECKS["C05"] = walks


def sanitized(c, what, srcs, args, san, cxx, n, v=16, of=None):
    """Runs a driver built with a sanitizer; its reports are violations."""
    import glob, subprocess
    fl = ("-O1", "-g1", f"-fsanitize={san}", "-fno-omit-frame-pointer")
    lib = c.lib(v, cxx=cxx, flags=("-std=c++11", *fl), tag="-" + what)
    exe = c.exe("san", srcs, lib, flags=("-std=c++17", *fl), cxx=cxx, tag="-" + what)
    log_ = c.path(f"sanlog-{what}")
    env = {"TSAN_OPTIONS": f"exitcode=66:halt_on_error=1:log_path={log_}", "ASAN_OPTIONS": f"exitcode=66:detect_leaks=0:allocator_may_return_null=1:log_path={log_}"}
    mis, smp, broken = [], [], None
    try: mis, smp = c.shards(exe, n=n, args=["--sanitized", "1", *args], tag="san" + what, env=env, v=v, nshards=of)
    except Broken as e: broken = e
    reports = [open(p, errors="replace").read() for p in sorted(glob.glob(log_ + ".*"))]
    if broken and any("unexpected memory mapping" in r for r in reports + [str(broken)]):
        c.notes.append(f"{what}: cannot run on this kernel"); return [], []
    reports = [r for r in reports if "WARNING: ThreadSanitizer" in r or "ERROR: AddressSanitizer" in r]
    for r in reports[:3]: c.violate({"sanitizer": what, "report": r[:3000]}, what)
    if broken and not reports: raise broken
    c.notes.append(f"{what}: {n} runs, {len(reports)} reports")
    return mis, smp


def pure(c):
    """The same calls in many circumstances."""
    lib = c.later(c.lib, 16)
    c.tables()
    base = "CONSTANTS\n Thr = {1, 2, 3}\n Calls = {1, 2, 3, 4}\n Results = {0, 1, 2}\n Sharing = %s\nSPECIFICATION ThSpec\nINVARIANTS Functional MemoIsValue\nPROPERTIES MemoStays\nCHECK_DEADLOCK FALSE\n"
    m = c.later(c.model, "Threads", base % "FALSE", 2)
    neg = c.later(c.tlc, "Threads", cfgtext=base % "TRUE", workers=1)
    ts = c.later(sanitized, c, "tsan", ["drv_pure.cxx"], ["--mode", "threads"], "thread", "g++", 4)
    asn = c.later(sanitized, c, "asan", ["drv_pure.cxx"], [], "address", "g++", 4)
    exe = c.exe("drv", ["drv_pure.cxx"], lambda: lib.result())
    mis, smp = c.shards(exe)
    for f in (ts, asn):
        x, y = f.result(); mis += x; smp += y[:20]
    sessions(c, "ThreadsTrace", mis, smp[:200], "CONSTANTS\n Thr = {0}\n Calls = {1}\n Results = {0}\n Sharing = FALSE\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "not a function of its arguments")
    m.result()
    if "Invariant Functional is violated" not in neg.result()["out"]: raise Broken("Threads: sharing is not noticed")


CHECKS["C20"] = pure


def life(c):
    """The same calls before, in and after main."""
    lib = c.later(c.lib, 16)
    c.tables()
    base = "CONSTANTS\n Thr = {0, 1}\n Calls = {1, 2, 3}\n Results = {0, 1}\n Sharing = FALSE\n Dynamic = %s\nSPECIFICATION LfSpec\nINVARIANTS Functional MemoIsValue\nPROPERTIES MemoStays PhasesPass\nCHECK_DEADLOCK FALSE\n"
    m = c.later(c.model, "Lifetime", base % "FALSE", 2)
    neg = c.later(c.tlc, "Lifetime", cfgtext=base % "TRUE", workers=1)
    asn = c.later(sanitized, c, "asan", ["drv_life.cxx"], [], "address", "g++", 8)
    exe = c.exe("drv", ["drv_life.cxx"], lambda: lib.result())
    mis, smp = c.shards(exe, n=64 if c.thorough else 16)
    x, y = asn.result(); mis += x; smp += y
    sessions(c, "LifetimeTrace", mis, smp[:200], "CONSTANTS\n Thr = {0}\n Calls = {1}\n Results = {0}\n Sharing = FALSE\n Dynamic = FALSE\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "in a phase of the program")
    m.result()
    if "Invariant Functional is violated" not in neg.result()["out"]: raise Broken("Lifetime: objects of the library's own are not noticed")


CHECKS["C28"] = life


def memory(c):
    """The same calls with memory refused at one place after the other."""
    lib = c.later(c.lib, 16)
    c.tables()
    n = (4, "<<2, 3, 1, 4>>") if c.thorough else (3, "<<2, 3, 1>>")
    base = f"CONSTANTS\n Calls = {{{', '.join(str(i + 1) for i in range(n[0]))}}}\n Need <- N\n Fault = \"%s\"\nSPECIFICATION MSpec\nINVARIANTS EndsWell NothingKept\nPROPERTIES InPlenty\nCHECK_DEADLOCK FALSE\n"
    files = {"MCMemory.tla": f"---- MODULE MCMemory ----\nEXTENDS Memory\nN == {n[1]}\n====\n"}
    run = lambda fault: c.tlc("MCMemory", cfgtext=base % fault, files=files, workers=1, name="Memory")
    faults = ["none", "swallow", "leak", "early", "memo"]
    ms = [c.later(run, x) for x in faults]
    exe = c.exe("drv", ["drv_oom.cxx"], lambda: lib.result(), flags=("-std=c++17", "-O2", "-fno-builtin-malloc"))
    mis, smp = c.shards(exe)
    sessions(c, "MemoryTrace", mis, smp, "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "out of memory")
    for x, m in zip(faults, ms):
        r = m.result()
        if x == "none":
            if r["rc"]: raise Broken("Memory:\n" + r["out"][-2000:])
            c.models.append({"module": "Memory", "distinct_states": r["distinct"], "generated_states": r["generated"], "wall_s": round(r["wall"], 1)}); c.states += r["distinct"]; c.transitions += r["generated"]
        elif "is violated" not in r["out"] and "was violated" not in r["out"]: raise Broken(f"Memory: {x} is not noticed:\n" + r["out"][-1500:])


CHECKS["C26"] = memory


LIMITED = "import os, resource, signal, sys; signal.signal(signal.SIGXFSZ, signal.SIG_IGN); n = int(sys.argv[1]); resource.setrlimit(resource.RLIMIT_FSIZE, (n, n)); os.execv(sys.argv[2], sys.argv[2:])"


def mkdata_case(c, exe, k, nargs, lines, has_input=True, writable=True, old=None, text=None, env=None, world=None):
    """One run of the tool in a directory of its own; returns the event.  world: "full" (no room for any output),
    "short" (room for all but the last byte), "half", "exact" (just enough room), "directory" (input that cannot be read)."""
    import re, shutil, subprocess
    d = c.path(f"mk{k}"); os.makedirs(d)
    inp, out = os.path.join(d, "in.txt"), os.path.join(d, "out.txt") if writable else os.path.join(d, "no", "out.txt")
    if has_input:
        with open(inp, "w", newline="") as f: f.write(text if text is not None else "")
    if old is not None and writable:
        with open(out, "w") as f: f.write(old)
    before = sorted(os.listdir(d))
    args = [inp, out, os.path.join(d, "third"), os.path.join(d, "fourth")][:nargs]
    def run(*cmd):                                                                # an endless loop must not fill the disk
        try: return subprocess.run(cmd, capture_output=True, cwd=d, timeout=20, env={**os.environ, **(env or {})}).returncode
        except subprocess.TimeoutExpired: return -99
    limited = lambda n: run("/usr/bin/python3", "-c", LIMITED, str(n), exe, *args)
    if world == "full": args[1] = "/dev/full"; rc = limited(16 << 20)
    elif world == "directory": args[0] = os.path.join(d, "dir"); os.mkdir(args[0]); rc = limited(16 << 20)
    elif world:                                                                   # how much it writes, it says itself
        rc = limited(16 << 20); n = os.path.getsize(out) if rc == 0 and os.path.exists(out) else 0
        if n: rc = limited({"short": n - 1, "half": n // 2, "exact": n}[world])
        else: rc = -98
    else: rc = limited(16 << 20)
    after = sorted(os.listdir(d))
    try: t = open(out, errors="replace").read(8 << 20)
    except OSError: t = None
    touched = int(t != old or before != after)
    if has_input and open(inp, newline="").read() != text: touched = 1
    readall, fits = int(world != "directory"), int(world not in ("full", "short", "half"))
    form, entries = 1, []
    if t and rc == 0:
        u = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        m = re.fullmatch(r"\s*(?:const\s+)?char32_t\s+validUnicodeCodePoints\s*\[\s*\]\s*=\s*\{(.*)\}\s*;\s*", u, re.S)
        toks = [x.strip() for x in m[1].split(",")] if m else ["?"]
        if toks and toks[-1] == "": toks.pop()
        if all(re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", x) for x in toks):
            entries = [int(x, 0) for x in toks]; entries = [e - 2 ** 32 if e >= 2 ** 31 else e for e in entries]
        else: form = 0
    if rc == 0 and t is None: form = 0
    shutil.rmtree(d)
    return {"k": "mk", "nargs": nargs, "input": int(has_input), "writable": int(writable), "readall": readall, "fits": fits, "lines": lines, "rc": rc, "touched": touched, "form": form, "entries": entries}


def mk_ok(e):
    want = 1 if e["nargs"] != 2 else 2 if not e["input"] else 3 if not e["writable"] else 4 if not e["readall"] or not e["fits"] or any(l[1] == 3 for l in e["lines"]) else 0
    arr = [l[0] for l in e["lines"] if l[1] == 0] + [-1] if e["lines"] else []
    return e["rc"] == want and (want == 4 or e["touched"] == 0 if want else e["form"] == 1 and e["entries"] == arr)


def mkdata(c):
    """The data tool, built from /repo, on generated and real files."""
    import random, glob, re
    r = random.Random(c.seed)
    m = c.later(c.model, "MkData", f"CONSTANTS\n CodePoints = {{65, 66}}\n MaxLines = {4 if c.thorough else 3}\nSPECIFICATION Spec\nINVARIANTS ExitsAsSpecified TouchesNothing WritesTheArray NeverHalf InOrder OnlyAssigned\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n")
    srcs = sorted(glob.glob(os.path.join(REPO, "mkUnicodeTestData", "*.cxx")))
    def build(tag, flags):
        return c.exe("mk", srcs, [], flags=("-std=c++11", *flags), tag=tag)
    plain = c.later(build, "p", ("-O2",))
    san = c.later(build, "s", ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"))
    plain, san = plain.result(), san.result()
    names = ["LATIN CAPITAL LETTER A", "<control>", "A", "SPACE", "<CJK Ideograph, First>", "<CJK Ideograph, Last>", "<Hangul Syllable, First>", "SYMBOL FOR NULL", "PRIMATE", "SURFACE", "OGHAM LETTER BEITH", "VARIATION SELECTOR-256", "COMBINING LATIN SMALL LETTER X", "X" * 300]
    priv = ["<Private Use, First>", "<Private Use, Last>", "<Plane 15 Private Use, First>", "<Plane 16 Private Use, Last>"]
    surr = ["<Non Private Use High Surrogate, First>", "<Private Use High Surrogate, Last>", "<Low Surrogate, First>", "<Low Surrogate, Last>"]
    tails = [";Lu;0;L;;;;;N;;;;0061;", ";Cc;0;BN;;;;;N;PRIVATE USE ONE;;;;", ";Lo;0;L;;;;;N;;;;;", ";So;0;ON;<compat> 0028 1102 1161 0029;;;;N;" + "Y" * 60 + ";;;;", ";Mn;230;NSM;;;;;N;;;;;", ";;;;;;;;;;;;;", ";Lm;0;L;<square> 30A2 30D1 30FC 30C8;;;;N;SQUARED APAATO;;;;"]
    def line(kind, cp=None):
        cp = cp if cp is not None else r.choice([0, 0x41, 0xffff, 0x10000, 0x10fffd, r.randrange(0x110000), r.randrange(0x3000)])
        name = r.choice(names if kind == 0 else priv if kind == 1 else surr)
        tail = r.choice(tails) if kind == 0 else ";Co;0;L;;;;;N;;;;;" if kind == 1 else ";Cs;0;L;;;;;N;;;;;"
        return "%04X;%s%s" % (cp, name, tail), [cp, kind]
    def make(kinds):
        ls = [line(k) for k in kinds]
        end = r.choice(["\n", "\n", ""])
        return "\n".join(l[0] for l in ls) + (end if ls else ""), [l[1] for l in ls]
    jobs = []
    for n in range(0, 4 if not c.thorough else 5):                 # every mixture of few lines
        for q in range(3 ** n):
            jobs.append(dict(zip(("text", "lines"), make([q // 3 ** j % 3 for j in range(n)])), nargs=2))
    for n in list(range(4, 45)) + [99, 100, 101, 255, 256, 257, 1000, 1001, 1023, 1024, 1025]:     # every number of lines, all kept; and mixed
        jobs.append(dict(zip(("text", "lines"), make([0] * n)), nargs=2))
        jobs.append(dict(zip(("text", "lines"), make([0] * (n - 1) + [1 + n % 2])), nargs=2))
        jobs.append(dict(zip(("text", "lines"), make([1] * (n % 7) + [0] * n + [2])), nargs=2))
    for _ in range(3000 if c.thorough else 250):
        n = r.choice([r.randrange(1, 40), r.randrange(1, 40), r.randrange(40, 400)])
        w = r.choice([(8, 1, 1), (1, 1, 1), (1, 5, 5), (30, 1, 0)])
        jobs.append(dict(zip(("text", "lines"), make(r.choices([0, 1, 2], w, k=n))), nargs=2))
    for j in jobs[::3]: j["old"] = "old contents\n" * r.choice([1, 5000])
    for na in (0, 1, 3, 4):
        for old in (None, "keep"): t, ls = make([0, 0]); jobs.append(dict(text=t, lines=ls, nargs=na, old=old))
    for old in (None, "keep"): jobs.append(dict(text=None, lines=[], nargs=2, has_input=False, old=old))
    for _ in range(3): t, ls = make([0, 1, 0]); jobs.append(dict(text=t, lines=ls, nargs=2, writable=False))
    nots = ["this line has no fields at all", "0041 LATIN CAPITAL LETTER A", "# a comment, not UnicodeData", "Z" * 11, " " * 40, "0041,LATIN CAPITAL LETTER A,Lu", "\t" * 12]
    for n in (0, 1, 2, 9, 10, 11, 300):                              # a line that is none of UnicodeData, among n others
        for at in sorted({0, n // 2, n}):
            for kinds in ([0] * n, r.choices([0, 1, 2], k=n)):
                t, ls = make(kinds); t = t.split("\n")[:n]; t.insert(at, r.choice(nots)); ls = ls[:at] + [[0, 3]] + ls[at:]
                jobs.append(dict(text="\n".join(t) + r.choice(["\n", ""]), lines=ls, nargs=2))
    for n in (1, 2, 10, 40, 700, 1200, 5000):                        # output that does not fit, or just does
        for w in ("full", "short", "half", "exact"):
            for kinds in ([0] * n, r.choices([0, 1, 2], k=n)): t, ls = make(kinds); jobs.append(dict(text=t, lines=ls, nargs=2, world=w))
    for _ in range(2): jobs.append(dict(text="", lines=[], nargs=2, world="directory"))
    for v in VERSIONS:                                               # the real files
        p = os.path.join(REPO, "source", f"bits{v}", "UnicodeData.txt")
        t = open(p, newline="").read(); ls = []
        for x in t.split("\n"):
            if x: f = x.split(";"); ls.append([int(f[0], 16), {"Co": 1, "Cs": 2}.get(f[2], 0)])
        jobs.append(dict(text=t, lines=ls, nargs=2))
    runs = [(k, plain, j) for k, j in enumerate(jobs)] + [(len(jobs) + k, san, j) for k, j in enumerate(jobs)]
    stop = []
    def one(k, e, j):
        if len(stop) >= 8: return None                              # enough seen
        ev = mkdata_case(c, e, k, env={"ASAN_OPTIONS": "detect_leaks=0"}, **j)
        if ev["rc"] == -99 or not mk_ok(ev): stop.append(k)
        return ev
    evs = [x for x in [f.result() for f in [c.later(one, *q) for q in runs]] if x]
    c.evaluations = len(evs)
    c.families = {"generated files": len(jobs) - len(VERSIONS), "real files": len(VERSIONS)}
    bad = [json.dumps(e) for e in evs if not mk_ok(e)]
    good = [e for e in evs if mk_ok(e)]
    smp = [json.dumps(e) for e in good if len(e["lines"]) < 2000] + [json.dumps(e) for e in good if len(e["lines"]) >= 2000][:10 if c.thorough else 2]
    sessions(c, "MkTrace", bad, smp, "CONSTANTS\n CodePoints = {65}\n MaxLines = 1\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "run of the tool")
    m.result()


CHECKS["C22"] = mkdata


def deployment(c):
    """Sequences of configure, make targets and edits that TLC generates, replayed on the real scripts."""
    import deploy
    inv = "INVARIANTS Invs\nCHECK_DEADLOCK FALSE\n"
    con = lambda plat, pre, vers, cc, n: f'CONSTANTS\n Platform = "{plat}"\n Prefixes = {pre}\n Vers = {vers}\n Compilers = {cc}\n MaxEdits = {n}\n'
    times = "CONSTANTS\n Vers = {7, 8}\n MaxTime = %d\n KeepsList = %s\nSPECIFICATION Spec\nINVARIANTS UpToDate\nCHECK_DEADLOCK FALSE\n"
    ms = [c.later(c.model, "Deploy", con(p, "{1, 2}", "{7, 16}" if c.thorough else "{16}", "{1}", 1) + "SPECIFICATION Spec\nVIEW View\n" + inv, 3, 3000 if c.thorough else 800, name=f"Deploy ({p})") for p in ("unix", "win")]
    ms.append(c.later(c.model, "MakeTimes", times % (9 if c.thorough else 7, "TRUE"), 2))
    neg = c.later(c.tlc, "MakeTimes", cfgtext=times % (7, "FALSE"), workers=1)
    base, stubs = deploy.prepare(c)
    n = 500 if c.thorough else 50
    sims = {p: c.later(simulate, c, "Deploy", con(p, "{1, 2, 3, 4}" if p == "unix" else "{1, 2, 4}", "{7, 11, 15, 16}", "{1, 2}" if p == "unix" else "{0, 1, 2}", 9) + "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", n, 16) for p in ("unix", "win")}
    cf1, cf2 = ["configure", 1, 16, 1], ["configure", 2, 8, 2]
    mk = lambda *t: ["make" if len(t) == 1 else "make2", *t, *([0] * (3 - len(t)))]
    ed = ["edit", 1, 0, 0]
    fixed = [[cf1, mk("install"), mk("uninstall"), mk("install"), cf2, mk("install"), cf1, mk("uninstall"), cf2, mk("uninstall")],
             [cf1, mk("clean"), mk("all"), ed, mk("all"), ed, mk("install"), mk("clean"), mk("install")],
             [mk("clean"), cf1, mk("all"), mk("scrub"), mk("clean"), mk("all"), mk("uninstall")],
             [cf1, mk("all"), ["configure", 1, 9, 1], mk("all"), ed, ed, ed, mk("test"), mk("install"), mk("scrub"), cf2, mk("uninstall")],
             [mk("install"), cf2, mk("cmake-install"), mk("install"), ed, ed, mk("install"), mk("clean", "install"), mk("cmake-uninstall"), mk("uninstall")]]
    cf4 = ["configure", 4, 12, 2]                    # a prefix with spaces
    fixed.append([cf4, mk("all"), mk("install"), mk("cmake-install"), cf1, mk("install"), mk("clean"), cf4, mk("uninstall"), mk("install"), mk("uninstall"), mk("cmake-uninstall"), mk("scrub")])
    fixed += [fixed[-1]] * 4
    jobs = []
    for p in ("unix", "win"):
        seqs = fixed + sims[p].result()
        for i, q in enumerate(seqs): jobs.append((p, q, c.seed * 1000 + i, i % 3 != 0))
    import threading
    room = threading.Semaphore(CORES)
    def one(k, p, q, s, crowded):
        with room: return deploy.session(c, base, stubs, k, p, q, s, crowded)
    evs = [f.result() for f in [c.later(one, k, *j) for k, j in enumerate(jobs)]]
    c.evaluations = sum(len(e["steps"]) for e in evs)
    c.families = {p: sum(e["plat"] == p for e in evs) for p in ("unix", "win")}
    for e in evs:
        for s in e["steps"]: c.ops[" ".join(str(x) for x in s["op"] if x)] = c.ops.get(" ".join(str(x) for x in s["op"] if x), 0) + 1
    sessions(c, "DeployTrace", [], [json.dumps(e) for e in evs], 'CONSTANTS\n Platform = "unix"\n Prefixes = {1}\n Vers = {16}\n Compilers = {1}\n MaxEdits = 1\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n', "deployment session")
    for m in ms: m.result()
    if "Invariant UpToDate is violated" not in neg.result()["out"]: raise Broken("MakeTimes: a lost list is not noticed")


CHECKS["C24"] = deployment
NOTES = globals().get("NOTES", {})
NOTES["C24"] = ("TLA+/TLC: model-checked specification of the deployment's state, replay of TLC behaviours into the real scripts, trace validation",
                "The specification of configuration, build directory, prefixes and packages is model-checked for a few prefixes and edits; behaviours that TLC generates are replayed with the real configure, Makefile, make.py and configure.py in scratch copies, as an unprivileged user. cmake, ctest, makensis, sudo and cmd.exe are stand-ins that record what they were given; Windows paths are simulated.")


def packaging(c):
    """The package targets with the real CMake and CPack, on one distribution after the other."""
    import packages, random, threading
    r = random.Random(c.seed * 77)
    con = lambda n, fault: f"CONSTANTS\n Vers = {{7, 16}}\n MaxEdits = {n}\n Faulty = \"{fault}\"\nSPECIFICATION Spec\nINVARIANTS Invs\nCHECK_DEADLOCK FALSE\n"
    m = c.later(c.model, "Package", con(2 if c.thorough else 1, "none"), 2)
    negs = [c.later(c.tlc, "Package", cfgtext=con(1, x), workers=1) for x in ("stale", "onename")]
    prepared = packages.prepare(c)
    n = 60 if c.thorough else 8
    # no invariants here: only behaviours
    sim = simulate(c, "Package", "CONSTANTS\n Vers = {7, 9, 12, 16}\n MaxEdits = 9\n Faulty = \"none\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", n, 14 if c.thorough else 11)
    cf, mk, ed = (lambda v: ["configure", v]), (lambda t: ["make", t]), ["edit", 0]
    fixed = [[mk("package"), cf(8), mk("package"), ed, mk("deb"), cf(16), mk("package"), mk("arch"), ed, mk("rpm"), mk("clean"), mk("arch")],
             [cf(10), mk("deb"), mk("rpm"), cf(11), mk("arch"), ed, mk("package"), cf(10), mk("package")],
             [cf(13), mk("all"), ed, mk("rpm"), mk("package"), mk("clean"), mk("rpm"), cf(14), mk("rpm")]]
    worlds = [("Debian", {"dpkg-deb", "debtap"}), ("Fedora", {"rpm"}), ("", {"dpkg-deb"}), ("CentOS", {"rpm", "dpkg-deb"}), ("openSUSE Leap", {"rpm", "dpkg-deb", "debtap"}), ("Ubuntu", {"dpkg-deb", "rpm", "debtap"}), ("RedHat", {"rpm", "debtap"}), ("Arch", {"debtap"}), ("n/a", set())]
    if not prepared[2]: worlds = [w for w in worlds if w[0] not in ("Fedora", "CentOS", "RedHat")]       # the distribution is found out in another way
    jobs = []
    for i, q in enumerate(fixed * 3 + sim):
        w = worlds[(i * 4 + i // len(worlds) + c.seed) % len(worlds)]
        jobs.append((*w, i % 3 == 2, [["configure", 16]] + q if q[0][0] == "start" and r.random() < 0.7 else q, c.seed * 1000 + i))
    room = threading.Semaphore(CORES)
    def one(k, *j):
        with room: return packages.session(c, prepared, k, *j)
    evs = [f.result() for f in [c.later(one, k, *j) for k, j in enumerate(jobs)]]
    c.evaluations = sum(len(e["steps"]) for e in evs)
    for e in evs:
        c.families[e["distro"] or "(none)"] = c.families.get(e["distro"] or "(none)", 0) + 1
        for s in e["steps"]: c.ops[" ".join(map(str, s["op"]))] = c.ops.get(" ".join(map(str, s["op"])), 0) + 1
    sessions(c, "PackageTrace", [], [json.dumps(e) for e in evs], 'CONSTANTS\n Vers = {16}\n MaxEdits = 1\n Faulty = "none"\nSPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n', "packaging session")
    m.result()
    for x in negs:
        if "Invariant Invs is violated" not in x.result()["out"]: raise Broken("Package: a fault is not noticed")


CHECKS["C27"] = packaging
NOTES["C28"] = ("TLA+/TLC: model-checked specification of a program's phases (and of a library with objects of its own, which TLC must find wrong), trace validation of calls recorded in real programs",
                "The specification is model-checked for two threads and three calls; programs make some hundreds of calls of every operation in each of eight sets of phases, in front of the static library in link order, also under AddressSanitizer; TLC judges a sample of the histories and everything unusual. What a call gives in main is the business of the other properties.")
NOTES["C27"] = ("TLA+/TLC: model-checked specification of the packages' state, replay of TLC behaviours into the real scripts, CMake and CPack, trace validation",
                "Behaviours that TLC generates are replayed with the real configure, Makefile, CMake and CPack in scratch copies, as an unprivileged user; each package is taken apart, and a program is built with what it holds. rpmbuild, debtap and lsb_release are stand-ins; macOS and Windows generators are represented by a multi-configuration generator.")


def finding(c):
    """find_package(ANSAK) in every kind of world, and programs built with the installed library."""
    import deploy, find, random, threading
    con = "CONSTANTS\n Some = %s\n"
    m = c.later(c.model, "Find", con % ('{{}, {"string"}, {"nohdr"}, {"string", "lib", "libh"}, {"string", "lib", "libh", "sqlite", "sqliteh"}}' if c.thorough else '{{}, {"string"}, {"string", "lib", "libh", "sqlite", "sqliteh"}}')
                + "SPECIFICATION Spec\nINVARIANTS Invs\nCHECK_DEADLOCK FALSE\n", 2)
    deploy.prepare(c)
    room = threading.Semaphore(CORES)
    def limited(f, *a):
        with room: return f(c, *a)
    hows = [("find", 16, "g++", 11), ("find", 7, "clang++", 17), ("cmake", 12, "g++", 20), ("sub", 9, "g++", 17)]
    if c.thorough: hows += [(h, v, x, s) for v, s in ((7, 11), (10, 14), (13, 17), (15, 20), (16, 20)) for h in ("find", "cmake", "sub") for x in ("g++", "clang++") if h != "sub" or x == "g++"]
    uses = [c.later(limited, find.use, k, *h) for k, h in enumerate(hows)]
    d = c.specdir()
    r = c.tlc("FindWorlds", cfgtext=con % "{{}}" + "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", d=d, workers=1)
    if not os.path.exists(os.path.join(d, "worlds.json")): raise Broken("FindWorlds: " + r["out"][-2000:])
    ws = json.load(open(os.path.join(d, "worlds.json")))
    ws.sort(key=lambda w: json.dumps(w, sort_keys=True))
    total = len(ws)
    if not c.thorough:
        g = random.Random(c.seed)
        kind = {}
        for w in ws: kind.setdefault((w["plat"], w["var"], w["env"], w["sqlite"], w["isolate"]), []).append(w)
        ws = [w for q in kind.values() for w in g.sample(q, min(len(q), 5))]
    evs = [f.result() for f in [c.later(limited, find.lookup, k, w, c.seed) for k, w in enumerate(ws)]]
    evs += [f.result() for f in uses]
    c.evaluations = len(evs)
    c.families = {"worlds": len(ws), "of": total, "projects": len(uses)}
    for e in evs: c.ops[e["k"] + " " + e.get("plat", e.get("how", ""))] = c.ops.get(e["k"] + " " + e.get("plat", e.get("how", "")), 0) + 1
    sessions(c, "FindTrace", [], [json.dumps(e) for e in evs], con % "{{}}" + "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n", "finding the library")
    m.result()


CHECKS["C25"] = finding
NOTES["C26"] = ("TLA+/TLC: model-checked specification of calls and refused memory (with four kinds of fault that TLC must notice), trace validation of histories of real calls",
                "The specification is model-checked for a few calls of up to four blocks each; real calls have every block that operator new gives refused, one at a time and from then on, each history in a process of its own, and TLC judges a sample of the histories and everything unusual. malloc itself is not refused.")
NOTES["C25"] = ("TLA+/TLC: model-checked specification of the search, the worlds TLC lists run through the real CMake, trace validation",
                "The search is specified for one or two named places and a standard one and model-checked; every kind of world is set up in scratch directories and given to the real CMake (Windows: with CMake's platform variables overridden, layout by architecture only), and real programs are built with the library as installed by the Makefile, by CMake and as a sub-directory.")
