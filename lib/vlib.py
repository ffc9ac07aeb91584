"""Common machinery of the checks: builds, TLC runs, driver shards, trace validation, evidence."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC, DATA, HARNESS = (os.path.join(VERIF, d) for d in ("spec", "data", "harness"))
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]
VERSIONS = list(range(7, 17))
CORES = os.cpu_count() or 8


class Broken(Exception):
    """The check itself cannot answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.models, self.families, self.ops, self.samples, self.notes = [], {}, {}, [], []
        self.known, self.violations = {}, []
        self.assumptions = []
        self.pool = cf.ThreadPoolExecutor(128)
        self.compiling = threading.Semaphore(CORES + 2)
        self.tlc_n = 0
        self.findings = json.load(open(os.path.join(VERIF, "known_findings.json")))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def later(self, f, *a, **k):
        return self.pool.submit(f, *a, **k)

    # ------------------------------------------------------------ compiling
    def cc(self, src, obj, flags, cxx="g++"):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        with self.compiling:
            p = subprocess.run([cxx, *flags, "-c", src, "-o", obj], capture_output=True, text=True)
        if p.returncode:
            raise Broken(f"cannot compile {src}:\n{p.stderr[-3000:]}")
        return obj

    def lib(self, v=16, cxx="g++", flags=("-std=c++11", "-O2"), tag="", lto_main=None):
        """Objects of the library for Unicode version v, from /repo's working tree."""
        srcs = sorted(glob.glob(f"{REPO}/source/*.cxx")) + sorted(glob.glob(f"{REPO}/source/bits{v}/*.cxx"))
        inc = [f"-I{REPO}/interface", f"-I{REPO}/source", f"-I{REPO}/source/bits{v}"]
        fs = [self.later(self.cc, s, self.path(f"lib{v}{tag}", os.path.basename(s) + ".o"), [*flags, *inc], cxx) for s in srcs]
        return [f.result() for f in fs]

    def exe(self, name, srcs, libobjs, flags=("-std=c++17", "-O2"), cxx="g++", tag="", link=()):
        inc = [f"-I{self.path('gen')}", f"-I{HARNESS}", f"-I{REPO}/interface", f"-I{REPO}/source"]
        fs = [self.later(self.cc, os.path.join(HARNESS, s), self.path(f"o{tag}", os.path.basename(s) + ".o"), [*flags, "-fno-strict-aliasing", *inc], cxx) for s in srcs]
        objs = [f.result() for f in fs]
        if callable(libobjs): libobjs = libobjs()
        out = self.path(name + tag)
        p = subprocess.run([cxx, *flags, *objs, *libobjs, "-o", out, "-lpthread", *link], capture_output=True, text=True)
        if p.returncode:
            raise Broken(f"cannot link {name}:\n{p.stderr[-3000:]}")
        return out

    # ------------------------------------------------------------ TLC
    def specdir(self):
        self.tlc_n += 1
        d = self.path(f"tlc{self.tlc_n}")
        os.makedirs(d)
        for f in glob.glob(f"{SPEC}/*.tla") + glob.glob(f"{SPEC}/*.cfg") + glob.glob(f"{DATA}/*.json"):
            os.symlink(f, os.path.join(d, os.path.basename(f)))
        os.symlink(os.path.join(VERIF, "known_findings.json"), os.path.join(d, "known_findings.json"))
        return d

    def tlc(self, module, cfg=None, cfgtext=None, files=None, workers=8, timeout=600, extra=(), d=None, name=None):
        d = d or self.specdir()
        for n, text in (files or {}).items():
            with open(os.path.join(d, n), "w") as f: f.write(text)
        if cfgtext is not None:
            cfg = "run.cfg"
            with open(os.path.join(d, cfg), "w") as f: f.write(cfgtext)
        t = time.time()
        try:
            p = subprocess.run([JAVA[0], f"-Djava.io.tmpdir={self.dir}", *JAVA[1:], "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-nowarning",
                                "-config", cfg or module + ".cfg", *extra, module + ".tla"],
                               cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC on {module} took more than {timeout} s")
        out = "\n".join(l for l in p.stdout.split("\n") if not l.startswith(("Parsing file", "Semantic processing")))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[1]), int(m[2])) if m else (0, 0)
        return {"rc": p.returncode, "out": out, "err": p.stderr, "generated": gen, "distinct": dist, "dir": d,
                "wall": time.time() - t, "module": name or module}

    def model(self, module, cfgtext, workers=4, timeout=700, files=None, extra=(), name=None):
        """Model-check a specification; an error here is one of the specification, not of the library."""
        r = self.tlc(module, cfgtext=cfgtext, workers=workers, timeout=timeout, files=files, extra=extra, name=name)
        if r["rc"] != 0:
            raise Broken(f"TLC on {module}:\n{r['out'][-4000:]}{r['err'][-1000:]}")
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.models.append({"module": r["module"], "distinct_states": r["distinct"], "generated_states": r["generated"], "wall_s": round(r["wall"], 1)})
        return r

    def tables(self):
        """tables.gen.h and ucd<v>.txt from the specification (gen/)."""
        import gentables
        r = self.tlc("Export", workers=1)
        if r["rc"] != 0: raise Broken("Export: " + r["out"][-3000:])
        os.makedirs(self.path("gen"), exist_ok=True)
        gentables.generate(os.path.join(r["dir"], "tables.json"), self.path("gen", "tables.gen.h"))
        for v in VERSIONS: gentables.ucd_text(f"{DATA}/ucd{v}.json", self.path("gen", f"ucd{v}.txt"))
        self.dictionary()

    def dictionary(self):
        """Integer and character literals of the library's sources: hints for inputs, nothing more."""
        import literals
        sc = literals.scan(REPO)
        vals = sorted({v for f, x in sc.items() if not f.startswith("source/bits") or f.startswith("source/bits16/") for v in x["v"]})
        nv, ns = literals.novel(REPO, json.load(open(f"{DATA}/literals.json")))
        self.novel, self.novel_strings = nv[:400], ns[:200]
        with open(self.path("gen", "dict.txt"), "w") as f: f.write("\n".join(map(str, vals)))
        with open(self.path("gen", "novel.txt"), "w") as f: f.write("\n".join(map(str, self.novel)))
        def unescape(s):
            try: return s.encode("latin-1", "replace").decode("unicode_escape").encode("utf-8", "replace")
            except Exception: return s.encode("utf-8", "replace")
        with open(self.path("gen", "strings.txt"), "w") as f:
            for s in self.novel_strings:
                h = unescape(s)[:200].hex()
                if h: f.write(h + "\n")

    # ------------------------------------------------------------ drivers
    def shards(self, exe, n=CORES, args=(), v=16, timeout=None, tag="o", prop=None, env=None, nshards=None):
        timeout = timeout or (1500 if self.thorough else 150)
        def one(i):
            out = self.path(f"{tag}.{v}.{i}")
            cmd = [exe, "--prop", prop or self.prop, "--shard", str(i), "--nshards", str(nshards or n), "--seed", str(self.seed), "--tier", self.tier,
                   "--out", out, "--ucd", self.path("gen", f"ucd{v}.txt"), "--dict", self.path("gen", "dict.txt"), "--novel", self.path("gen", "novel.txt"), "--strings", self.path("gen", "strings.txt"), *args]
            # half of the runs are those of a user from elsewhere: nothing may come of it
            elsewhere = {} if (i + v) % 2 == 0 else {**{k: "tr_TR.UTF-8" for k in ("LANG", "LC_ALL", "LC_CTYPE")}, "LANGUAGE": "tr", "TZ": "Asia/Istanbul", **{x: "1" for x in getattr(self, "novel_strings", []) if re.fullmatch(r"[A-Z][A-Z0-9_]{2,40}", x)}}
            for attempt in (1, 2):
                p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env={**os.environ, **elsewhere, **(env or {})}, cwd=self.dir)
                try: so, se = p.communicate(timeout=timeout)
                except subprocess.TimeoutExpired:
                    p.send_signal(signal.SIGTERM)      # the driver ends with what it has
                    try: so, se = p.communicate(timeout=60)
                    except subprocess.TimeoutExpired: p.kill(); so, se = p.communicate()
                    self.notes.append(f"shard {i} stopped after {timeout} s")
                if p.returncode == 0: break
            if p.returncode != 0: raise Broken(f"driver {os.path.basename(exe)} shard {i}: exit {p.returncode}\n{se[-2000:]}")
            return out
        outs = [f.result() for f in [self.later(one, i) for i in range(n)]]
        mis, smp = [], []
        for o in outs:
            mis += [l for l in open(o + ".mis.ndjson").read().split("\n") if l]
            smp += [l for l in open(o + ".smp.ndjson").read().split("\n") if l]
            if os.path.exists(o + ".stats.json"):
                st = json.load(open(o + ".stats.json"))
                self.evaluations += st["total"]
                for k, x in st["families"].items(): self.families[k] = self.families.get(k, 0) + x
                for k, x in st["ops"].items(): self.ops[k] = self.ops.get(k, 0) + x
        return mis, smp

    # ------------------------------------------------------------ trace validation
    def validate(self, module, lines, maxn=None, timeout=600, cfg=None, files=None):
        """TLC judges recorded events; returns (rejected, known) as lists of event lines."""
        if not lines: return [], []
        d = self.specdir()
        with open(os.path.join(d, "trace.ndjson"), "w") as f: f.write("\n".join(lines) + "\n")
        r = self.tlc(module, cfg=cfg, d=d, timeout=timeout, files=files)
        if r["rc"] != 0: raise Broken(f"{module}:\n{r['out'][-3500:]}{r['err'][-500:]}")
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', r["out"])
        if not m or m[1] != m[2]: raise Broken(f"{module} did not consume its trace: {m and m[0]}")
        self.states += r["distinct"]; self.transitions += r["generated"]
        self.traces += len(lines)
        pick = lambda w: [lines[int(x) - 1] for x in sorted(set(re.findall(rf'<<"{w}", (\d+)>>', r["out"])), key=int)]
        return pick("REJECTED"), pick("KNOWN")

    def judge(self, mis, smp, module="ApiTrace", smpmax=6000, describe=None, files=None):
        """The lockstep's suspicions and a sample of its agreements go to TLC, which decides."""
        mis = sorted(set(mis), key=len)[:60]
        if len(smp) > smpmax:
            step = len(smp) / smpmax
            smp = [smp[int(i * step)] for i in range(smpmax)]
        short = [l for l in mis if len(l) < 40000] or mis[:2]
        rej, known = self.validate(module, short + smp, files=files)
        sus = set(short)
        if not self.samples and smp:
            self.samples = [json.loads(smp[i * (len(smp) - 1) // 5]) for i in range(6)] if len(smp) > 5 else [json.loads(l) for l in smp]
        unconfirmed = [l for l in short if l not in set(rej) and l not in set(known)]
        for l in rej: self.violate(json.loads(l), "in lockstep" if l in sus else "sampled")
        for l in known: self.known_event(json.loads(l))
        if not rej and unconfirmed:
            raise Broken("the walker and the specification disagree: " + unconfirmed[0][:500])

    def known_event(self, e):
        for k in self.findings["known"]:
            if k["property"] == self.prop and k.get("rule") == "cut-length":
                self.known[k["id"]] = k["what"]

    def violate(self, event, how=""):
        self.violations.append({"event": event, "how": how})

    # ------------------------------------------------------------ result
    def finish(self, level="model_checking", exhaustive=None):
        evd = os.path.join(VERIF, "evidence"); os.makedirs(evd, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "evaluations": self.evaluations, "samples": self.samples[:6] or ["none"], "models": self.models,
               "families": self.families, "ops": self.ops, "notes": self.notes}
        if exhaustive is not None: cov["exhaustive"] = exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(evd, self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k, what in sorted(self.known.items()): print(f"KNOWN-FINDING: property={self.prop} {k}: {what}")
        if self.violations:
            rd = os.path.join(evd, "replay"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "rerun": f"VERIF_SEED={self.seed} python3 run.py {self.prop} {self.tier}",
                           "violations": self.violations[:50]}, f, indent=1)
            for v in self.violations[:3]: log("violation:", v["how"], json.dumps(v["event"])[:600])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop} {self.tier}: held; {self.evaluations} calls in lockstep, {self.traces} judged by TLC, {self.states} states, {ev['wall_s']} s")
        return 0
