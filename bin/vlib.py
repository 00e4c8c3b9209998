"""Common machinery of the checks: build from /repo, drive the code, run TLC,
judge the answer, write the evidence."""
import atexit, concurrent.futures, glob, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.environ.get("VERIF_CXX", "/usr/bin/g++")
JOBS = 8


class CheckError(Exception):
    """The check itself could not be carried out (exit 2, never an alarm)."""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self.states = self.transitions = self.runs = 0
        self.samples, self.cov, self.violations, self.known = [], {}, [], []
        self.assumptions = []
        self.budget = 700 if self.tier == "quick" else 6000

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        """Number of cases of this tier."""
        return quick if not self.thorough else (thorough if thorough is not None else quick * 8)

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, drivers=(), bins=(), opt="-O1"):
        """Compiles the library and the drivers from /repo's working tree."""
        d = os.path.join(self.dir, "build")
        gen = os.path.join(d, "gen")
        os.makedirs(gen, exist_ok=True)
        self.bdir = d
        run = lambda c: subprocess.run(c, cwd=d, capture_output=True, text=True, errors="replace")
        for c in (["bison", "-d", "-o", f"{gen}/tre_parser.tab.cc", f"{REPO}/monaa/tre_parser.yy"],
                  ["flex", "-o", f"{gen}/tre_lexer.yy.cc", f"{REPO}/monaa/tre_lexer.l"]):
            p = run(c)
            if p.returncode:
                raise CheckError("generator failed: " + p.stderr[-500:])
        inc = [f"-I{REPO}", f"-I{REPO}/libmonaa", f"-I{REPO}/monaa", f"-I{gen}", "-I/usr/include/eigen3",
               f"-I{VERIF}/harness"]
        flags = ["-std=c++20", opt, "-w", '-DMONAA_VERSION="x"', f'-DPROJECT_ROOT_DIR="{REPO}"'] + inc
        srcs = sorted(glob.glob(f"{REPO}/libmonaa/*.cc")) + sorted(glob.glob(f"{gen}/*.cc"))
        mains = {"main.cc": "monaa", "tre2ta.cc": "tre2ta"}
        srcs += [s for s in sorted(glob.glob(f"{REPO}/monaa/*.cc")) if os.path.basename(s) not in mains]
        jobs = [(s, os.path.basename(s) + ".o") for s in srcs]
        objs = [o for _, o in jobs]
        for s, b in mains.items():
            if b in bins:
                jobs.append((f"{REPO}/monaa/{s}", s + ".o"))
        for x in drivers:
            jobs.append((f"{VERIF}/harness/{x}.cc", x + ".drv.o"))
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for (s, o), p in zip(jobs, ex.map(lambda j: run([CXX, *flags, "-c", j[0], "-o", j[1]]), jobs)):
                if p.returncode:
                    raise CheckError(f"compiling {s}: " + p.stderr[-1500:])
        links = [(b, s + ".o") for s, b in mains.items() if b in bins] + [(x, x + ".drv.o") for x in drivers]
        for b, o in links:
            p = run([CXX, o, *objs, "-o", b, "-lboost_program_options", "-lboost_graph"])
            if p.returncode:
                raise CheckError(f"linking {b}: " + p.stderr[-1500:])
        self.log("built", ", ".join(b for b, _ in links))

    def bin(self, name):
        return os.path.join(self.bdir, name)

    # ---------------------------------------------------------------- drive
    def drive(self, driver, lines, jobs=JOBS, timeout=900):
        """One request per line, one JSON object per request; keyed by id."""
        shards = [lines[i::jobs] for i in range(jobs)]
        def one(ls):
            if not ls:
                return []
            try:
                p = subprocess.run([self.bin(driver)], input="\n".join(ls) + "\n", capture_output=True,
                                   text=True, errors="replace", timeout=timeout, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise CheckError(f"{driver} did not finish in {timeout} s")
            if p.returncode:
                raise CheckError(f"{driver} ended with {p.returncode}: {p.stderr[-500:]}")
            return p.stdout.splitlines()
        out = {}
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for ls in ex.map(one, shards):
                for l in ls:
                    try:
                        o = json.loads(l)
                    except ValueError:
                        raise CheckError("driver wrote: " + l[:300])
                    out[o["id"]] = o
        if len(out) != len(lines):
            raise CheckError(f"{driver}: {len(out)} answers to {len(lines)} requests")
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cases=None, cfg=None, workers=JOBS, timeout=1500, env=None, extra=(), count=True):
        """Runs TLC on spec/<module>.tla; returns (printed tuples, raw output)."""
        for attempt in (1, 2):
            md = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
            e = dict(os.environ)
            if cases is not None:
                f = os.path.join(md, "cases.ndjson")
                with open(f, "w") as h:
                    for c in cases:
                        h.write(json.dumps(c) + "\n")
                e["CASES"] = f
            e.update(env or {})
            e["JDK_JAVA_OPTIONS"] = "-Xss64m -Xmx10g -XX:+UseParallelGC"
            cmd = ["tlc", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", *extra,
                   "-config", cfg or f"{module}.cfg", module]
            try:
                p = subprocess.run(cmd, cwd=f"{VERIF}/spec", env=e, capture_output=True, text=True,
                                   errors="replace", timeout=timeout)
            except subprocess.TimeoutExpired:
                shutil.rmtree(md, ignore_errors=True)
                raise CheckError(f"TLC on {module} did not finish in {timeout} s")
            shutil.rmtree(md, ignore_errors=True)
            o = p.stdout
            if p.returncode == 0 and "Model checking completed" in o or "-simulate" in extra and p.returncode == 0:
                break
            if attempt == 2:
                err = [l for l in o.splitlines() if l.strip()]
                i = next((k for k, l in enumerate(err) if l.startswith("Error:")), max(0, len(err) - 15))
                raise CheckError(f"TLC on {module} failed ({p.returncode}): " + " / ".join(err[i:i + 15])[:2500])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        if m and count:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
        return self.tuples(o), o

    @staticmethod
    def tuples(out):
        """The tuples which TLC printed, each on one line (it breaks the long ones)."""
        r, cur, depth = [], None, 0
        for l in out.splitlines():
            if cur is None and not l.startswith("<<"):
                continue
            cur = l if cur is None else cur + " " + l.strip()
            depth += l.count("<<") + l.count("{") - l.count(">>") - l.count("}")
            if depth <= 0 or len(cur) > 10**6:
                r.append(re.sub(r" *>>", ">>", re.sub(r"<< *", "<<", cur)))
                cur, depth = None, 0
        if cur is not None:
            r.append(cur)
        return r

    def rejects(self, printed):
        """{case id: [(kind, rest)]} of the lines <<"REJECT", kind, id, ...>>."""
        r = {}
        for l in printed:
            m = re.match(r'<<"REJECT", *"([^"]*)", *"([^"]*)"(?:, *(.*))?>>$', l)
            if not m and '"REJECT"' in l:
                raise CheckError("unreadable verdict of TLC: " + l[:300])
            if m:
                r.setdefault(m.group(2), []).append((m.group(1), m.group(3) or ""))
        return r

    # -------------------------------------------------------------- verdict
    def violation(self, what, data):
        self.violations.append((what, data))

    def finding(self, key, what, data):
        """A failure of a listed input: a known finding, otherwise a violation."""
        kf = known_findings(self.prop)
        if key in kf:
            if not any(k.startswith(key + " ") for k in self.known):
                self.known.append(f"{key} {kf[key]}")
        else:
            self.violation(what, data)

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self, rule, nontrivial=None, evaluations=None):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.runs,
                   samples=self.samples, rule=rule)
        if evaluations is not None:
            cov["evaluations"] = evaluations
        if nontrivial is not None:
            cov["distinct_nontrivial"] = nontrivial
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        with open(os.path.join(d, f"{self.prop}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.violations:
            rp = os.path.join(d, f"replay_{self.prop}.json")
            with open(rp, "w") as h:
                json.dump([dict(what=w, data=x) for w, x in self.violations[:20]], h, indent=1)
            for w, _ in self.violations[:5]:
                self.log("violated:", w[:600])
            print(f"VIOLATION property={self.prop} replay={rp}", flush=True)
            return 1
        self.log(f"held: {self.runs} runs of the code, {self.states} states, {self.transitions} transitions")
        return 0


def known_findings(prop):
    """Entries `finding: property=<id> key=<key> <text>` of KNOWN_FINDINGS.txt."""
    r = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as h:
        for l in h:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r
