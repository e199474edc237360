"""Driver shared by all checks: builds the harness from /repo, runs TLC, runs
cases against the real code, and has TLC judge what they did."""
import atexit, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The machinery itself failed; no verdict."""


class Violation(Exception):
    def __init__(self, prop, replay, what):
        super().__init__(what)
        self.prop, self.replay, self.what = prop, replay, what


def go_env():
    e = dict(os.environ)
    for d in ("/opt/veriftools/go1.26.10/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["HOME"] = "/root"
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GO111MODULE="on",
             GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1")
    return e


def mutate_free(v):
    return json.loads(json.dumps(v))


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(shutil.rmtree, self.tmp, True)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.counts = [], [], {}
        self.assumptions = []
        self.bins = {}
        self.nrun = 0
        self.known = load_known(prop)
        self.known_hit = {}
        self.only = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return thorough if self.thorough and thorough is not None else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- building

    def build(self, race=False):
        key = "race" if race else "harness"
        if key in self.bins:
            return self.bins[key]
        src = os.path.join(VERIF, "harness")
        files = sorted(f for f in os.listdir(src) if f.endswith(".go"))
        out = os.path.join(self.tmp, key)
        ov = os.path.join(self.tmp, "overlay.json")
        while True:
            json.dump({"Replace": {os.path.join(REPO, "internal", "verifharness", f): os.path.join(src, f) for f in files}}, open(ov, "w"))
            cmd = ["go", "build", "-gcflags=-e", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./internal/verifharness"]
            try:
                self._go(cmd)
                break
            except Broken as b:
                # parts of the tree may have another interface now; what is left is observed without them
                self.cli()
                bad = set(re.findall(r"harness/([a-z]+\.go):\d", str(b))) & set(files) - {"main.go", "value.go", "cli.go"}
                if not bad:
                    raise
                self.log("does not build against this tree:", sorted(bad))
                files = [f for f in files if f not in bad]
        self.modes = set()
        for f in files:
            self.modes |= set(re.findall(r'handlers\["([a-z]+)"\]', open(os.path.join(src, f)).read()))
        self.bins[key] = out
        return out

    def cli(self):
        if "cli" not in self.bins:
            out = os.path.join(self.tmp, "oapi")
            self._go(["go", "build", "-o", out, "./cmd/oapi"])
            self.bins["cli"] = out
        return self.bins["cli"]

    def _go(self, cmd):
        t = time.time()
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise Broken("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
        self.log("built", cmd[-1], "%.1fs" % (time.time() - t))

    # ------------------------------------------------------------- harness

    def execute(self, cases, jobs=8, deadline=20, race=False, cli=False, quiet=False):
        """Runs cases in the harness; returns them with their outcome."""
        exe = self.build(race)
        self.nrun += 1
        inp = os.path.join(self.tmp, "in%d.ndjson" % self.nrun)
        out = os.path.join(self.tmp, "out%d.ndjson" % self.nrun)
        scratch = os.path.join(self.tmp, "scratch%d" % self.nrun)
        os.makedirs(scratch, exist_ok=True)
        with open(inp, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        open(out, "w").close()
        done, crashes = 0, 0
        env = go_env()
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        while done < len(cases):
            cmd = [exe, "-in", inp, "-out", out, "-from", str(done), "-j", str(jobs),
                   "-deadline", "%ds" % deadline, "-scratch", scratch]
            if cli:
                cmd += ["-cli", self.cli()]
            p = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            lines = open(out, "rb").read().split(b"\n")
            if lines and lines[-1] != b"":     # torn last line
                with open(out, "wb") as f:
                    f.write(b"\n".join(lines[:-1]) + (b"\n" if len(lines) > 1 else b""))
            got = len(lines) - 1
            if p.returncode == 3:
                raise Broken("harness: %s" % p.stderr.decode("utf8", "replace")[-2000:])
            if got >= len(cases):
                if p.returncode:
                    raise Broken("harness ended with %d: %s" % (
                        p.returncode, p.stderr.decode("utf8", "replace")[-2000:]))
                break
            if p.returncode == 0:
                raise Broken("harness lost cases: %d of %d" % (got, len(cases)))
            # the process died: which case did it? run one at a time from here
            err = p.stderr.decode("utf8", "replace")
            if jobs > 1:
                jobs, done = 1, got
                continue
            crashes += 1
            c = dict(cases[got])
            c["out"] = {"crash": err[:600]}
            with open(out, "a") as f:
                f.write(json.dumps(c) + "\n")
            done = got + 1
            if crashes > 5:      # enough is known
                break
        shutil.rmtree(scratch, True)
        res = [json.loads(x) for x in open(out)]
        os.remove(inp)
        os.remove(out)
        return res

    # ------------------------------------------------------------- TLC

    def tlc(self, module, cfg, env=None, workers="auto", extra=(), timeout=800, depth=None):
        """Runs TLC; returns (exit code, output, dumped trace or None)."""
        self.nrun += 1
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        open(os.path.join(d, module + ".cfg"), "w").write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        trace = os.path.join(d, "trace.json")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx12g", "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg",
               "-noGenerateSpecTE", "-dumpTrace", "json", trace] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s" % module)
        out = "".join(x for x in p.stdout.decode("utf8", "replace").splitlines(True)
                      if not x.startswith(("Parsing file", "Semantic proc", "Linting of", "Computed ")))
        tr = None
        if os.path.exists(trace):
            try:
                tr = json.load(open(trace))
            except ValueError:
                pass
        self.lastdir = d
        return p.returncode, out, tr

    def _stat(self, out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            return int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"states generated: (\d+)|Generated (\d+) states|The number of states generated: (\d+)", out)
        if m:
            x = int([y for y in m[-1] if y][0])
            return x, x
        return 0, 0

    def mc(self, module, consts=None, inv=(), props=(), spec="Spec", deadlock=False, what="", extra=(),
           env=None, timeout=800, constraint=None, view=None, lines=False):
        """Model checks a module of the specification on its own. The module must
        satisfy its properties: anything else is an error of the specification."""
        cfg = ["SPECIFICATION " + spec]
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s %s" % (k, v if v.startswith("<-") else "= " + v))
        cfg += ["INVARIANT " + i for i in inv] + ["PROPERTY " + p for p in props]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if view:
            cfg.append("VIEW " + view)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        t = time.time()
        rc, out, _ = self.tlc(module, "\n".join(cfg) + "\n", extra=extra, env=env, timeout=timeout)
        if rc:
            raise Broken("model %s: TLC ended with %d\n%s" % (module, rc, out[-4000:]))
        g, dst = self._stat(out)
        if g == 0:
            raise Broken("model %s explored nothing\n%s" % (module, out[-2000:]))
        self.states += dst
        self.transitions += g
        self.models.append({"module": module, "constants": {k: v for k, v in (consts or {}).items()},
                            "checked": list(inv) + list(props), "distinct_states": dst, "generated": g,
                            "what": what, "s": round(time.time() - t, 1)})
        self.log("model", module, what, "%d states, %d transitions, %.1fs" % (dst, g, time.time() - t))
        if lines:
            return out
        return out

    def enum(self, module, consts=None, what="", timeout=800, spec="Spec", extra=(), inv=()):
        """Has TLC write behaviours or cases of a module to a file and reads them."""
        f = os.path.join(self.tmp, "enum%d.ndjson" % (self.nrun + 1))
        self.mc(module, consts, spec=spec, what=what or "enumeration", env={"ENUM": f}, timeout=timeout,
                extra=extra, inv=inv)
        r = [json.loads(x) for x in open(f) if x.strip()]
        os.remove(f)
        return r

    def behaviours(self, module, consts, num, depth, what="", inv=()):
        """Simulates a module and collects the histories it prints as JSON."""
        cfg = ["SPECIFICATION Spec"] + ["CONSTANT %s %s" % (k, v if v.startswith("<-") else "= " + v)
                                        for k, v in consts.items()]
        cfg += ["INVARIANT " + i for i in inv] + ["CHECK_DEADLOCK FALSE"]
        t = time.time()
        rc, out, _ = self.tlc(module, "\n".join(cfg) + "\n", workers=1,
                              extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)])
        if rc:
            raise Broken("simulation of %s: TLC ended with %d\n%s" % (module, rc, out[-4000:]))
        r, seen = [], set()
        for line in out.splitlines():
            if line.startswith('"HIST '):
                s = json.loads(line)[5:]
                if s not in seen:
                    seen.add(s)
                    r.append(json.loads(s))
        g, dst = self._stat(out)
        self.states += g
        self.transitions += g
        self.models.append({"module": module, "constants": consts, "checked": list(inv), "simulated": len(r),
                            "what": what, "generated": g, "s": round(time.time() - t, 1)})
        self.log("simulated", module, len(r), "behaviours, %.1fs" % (time.time() - t))
        if not r:
            raise Broken("simulation of %s gave nothing\n%s" % (module, out[-2000:]))
        return r

    # ------------------------------------------------------------- judging

    def _judge_once(self, module, accepts, done, consts=None):
        fd, f = tempfile.mkstemp(prefix="judge", dir=self.tmp)
        with os.fdopen(fd, "w") as o:
            for c in done:
                o.write(json.dumps(c) + "\n")
        chunk = max(1, min(64, len(done) // 32 + 1))
        cfg = ("SPECIFICATION TraceSpec\nCONSTANT Accepts <- %s\nCONSTANT Chunk = %d\nINVARIANT Accepted\n"
               "CHECK_DEADLOCK FALSE\n" % (accepts, chunk))
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s %s\n" % (k, v if v.startswith("<-") else "= " + v)
        rc, out, tr = self.tlc(module, cfg, env={"TRACE": f})
        os.remove(f)
        g, dst = self._stat(out)
        if rc == 0:
            if dst != len(done):
                raise Broken("judge %s saw %d of %d cases\n%s" % (module, dst, len(done), out[-2000:]))
            return None, dst, g
        if rc == 12 and tr:
            return state_var(tr, "l") - 1, dst, g
        raise Broken("judge %s: TLC ended with %d\n%s" % (module, rc, out[-4000:]))

    def judge(self, module, accepts, cases, what="", jobs=8, deadline=20, race=False, cli=False, redo=3,
              consts=None):
        """Executes the cases against the code and has TLC decide every outcome."""
        if not cases:
            return
        t = time.time()
        self.build(race)
        left = [c for c in cases if c["m"] in self.modes]
        if len(left) < len(cases):
            self.log("not observed:", len(cases) - len(left), "cases of", what)
            cases = left
            if not cases:
                return
        self.counts[what] = self.counts.get(what, 0) + len(cases)
        done = self.execute(cases, jobs, deadline, race, cli)
        t1 = time.time()
        # cases of known findings: one by one
        named = [c for c in done if self.known_match(c)]
        if named:
            with ThreadPoolExecutor(8) as ex:
                for c, (bad, _, _) in zip(named, ex.map(lambda c: self._judge_once(module, accepts, [c], consts), named)):
                    if bad is not None:
                        k = self.known_match(c)
                        self.known_hit[k["id"]] = k
            done = [c for c in done if c not in named]
            if not done:
                return
        bad, dst, g = self._judge_once(module, accepts, done, consts)
        if bad is not None:
            self._confirm(module, accepts, done[bad], what, jobs, deadline, race, cli, redo, consts)
        self.states += dst
        self.transitions += g
        self.traces += len(done)
        self.log("validated", what, "%d cases, run %.1fs, judge %.1fs" % (len(done), t1 - t, time.time() - t1))
        for c in done[:: max(1, len(done) // 2)][:2]:
            s = json.dumps(c)
            if len(self.samples) < 8:
                self.samples.append(c if len(s) < 3000 else {"case": s[:3000]})

    def _confirm(self, module, accepts, c, what, jobs, deadline, race, cli, redo, consts):
        case = {k: v for k, v in c.items() if k != "out"}
        seen = 0
        for i in range(redo):
            again = self.execute([case], 1, deadline * 2, race, cli)
            b, _, _ = self._judge_once(module, accepts, again, consts)
            if b is not None:
                seen += 1
                c = again[0]
                break
        out = c.get("out", {})
        if not seen:
            crash = out.get("crash", "")
            # a race that was observed is one, if it shows again or not
            if "hang" in out or (crash and "DATA RACE" not in crash and "concurrent map" not in crash):
                raise Broken("not reproduced: %s" % json.dumps(c)[:2000])
            # what was recorded is an execution of the real code, e.g. one order of a map
        self.violation(what, {"module": module, "accepts": accepts, "case": case, "out": out, "race": race,
                              "cli": cli, "deadline": deadline, "consts": consts, "reproduced": bool(seen)})

    def violation(self, what, data):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        data = dict(data, property=self.prop, what=what)
        s = json.dumps(data, indent=1)
        f = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
        open(f, "w").write(s + "\n")
        print("case: %s" % json.dumps(data.get("case"))[:3000])
        print("outcome: %s" % json.dumps(data.get("out"))[:1500])
        raise Violation(self.prop, f, what)

    def known_match(self, c):
        for k in self.known:
            if all(c.get(x) == y for x, y in k["case"].items()):
                return k
        return None

    # ------------------------------------------------------------- evidence

    def evidence(self, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "models": self.models, "cases": self.counts}
        e = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        f = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(f + ".tmp", "w") as o:
            json.dump(e, o, indent=1)
            o.write("\n")
        os.replace(f + ".tmp", f)


def state_var(tr, name):
    """Value of a variable in the last state of a dumped counterexample."""
    st = tr.get("state") or tr.get("counterexample", {}).get("state")
    last = st[-1]
    s = last[1] if isinstance(last, list) else last
    return s[name]


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == prop and "case" in k:
                    r.append(k)
    return r
