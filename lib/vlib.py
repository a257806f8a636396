"""Shared machinery of the checks: scratch space, building the driver from
/repo's working tree, running TLC, running the driver, reporting."""
import atexit, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
CPUS = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """the machinery (not the code under test) failed"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, prop, tier="quick", seed=1, keep=False):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/tmp")
        os.chmod(self.scratch, 0o755)
        if not keep:
            atexit.register(lambda: shutil.rmtree(self.scratch, ignore_errors=True))
            for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                signal.signal(s, lambda *_: sys.exit(4))
        self.violations = []
        self.known_hit = {}
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.specs = []
        self.assumptions = []
        self.replay_only = None
        self._env = None
        self.procs = []
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- building
    def goenv(self):
        if self._env is None:
            out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True).stdout
            env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
            src = env.get("GOCACHE")
            dst = os.path.join(self.scratch, "gocache")
            dev = os.environ.get("VERIF_GOCACHE")
            if dev:
                dst = dev
            elif src and os.path.isdir(src):
                subprocess.run(["cp", "-a", src, dst], check=True)
            else:
                os.makedirs(dst)
            env["GOCACHE"] = dst
            env["TMPDIR"] = self.dir("tmp")
            for k in ("PWD", "OLDPWD", "SHLVL", "_"):
                env.pop(k, None)
            self._env = env
        return self._env

    def dir(self, name):
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p

    def _go(self, args, what):
        r = subprocess.run(["go"] + args, cwd=REPO, env=self.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken(f"cannot build {what}:\n{r.stdout[-4000:]}")

    def driver(self, race=False):
        """builds the driver from /repo's working tree and /verif/driver"""
        exe = os.path.join(self.scratch, "driver-race" if race else "driver")
        if not os.path.exists(exe):
            d = os.path.join(VERIF, "driver")
            ov = {"Replace": {f"{REPO}/cmd/zzverif/{f}": os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")}}
            ovf = os.path.join(self.scratch, "overlay.json")
            json.dump(ov, open(ovf, "w"))
            self._go(["build"] + (["-race"] if race else []) + ["-overlay", ovf, "-o", exe, "./cmd/zzverif"], "driver")
        return exe

    def program(self, name):
        """builds one of the repository's own programs"""
        exe = os.path.join(self.scratch, "prog-" + name)
        if not os.path.exists(exe):
            self._go(["build", "-o", exe, "./cmd/" + name], name)
        return exe

    # ---------------------------------------------------------------- running
    def drive(self, cmd, items, args=(), timeout=600, race=False, env=None, parallel=1, fatal=True, grain=50):
        """runs a driver command over a list of items (one JSON line each), returns one result per item"""
        exe = self.driver(race)
        items = list(items)
        if not items:
            return []
        n = max(1, min(parallel, (len(items) + grain - 1) // grain if parallel > 1 else 1))
        chunks = [items[i::n] for i in range(n)]
        procs = []
        base = tempfile.mkdtemp(prefix="drv-", dir=self.scratch)
        for i, ch in enumerate(chunks):
            fin, fout, ferr = (os.path.join(base, f"{x}{i}") for x in ("in", "out", "err"))
            with open(fin, "w") as f:
                for it in ch:
                    f.write(json.dumps(it) + "\n")
            wd = os.path.join(base, f"wd{i}")
            os.makedirs(wd)
            e = dict(os.environ)
            e.setdefault("GOMAXPROCS", "2" if n > 3 else "4")
            e.update(VERIF_SCRATCH=wd, TMPDIR=wd, GORACE="halt_on_error=0 exitcode=0 log_path=" + os.path.join(base, f"race{i}"))
            e.update(env or {})
            procs.append((subprocess.Popen([exe, cmd, *map(str, args)], stdin=open(fin), stdout=open(fout, "w"), stderr=open(ferr, "w"), cwd=wd, env=e, start_new_session=True), fout, ferr, len(ch)))
        res = [None] * len(items)
        deadline = time.time() + timeout
        for i, (p, fout, ferr, cnt) in enumerate(procs):
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                raise Broken(f"driver {cmd} timed out")
            out = [json.loads(l) for l in open(fout)]
            if rc != 0 or len(out) != cnt:
                err = open(ferr).read()
                if not fatal:
                    out = out[:cnt] + [dict(crash=err[-3000:], rc=rc)] * (cnt - len(out))
                else:
                    raise DriverDied(cmd, rc, err, chunks[i][len(out)] if len(out) < cnt else None)
            res[i::n] = out
        return res

    def races(self):
        """reports of the race detector, if any"""
        out = []
        for root, _, files in os.walk(self.scratch):
            for f in files:
                if re.match(r"race\d+\.\d+$", f):
                    out.append(open(os.path.join(root, f)).read())
        return out

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, consts=None, cfgtext=None, workers=None, env=None, timeout=800, allow_fail=False, simulate=None, opts=(), heap=None, count=True):
        """runs TLC; returns dict(ok, out, prints, states, transitions).

        consts  replaces the CONSTANT assignments of the configuration of the same name
        """
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        if cfgtext is None:
            cfgtext = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            cfgtext, n = re.subn(rf"(?m)^(\s*{re.escape(k)}\s*=).*$", lambda m: m.group(1) + " " + tla(v), cfgtext)
            if n == 0:
                raise Broken(f"constant {k} not in configuration of {module}")
        cf = os.path.join(d, "run.cfg")
        open(cf, "w").write(cfgtext)
        cmd = ["tlc", "-workers", str(workers or CPUS), "-metadir", os.path.join(d, "meta"), "-config", cf, "-noGenerateSpecTE", "-nowarning"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += list(opts) + [os.path.join(d, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        e["TMPDIR"] = d
        jopts = f"-Djava.io.tmpdir={d} -Xmx{heap or '6g'} -XX:+UseParallelGC"
        e["JAVA_TOOL_OPTIONS"] = jopts
        of = os.path.join(d, "out")
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=open(of, "w"), stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken(f"TLC on {module} timed out after {timeout}s")
        prints, other = [], []
        for line in open(of, errors="replace"):
            if line.startswith('"{') or line.startswith('"['):
                prints.append(json.loads(json.loads(line)))
            else:
                other.append(line)
        out = "".join(other)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        trans, states = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if simulate:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                trans = states = int(m[-1].replace(",", ""))
        ok = r.returncode == 0
        if count:
            self.cov["states"] += states
            self.cov["transitions"] += trans
        self.specs.append(dict(module=module, states=states, transitions=trans, wall_s=round(time.time() - t, 1), ok=ok))
        if not ok and not allow_fail:
            raise Broken(f"TLC rejects {module} (the specification violates its own properties?), exit {r.returncode}:\n{out[-4000:]}")
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return dict(ok=ok, out=out, prints=prints, states=states, transitions=trans, rc=r.returncode, dir=d)

    def validate(self, module, traces, cfg=None, consts=None, timeout=600):
        """checks recorded traces (lists of events) against a trace specification.

        All traces are concatenated; every trace starts with an event [event |-> "begin"].
        The trace specification has a variable l (next line) and may always jump from
        anywhere in a trace it is stuck in -- so TLC explores every behaviour, and
        reports for each trace the furthest line it can explain, as JSON records
        {"t": trace number, "l": highest line}.  Returns indices of rejected traces with positions."""
        d = self.dir("traces")
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=d)
        with os.fdopen(fd, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        r = self.tlc(module, cfg=cfg, consts=consts, env=dict(TRACES=path), timeout=timeout)
        best = {}
        for p in r["prints"]:
            if "done" in p:
                best[p["done"]] = True
        bad = [i for i in range(len(traces)) if (i + 1) not in best]
        self.cov["traces_validated_against_impl"] += len(traces)
        return bad, r

    # ---------------------------------------------------------------- reporting
    def violation(self, what, replay, key=None):
        """reports a violation; key identifies the failing input for known findings"""
        for k in self.known:
            if k["status"] == "known" and key is not None and k["key"] == key:
                self.known_hit[key] = k["what"]
                return
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{self.seed}-{len(self.violations)}.json")
        json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, replay=replay), open(p, "w"), indent=1, default=str)
        self.violations.append(p)
        log(f"{self.prop}: {what[:500]}")
        print(f"VIOLATION property={self.prop} replay={p}", flush=True)

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            s = json.loads(json.dumps(x, default=str))
            self.cov["samples"].append(s)

    def finish(self, level="model_checking"):
        for k, w in self.known_hit.items():
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=dict(self.cov, tlc_runs=self.specs),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, f"{self.prop}.json"), "w"), indent=1)
        log(f"{self.prop} {self.tier}: {len(self.violations)} violations, states={self.cov['states']}, bound={self.cov['traces_validated_against_impl']}, {ev['wall_s']}s")
        return 1 if self.violations else 0


class DriverDied(Exception):
    """the code under test brought the driver down"""
    def __init__(self, cmd, rc, err, item):
        super().__init__(f"driver {cmd} ended with {rc}: {err[-2000:]}")
        self.cmd, self.rc, self.err, self.item = cmd, rc, err, item

    @property
    def by_code(self):
        """whether the crash is a panic, fatal error or deadlock of Go code (and not an error of the driver)"""
        return bool(re.search(r"^(panic:|fatal error:)", self.err, re.M)) and "out of memory" not in self.err


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(dict(status="known", key=m.group(2), what=m.group(3)))
    return out


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("{") or v.startswith("<") else '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)
