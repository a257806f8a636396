"""C17: the converter writes the complete data set or exits with a failure.

spec/ConverterMC.tla, stages that write several files through a buffer onto a limited medium, refines the
contract spec/Converter.tla. The real program converts random data sets, whose contents are decided by
spec/GraphEval.tla, some of more than a thousand entities; its outputs are read by independent readers
(JSON, CSV and SQLite of Python; tables go through spec/TablesTrace.tla). It is also given input that is
missing, damaged or ambiguous, contradicting options, and outputs that can't be written from some byte on.
What is observed of every run must be what spec/ConverterTrace.tla allows."""
import csv, json, os, resource, shutil, sqlite3, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import graphlib as g
import many
import rnd
import tables_
from vlib import log

TEXTS = ["", "a", "a,b", ",", "x'y", "\"", "\"\"", "ä\n", "\r\n", "\r", "a", "b", "NULL", "<&>", "\u2028", "\\", "%s", " ", "\t", "0", "1e5", "http://v.example/x1", "x\u0001y", "😀", "null", "{}", "\\u0041", "long" * 2000]
TABLE_CELL = 1 << 30


def short(l):
    for k, v in g.URI.items():
        if l == v:
            return k
    return l[len(g.NS):] if l.startswith(g.NS) else l


class Reader:
    """entities as written by the converter, in terms of graphlib"""

    def __init__(self):
        self.n = 0

    def triple(self, t):
        self.n += 1
        out = dict(l=[short(t["Subject"]), short(t["Predicate"]), short(t["Object"])], r=t["Role"], i=t["Role"] == 1,
                   c=[short(t["SSubject"]), short(t["SPredicate"]), short(t["SObject"])])
        if t["Role"] == 2:
            out.update(d=t["Datum"], lang=t["Language"])
        out["id"] = json.dumps(out["c"]) if t["Role"] != 2 else f"literal {self.n}"
        return out

    def value(self, v):
        return dict(v=v["Value"], lang=v["Language"], path=[short(x) for x in v["Path"]], t=[self.triple(t) for t in v["Triples"]])

    def entity(self, e):
        return dict(uri=short(e["URI"]), path=[short(x) for x in e["Path"]], t=[self.triple(t) for t in e["Triples"]],
                    fields={f: [self.value(v) for v in vs or []] for f, vs in (e["Fields"] or {}).items()},
                    children={b: [self.entity(x) for x in xs or []] for b, xs in (e["Children"] or {}).items()})


def check_json(bs, data):
    try:
        doc = json.loads(data)
        r = Reader()
        got = {b: [r.entity(e) for e in es or []] for b, es in doc.items()}
    except (ValueError, KeyError, TypeError, AttributeError) as e:
        return [f"not the expected JSON: {e!r}"]
    extra = set(got) - set(bs.want())
    return ([f"unexpected bundles {extra}"] if extra else []) + g.check_bundles(bs, got, {})


def read_csv(d):
    out = {}
    for f in os.listdir(d):
        if f.endswith(".csv"):
            with open(os.path.join(d, f), newline="", encoding="utf-8") as h:
                rows = list(csv.reader(h, strict=True))
            if not rows:
                raise ValueError(f"{f} has no header")
            if any(len(r) != len(rows[0]) for r in rows):
                raise ValueError(f"{f} has rows of different lengths")
            out[f[:-4]] = dict(columns=rows[0], rows=rows[1:])
    return out


def read_sqlite(f):
    db = sqlite3.connect(f"file:{f.replace('%', '%25').replace('?', '%3f').replace('#', '%23')}?mode=ro", uri=True)
    try:
        out = {}
        for (n,) in db.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            cur = db.execute(f'SELECT * FROM "{n}"')
            out[n] = dict(columns=[x[0] for x in cur.description], rows=[list(r) for r in cur.fetchall()])
        return out
    finally:
        db.close()


class Runner:
    def __init__(self, c):
        self.c, self.exe = c, c.program("n2j")
        self.tables, self.runs, self.n = [], [], 0
        csv.field_size_limit(TABLE_CELL)

    def call(self, args, cwd, stdout=None, limit=None, closed=False):
        def pre():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        env = dict(os.environ, GOMAXPROCS="2", TMPDIR=cwd)
        p = subprocess.Popen([self.exe, *args], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True)
        if closed:
            p.stdout.close()
            p.stdout = None
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            return "timeout", b"", b""
        return p.returncode, out, err

    def job(self, bs, files, how, where, input="good", options=True):
        """one run of the program; returns what to note down"""
        self.n += 1
        d = os.path.join(where, f"run{self.n}")
        os.makedirs(d)
        mode, limit, room = how["mode"], how.get("limit"), how.get("room", "yes")
        args = list(how.get("args", []))
        if how.get("cache"):
            os.makedirs(os.path.join(d, "cache"))
            args += ["-cache", os.path.join(d, "cache")]
        if how.get("fields"):
            args += ["-sql-field-tables"]
        if "sep" in how:
            args += ["-sql-seperator", how["sep"]]
        out = os.path.join(d, how.get("name", "out"))
        kind = how.get("out", "fresh")
        stdout, closed = subprocess.DEVNULL, False
        if mode == "json":
            stdout = None
            if kind == "fresh":
                stdout = open(out, "wb")
            elif kind == "full":
                stdout = open("/dev/full", "wb")
            elif kind == "closed":
                closed = True
        elif mode == "csv":
            args += ["-csv", out]
            if kind != "missing":
                if kind == "file":
                    open(out, "w").close()
                else:
                    os.mkdir(out)
            if kind in ("taken", "full", "old"):
                for b in range(len(bs.pb)):
                    f = os.path.join(out, f"bundle__{bs.name(b)}.csv")
                    if kind == "old":
                        open(f, "w").write("old\n" * 10000)
                        continue
                    if b == how["at"] % len(bs.pb):
                        os.mkdir(f) if kind == "taken" else os.symlink("/dev/full", f)
        elif mode == "sqlite":
            args += ["-sqlite", out]
            if kind == "dir":
                os.mkdir(out)
            elif kind == "garbage":
                open(out, "wb").write(b"this is not a database at all " * 1000)
            elif kind == "missing":
                args[-1] = os.path.join(out, "in", "nowhere")
        elif mode == "both":
            args += sum(([f"-{m}", os.path.join(d, m) if m != "mysql" else "u:p@tcp(127.0.0.1:1)/x"] for m in how["modes"]), [])
            for m in how["modes"]:
                if m == "csv":
                    os.mkdir(os.path.join(d, m))
        elif mode == "mysql":
            args += ["-mysql", how["addr"]]
        rc, got, err = self.call(args + list(files), d, stdout, limit, closed)
        if stdout not in (None, subprocess.DEVNULL):
            stdout.close()
        note = dict(input=input, options=options, room=room, exit=rc == 0, out="other")
        res = dict(note=note, rc=rc, err=err.decode(errors="replace")[-600:], how=how, args=args, table=None, bad=None, dir=d, size=0, words=None)
        if rc == "timeout":
            res["bad"] = "did not finish"
            return res
        if rc == 0 or room == "unknown":
            # what is there?
            bad = None
            try:
                if mode == "json":
                    data = got if stdout is None else open(out, "rb").read() if kind == "fresh" else b""
                    res["size"] = len(data)
                    p = check_json(bs, data)
                    bad = str(p[:3]) if p else None
                elif mode in ("csv", "sqlite"):
                    tables = read_csv(out) if mode == "csv" else read_sqlite(out)
                    res["size"] = os.path.getsize(out) if mode == "sqlite" else max([os.path.getsize(os.path.join(out, f)) for f in os.listdir(out)] + [0])
                    words = tables_.Words()
                    t, bad = tables_.decode(bs, tables, words, not how.get("fields"), how.get("sep", ","))
                    if not bad:
                        res["table"], res["words"] = t, words.n
                else:
                    bad = "no output"
            except (OSError, ValueError, csv.Error, sqlite3.Error) as e:
                bad = repr(e)
            res["bad"] = bad
            if not bad and res["table"] is None:
                note["out"] = "complete"
        shutil.rmtree(d, ignore_errors=True)
        return res


def run(c):
    c.tlc("ConverterMC", consts=dict(Files=c.pick(3, 5), Units=c.pick(4, 6)))
    for k in ("CheckOptions", "CheckRead", "CheckExtract", "CheckWrite", "CheckFlush", "CheckClose", "AllFiles"):
        if c.tlc("ConverterMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"ConverterMC does not need {k}")
        c.specs.pop()

    r = Runner(c)
    rng = c.rng
    ss = rnd.scenarios(c, c.pick(90, 900), texts=TEXTS)
    # large ones: around and beyond the size of a batch
    large = []
    base = [s for s in ss if s[0].k is None and many.apart(s[0]) and any(len(s[2].uris(b)) for b in range(len(s[1])) if s[1][b]["up"] == 0) and len(s[0].stmts) < 60]
    for want in c.pick([1000, 1001, 2500], [999, 1000, 1001, 2000, 2001, 5000]):
        d, pb, bs = rng.choice(base)
        per = max(len(bs.uris(b)) for b in range(len(pb)))
        large.append(many.copies(d, pb, bs, (want + per - 1) // per if want % 10 else max(1, want // per)))
    ss = ss + large
    work = c.dir("work")
    items = []
    for k, (d, pb, bs) in enumerate(ss):
        p = os.path.join(work, f"s{k}")
        os.mkdir(p)
        items.append(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), dir=p))
    files = [(o["pb"], o["nq"]) for o in c.drive("files", items, parallel=4)]

    jobs = []   # (scenario, how, more)

    def add(k, how, **more):
        jobs.append((k, how, dict(more)))
    for k in range(len(ss)):
        big = k >= len(ss) - len(large)
        add(k, dict(mode="json", cache=rng.random() < .2, out=rng.choice(["fresh", "pipe"])))
        for m in ("csv", "sqlite") if big else [rng.choice(["csv", "sqlite"])]:
            add(k, dict(mode=m, fields=rng.random() < .5, sep=rng.choice([",", "", "; ", "\n", "'", "\""]), cache=rng.random() < .2, out=rng.choice(["fresh", "old"]) if m == "csv" else "fresh", name=rng.choice(["out", "a b", "ü", "x.db", "o'ut"])))

    def go(batch):
        with ThreadPoolExecutor(24) as ex:
            return list(ex.map(lambda j: r.job(ss[j[0]][2], j[2].pop("files", files[j[0]]), j[1], work, **j[2]), [(k, h, dict(m)) for k, h, m in batch]))
    t = time.time()
    first = go(jobs)
    log(f"{len(jobs)} plain runs: {time.time() - t:.1f}s")
    sizes = {}
    for (k, how, _), o in zip(jobs, first):
        if o["rc"] == 0 and not how.get("cache"):
            sizes[(k, how["mode"])] = (o["size"], how)

    faults = []

    def fault(k, how, **more):
        faults.append((k, how, more))
    # no room from some byte on
    some = [k for k in sorted({k for k, _ in sizes}) if len(ss[k][0].stmts) < 3000]
    for (k, m), (size, how) in sorted(sizes.items(), key=lambda x: x[0]):
        if how.get("out") == "pipe" or size == 0:
            continue
        n = c.pick(3, 8)
        if k >= len(ss) - len(large):
            n = 2
        limits = {rng.randrange(size) for _ in range(n)} | ({size - 1} if rng.random() < .5 else set()) | ({0} if rng.random() < .1 else set()) | ({4096 * (size // 4096)} if size > 4096 and size % 4096 else set())
        for l in limits:
            fault(k, dict(how, limit=l, room="no", out="fresh"))
        if rng.random() < .3:
            fault(k, dict(how, limit=size if m != "sqlite" else 10 * size + 100000, room="yes", out="fresh"))
        if rng.random() < .15:
            fault(k, dict(how, limit=rng.randrange(2 * size), room="unknown", out="fresh", cache=True))
    for k in rng.sample(some, min(len(some), c.pick(14, 60))):
        nonempty = bool(ss[k][1])
        fault(k, dict(mode="json", out="full", room="no"))
        fault(k, dict(mode="json", out="closed", room="no"))
        if nonempty:
            for kind in ("missing", "file", "taken", "full"):
                fault(k, dict(mode="csv", out=kind, room="no", at=rng.randrange(100)))
            for kind in ("dir", "garbage", "missing"):
                fault(k, dict(mode="sqlite", out=kind, room="no"))
            fault(k, dict(mode="mysql", addr=rng.choice(["u:p@tcp(127.0.0.1:1)/x", "nonsense", "u:p@unix(/nowhere)/x", "@/"]), room="no"))
        for modes in (["csv", "sqlite"], ["sqlite", "mysql"], ["csv", "mysql"], ["csv", "sqlite", "mysql"]):
            fault(k, dict(mode="both", modes=modes), options=False)
        pbf, nqf = files[k]
        d = os.path.dirname(pbf)
        pb, nq = open(pbf, "rb").read(), open(nqf, "rb").read()

        def damaged(name, data):
            p = os.path.join(d, name)
            open(p, "wb").write(data)
            return p
        cases = [[], [pbf], [pbf, nqf, nqf], [pbf, os.path.join(d, "none.nq")], [os.path.join(d, "none.xml"), nqf], [os.path.join(d, "none")], [d + "/"] if False else [pbf, d], [d, nqf]]
        if len(pb) > 40:
            cases.append([damaged("cut.xml", pb[:rng.randrange(1, len(pb) - 30)]), nqf])
        cases.append([damaged("text.xml", b"<html><body>"), nqf])
        cases.append([damaged("empty.xml", b""), nqf])
        if nq:
            lines = nq.splitlines(True)
            at = rng.randrange(len(lines) + 1)
            for junk in (b"this is not a statement .\n", b"<http://v.example/a> <http://v.example/b> \n", b"<http://v.example/a> <http://v.example/b> \"open .\n", b"\"x\" <http://v.example/b> <http://v.example/c> .\n"):
                cases.append([pbf, damaged(f"junk{len(cases)}.nq", b"".join(lines[:at]) + junk + b"".join(lines[at:]))])
            last = lines[-1].rstrip(b"\n .")
            cases.append([pbf, damaged("cut.nq", b"".join(lines[:-1]) + last[:max(1, len(last) - rng.randint(1, 6))])])
        for f in cases:
            fault(k, dict(mode=rng.choice(["json", "json", "csv", "sqlite"]) if nonempty else "json"), files=f, input="bad")
        fault(k, dict(mode="both", modes=["csv", "sqlite"]), files=rng.choice(cases), input="bad", options=False)
    t = time.time()
    second = go(faults)
    log(f"{len(faults)} runs with faults: {time.time() - t:.1f}s")

    traces, of, tables, tof = [], [], [], []
    for (k, how, more), o in zip(jobs + faults, first + second):
        what = dict(args=o["args"], how=how, more={a: b for a, b in more.items()}, exit=o["rc"], stderr=o["err"], problem=o["bad"])
        if k < len(ss) - len(large):
            what.update(pb=items[k]["pb"], doc=items[k]["doc"])
        if o["rc"] == "timeout":
            c.violation(f"run {how} did not finish", what)
            continue
        if o["table"] is not None:
            tables.append(o["table"])
            tof.append((len(traces), o["words"]))
        traces.append(o["note"])
        of.append(what)
    rejected, _ = c.validate("TablesTrace", tables)
    for i, (j, words) in enumerate(tof):
        if i in rejected:
            of[j].update(problem="tables are not what they should be", trace=str(tables[i])[:20000])
        else:
            traces[j]["out"] = "complete"
    rejected, _ = c.validate("ConverterTrace", traces)
    for i in rejected:
        c.violation(f"run {of[i]['how']} with {traces[i]}: {of[i]['problem']} {of[i]['stderr'][-200:]}", dict(of[i], trace=traces[i]))
    c.cov["runs"] = len(traces)
    c.cov["runs_with_faults"] = len(faults)
    c.cov["entities_of_largest"] = max(len(bs.uris(b)) for _, pb, bs in large for b in range(len(pb)))
    c.sample(dict(how=of[0]["how"], trace=traces[0]))
    c.sample(dict(how=of[-1]["how"], trace=traces[-1]))
