"""C20: a cache directory never influences the result, and nothing outside of it is touched.

spec/CacheMC.tla, runs over a directory of storages with damages and kills in between, refines the
contract spec/Cache.tla; all its histories of a few steps are also replayed: with real caches, damaged
in the ways of the specification (and some more), and runs of the real program over data that
spec/GraphEval.tla decides, by a user with no other rights. Everything around the cache is watched.
Histories must be what spec/CacheTrace.tla allows."""
import copy, hashlib, json, os, random, resource, shutil, signal, stat, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import graphlib as g
import many
import rnd
from checks.c17 import check_json
from vlib import log

NOBODY = 65534
ODD = ["..", ".", "../victim", "../../victim", "../../../victim", "../../victim/in", "../cwd", "../cache", "a/b", "a/../../victim", "/victim", "ABS", "a\\b", "..\\victim", "forward.leveldb", "bundles", "bundles/1", "1", "2", "3", "01", "LOCK", "CURRENT", "pso.leveldb", "../pso.leveldb", "../forward.leveldb",
       "../bundles", "x" * 240, "y" * 300, "ü", "u\u0308", "A", "a", "a b", "*", "?", "[a]", "~", "$HOME", "-rf", "%2e%2e", "con", "a:b", "...", ".hidden", "a.", "\u202e", "'", "\"", "<b>", "&"]
WORST = ["..", "../victim", "../../victim", "ABS", "y" * 300, "y" * 300, "1", "2", "bundles", "forward.leveldb", "../pso.leveldb", "a/b"]
KINDS = ["none", "db", "bad", "file", "link", "dangling"]


def tree(top, skip):
    """everything below a directory, but not inside of skip"""
    out = {}
    for root, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(root, n)
            rel = os.path.relpath(p, top)
            st = os.lstat(p)
            if p in skip:
                out[rel] = "skipped"
            elif stat.S_ISLNK(st.st_mode):
                out[rel] = "-> " + os.readlink(p)
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = f"dir {st.st_mode:o}"
            else:
                out[rel] = f"file {st.st_mode:o} {hashlib.sha1(open(p, 'rb').read()).hexdigest()}"
        ds[:] = [d for d in ds if os.path.join(root, d) not in skip]
    return out


def storages(cache):
    """the storages there are"""
    out = []
    for root, ds, fs in os.walk(cache):
        if "CURRENT" in fs and root != cache:
            out.append(os.path.relpath(root, cache))
            ds[:] = []
    return sorted(out)


def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    elif os.path.lexists(p):
        os.remove(p)


class World:
    """a cache, and what is around it"""

    def __init__(self, base, rng, donors, known, uid):
        self.top, self.rng, self.donors, self.known, self.uid, self.n = base, rng, donors, known, uid, 0
        self.home = os.path.join(base, "a", "b", "c")
        os.makedirs(self.home)
        for d in ("cwd", "tmp"):
            os.makedirs(os.path.join(self.home, d))
        self.cwd = os.path.join(self.home, "cwd")
        self.cache = os.path.join(self.home, "cache")
        self.given = self.cache
        how = rng.randrange(8)
        if how == 0:
            self.given = "../cache"
        elif how == 1:
            self.given = self.cache + "//"
        elif how == 2:     # a link to a directory
            self.cache = os.path.join(base, "a", "real")
            os.symlink(self.cache, os.path.join(self.home, "cache"))
        if how != 3:       # 3: does not exist yet
            os.mkdir(self.cache)
        # things that names might lead to
        for d in (base, os.path.join(base, "a"), os.path.join(base, "a", "b"), self.home):
            v = os.path.join(d, "victim")
            if rng.random() < .5:
                os.makedirs(os.path.join(v, "in"))
                open(os.path.join(v, "precious"), "w").write("precious")
                open(os.path.join(v, "in", "CURRENT"), "w").write("MANIFEST-000000\n")
            else:
                open(v, "w").write("precious")
        self.own()

    def own(self):
        if self.uid:
            for root, ds, fs in os.walk(self.top):
                for n in [root] + [os.path.join(root, f) for f in fs + ds]:
                    os.lchown(n, self.uid, self.uid)

    def watch(self):
        return tree(self.top, {self.cache, os.path.join(self.home, "tmp")})

    def changed(self, before):
        now = self.watch()
        rel = os.path.relpath(self.cache, self.top)
        return sorted(k for k in before.keys() | now.keys() if before.get(k) != now.get(k) and k != rel and not self.cache.startswith(os.path.join(self.top, k) + "/"))[:10]

    def places(self, at):
        """real storages for one of the specification"""
        have = storages(self.cache) if os.path.isdir(self.cache) else []
        every = sorted(set(have) | set(self.known))
        inner = [p for p in every if "/" in p] or every
        outer = [p for p in every if "/" not in p] or every
        if at == "1":
            return inner[:1]
        if at == "2":
            return inner[1:] or inner
        half = {"i1": outer[::2], "i2": outer[1::2]}.get(at, every)
        return self.rng.sample(half, self.rng.randint(1, len(half))) if half else []

    def damage(self, at, kind, more=None):
        if not os.path.isdir(self.cache):
            os.makedirs(self.cache)
        note = []
        for rel in self.places(at):
            p = os.path.join(self.cache, rel)
            self.n += 1
            donor = self.rng.choice(self.donors)
            theirs = os.path.join(donor, rel) if os.path.isdir(os.path.join(donor, rel)) and self.rng.random() < .8 else os.path.join(donor, self.rng.choice(storages(donor)))
            if not os.path.isdir(os.path.dirname(p)) or os.path.islink(os.path.dirname(p)):
                remove(os.path.dirname(p))
                os.makedirs(os.path.dirname(p))
            if kind == "bad" and not (os.path.isdir(p) and not os.path.islink(p)):
                remove(p)
                shutil.copytree(theirs, p)
            if kind != "bad":
                remove(p)
            how = ""
            if kind == "db":
                shutil.copytree(theirs, p)
            elif kind == "file":
                how = self.rng.choice(["empty", "text", "fifo", "big"])
                if how == "fifo":
                    os.mkfifo(p)
                else:
                    open(p, "wb").write(dict(empty=b"", text=b"not a storage", big=b"\0" * 100000)[how])
            elif kind == "link":
                ext = os.path.join(self.top, "a", f"ext{self.n}")
                shutil.copytree(theirs, ext)
                os.symlink(ext if self.rng.random() < .5 else os.path.relpath(ext, os.path.dirname(p)), p)
            elif kind == "dangling":
                how = self.rng.choice(["nowhere", "deep", "loop"])
                os.symlink(dict(nowhere=os.path.join(self.top, "a", f"nowhere{self.n}"), deep=os.path.join(self.top, "a", f"nowhere{self.n}", "x"), loop=os.path.basename(p))[how], p)
            elif kind == "bad":
                how = self.corrupt(p)
            note.append(f"{rel} {kind} {how}")
        if more == "parents":
            for d in sorted({os.path.dirname(x) for x in self.known} - {""}):
                p = os.path.join(self.cache, d)
                remove(p)
                open(p, "w").write("a file")
                note.append(f"{d} is a file")
        elif more == "clutter":
            for n in ("junk", ".hidden", "LOCK", "CURRENT", "9", "tmp.ldb"):
                p = os.path.join(self.cache, self.rng.choice([""] + sorted({os.path.dirname(x) for x in self.known})), n)
                if not os.path.lexists(p) and os.path.isdir(os.path.dirname(p)):
                    open(p, "w").write("junk")
            note.append("clutter")
        self.own()
        return note

    def corrupt(self, d):
        rng = self.rng
        fs = [os.path.join(d, f) for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))]
        how = rng.choice(["flip", "cut", "garbage", "lost", "extra", "dirs", "all", "empty"])
        some = [f for f in fs if rng.random() < .5] or fs
        if how == "empty":
            for f in fs:
                os.remove(f)
        elif how == "all":
            for f in fs:
                open(f, "wb").write(rng.randbytes(100))
        elif how == "extra":
            open(os.path.join(d, "000099.log"), "wb").write(rng.randbytes(500))
            open(os.path.join(d, "000098.ldb"), "wb").write(rng.randbytes(500))
            os.mkdir(os.path.join(d, "000097.ldb"))
        else:
            for f in some:
                b = bytearray(open(f, "rb").read())
                if how == "flip" and b:
                    for _ in range(rng.randint(1, 5)):
                        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                elif how == "cut":
                    b = b[:rng.randrange(len(b) + 1)]
                elif how == "garbage":
                    b = rng.randbytes(rng.randint(0, 200))
                os.remove(f)
                if how == "dirs":
                    os.mkdir(f)
                elif how != "lost":
                    open(f, "wb").write(b)
        return how


class Runner:
    def __init__(self, c):
        self.c, self.exe = c, c.program("n2j")
        self.uid = NOBODY if os.geteuid() == 0 and self.can(NOBODY) else 0

    def can(self, uid):
        try:
            return subprocess.run([self.exe, "-help"], user=uid, group=uid, extra_groups=[], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode in (0, 2)
        except (OSError, subprocess.SubprocessError):
            return False

    def start(self, w, files, limit=None):
        def pre():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        kw = dict(user=self.uid, group=self.uid, extra_groups=[]) if self.uid else {}
        env = dict(os.environ, GOMAXPROCS="2", HOME=w.home, TMPDIR=os.path.join(w.home, "tmp"))
        return subprocess.Popen([self.exe, "-cache", w.given, *files], cwd=w.cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, start_new_session=True, **kw)

    def judge(self, data, rc, out, err):
        if rc != 0:
            return "failed", err.decode(errors="replace")[-300:]
        bad = check_json(data["bs"], out)
        return ("wrong", str(bad[:2])[:800]) if bad else ("right", "")

    def step(self, w, s, data, rng):
        """one step of a history: the event, and what to tell about it"""
        if s["op"] == "damage":
            note = w.damage(s["at"], s["kind"], s.get("more"))
            return dict(op="damage", outside=[]), note
        before = w.watch()
        limit = s.get("limit")
        p = self.start(w, data["files"], limit)
        timer = None
        if s["op"] == "kill":
            end = time.time() + 60
            if s["stage"] == "open":
                want = rng.randrange(12)
                while time.time() < end and p.poll() is None and len(storages(w.cache)) < want:
                    time.sleep(.003)
            else:
                try:
                    p.wait(rng.random() * (.5 if s["stage"] == "fill" else 1.2))
                except subprocess.TimeoutExpired:
                    pass
            if p.poll() is None:
                p.send_signal(rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGABRT]))
        try:
            out, err = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(op="run", medium="ok", result="failed", outside=w.changed(before)), "does not finish"
        if s["op"] == "kill":
            res, why = ("none", f"killed: {p.returncode}") if p.returncode < 0 or (p.returncode == 2 and b"SIGABRT" in err) else self.judge(data, p.returncode, out, err)
            return dict(op="kill", result=res, outside=w.changed(before)), why
        res, why = self.judge(data, p.returncode, out, err)
        return dict(op="run", medium="limited" if limit is not None else "ok", result=res, outside=w.changed(before)), why

    def history(self, k, steps, pool, donors, known, seed):
        rng = random.Random(seed)
        top = os.path.join(self.c.dir("work"), f"h{k}")
        w = World(top, rng, donors, known, self.uid)
        try:
            trace, notes = [], []
            for s in steps:
                data = pool[s["data"]][rng.randrange(len(pool[s["data"]]))] if "data" in s else None
                e, note = self.step(w, s, data, rng)
                trace.append(e)
                notes.append(dict(step=s, data=data and data["name"], event=e, note=note))
            return trace, notes, w.given
        finally:
            shutil.rmtree(top, ignore_errors=True)


def variant(rng, style, d, pb, bs, abs_):
    """a scenario with other identifiers: 1 plain ones, 2 equal names of bundles, 3 odd ones"""
    if style == 1:
        return pb, bs, g.pb_tree(pb, d.f)
    pb = [dict(b) for b in pb]
    if style == 3:
        worst = rng.choice(WORST)
        names = [worst] + rng.sample([n for n in ODD if n != worst], min(len(ODD) - 1, len(pb) - 1))
        rng.shuffle(names)
        for b, n in zip(pb, names):
            if n == worst or rng.random() < .8:
                b["id"] = os.path.join(abs_, "victim") if n == "ABS" else n
    bs = copy.copy(bs)
    bs.pb = pb
    t = g.pb_tree(pb, d.f)

    def name(n):
        n["bundle"] = rng.choice(["same", "same", "other"]) if style == 2 else n["id"] if rng.random() < .7 else rng.choice([x for x in ODD if x != "ABS"])
        for x in n["children"]:
            name(x)
    for n in t:
        name(n)
    return pb, bs, t


def run(c):
    c.tlc("CacheMC", consts=dict(Steps=c.pick(3, 4)))
    for k in ("WipeIndex", "WipeBundles", "Links", "Valid", "Number"):
        if c.tlc("CacheMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"CacheMC does not need {k}")
        c.specs.pop()
    emitted = c.tlc("CacheMC", consts=dict(Emit=True), count=False)["prints"]
    c.specs.pop()
    seen, hs = set(), []
    for h in emitted:
        s = json.dumps(h)
        if s not in seen:
            seen.add(s)
            hs.append(h)
    c.cov["histories_of_specification"] = len(hs)
    rng = c.rng

    r = Runner(c)
    base = [s for s in rnd.scenarios(c, c.pick(40, 200)) if s[0].k is None and s[1]]
    work = c.dir("data")
    pool, items, metas = {1: [], 2: [], 3: []}, [], []
    big = [many.copies(d, pb, bs, c.pick(60, 300)) for d, pb, bs in rng.sample([s for s in base if many.apart(s[0])], c.pick(3, 8))]
    for k, (d, pb, bs) in enumerate(base + big):
        for style in (1, 2, 3):
            if k >= len(base) and style != 1:
                continue
            pb2, bs2, t = variant(rng, style, d, pb, bs, os.path.join(c.dir("work"), "h0"))
            p = os.path.join(work, f"d{k}-{style}")
            os.mkdir(p)
            items.append(dict(doc=d.stmts, pb=t, dir=p))
            metas.append((style, bs2, t, d))
    for (style, bs2, t, d), o, it in zip(metas, c.drive("files", items, parallel=4), items):
        pool[style].append(dict(bs=bs2, files=[o["pb"], o["nq"]], name=os.path.basename(it["dir"]), pb=t, doc=d.stmts))
    for root, ds, fs in os.walk(work):
        os.chmod(root, 0o755)

    # caches of other data
    donors = []
    for k in range(c.pick(4, 10)):
        dn = os.path.join(c.dir("donors"), f"c{k}")
        os.makedirs(dn)
        data = max(pool[1][:len(base)], key=lambda x: len(x["pb"]) + rng.random()) if k == 0 else rng.choice(pool[1])
        p = subprocess.run([r.exe, "-cache", dn, *data["files"]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if p.returncode != 0:
            c.violation(f"a run with an empty cache fails: {p.stderr[-300:]}", data["files"])
            return
        donors.append(dn)
    known = sorted({x for dn in donors for x in storages(dn)})

    chosen = rng.sample(hs, min(len(hs), c.pick(110, 1500)))
    # longer ones, with more ways to do damage
    for _ in range(c.pick(40, 400)):
        h = []
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < .45:
                h.append(dict(op="damage", at=rng.choice(["i1", "i2", "1", "2", "all"]), kind=rng.choice(KINDS), more=rng.choice([None, None, "parents", "clutter"])))
            elif x < .65:
                h.append(dict(op="kill", data=rng.choice([1, 2, 3]), stage=rng.choice(["open", "fill", "read"])))
            elif x < .8:
                h.append(dict(op="run", data=rng.choice([1, 2, 3]), limit=rng.choice([0, 100, 1000, 5000, 100000]) + rng.randrange(100)))
            else:
                h.append(dict(op="run", data=rng.choice([1, 2, 3])))
        h.append(dict(op="run", data=rng.choice([1, 2, 3])))
        chosen.append(h)
    t = time.time()
    with ThreadPoolExecutor(24) as ex:
        res = list(ex.map(lambda x: r.history(x[0], x[1], pool, donors, known, f"{c.seed}/{x[0]}"), enumerate(chosen)))
    log(f"{len(chosen)} histories: {time.time() - t:.1f}s")
    traces, reps = [], []
    for h, (tr, notes, given) in zip(chosen, res):
        traces.append(tr)
        names = {n["data"] for n in notes if n["data"]}
        reps.append(dict(history=h, notes=notes, cache=given, data=[dict(x, bs=None) for x in sum(pool.values(), []) if x["name"] in names and len(x["doc"]) < 2000]))

    # the same cache again and again within one process
    def within(k):
        d = os.path.join(c.dir("within"), f"w{k}")
        os.makedirs(d)
        its, bss = [], []
        for _ in range(6):
            x = random.Random(f"{c.seed}/{k}/{len(its)}").choice(pool[random.Random(f"s{c.seed}/{k}/{len(its)}").choice([1, 2])])
            if len(x["doc"]) > 2000:
                continue
            its.append(dict(filler=0, doc=x["doc"], pb=x["pb"], cache=d, runs=[dict(via="glass", engine="disk", store="disk", masked=False), dict(via="", engine="disk", store="disk", masked=True)]))
            bss.append(x["bs"])
        return its, bss, c.drive("extract", its, fatal=False)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(within, range(c.pick(10, 80))))
    for its, bss, outs in res:
        tr, notes = [], []
        for it, bs, os_ in zip(its, bss, outs):
            for o in ([os_] if isinstance(os_, dict) else os_):
                bad = [o.get("err") or o.get("crash")] if o.get("err") or o.get("crash") else g.check_bundles(bs, o["bundles"], {}, triples=False)
                tr.append(dict(op="run", medium="ok", result="right" if not bad else "failed" if o.get("err") or o.get("crash") else "wrong", outside=[]))
                notes.append(bad[:2])
        traces.append(tr)
        reps.append(dict(command="extract", items=its, notes=notes))

    # storages of bundles
    its = []
    for k in range(c.pick(60, 600)):
        x = rng.choice(pool[rng.choice([1, 2, 2, 2])] if k % 2 else pool[1])
        if len(x["doc"]) < 2000:
            its.append(dict(dir=os.path.join(c.dir("storages"), f"s{k % 7}" if k % 3 else f"t{k}"), pb=x["pb"], marks=rng.choice([1, 3, 40]), together=rng.random() < .5, again=rng.random() < .4))
    for it, rounds in zip(its, c.drive("storages", its)):
        tr = []
        for o in rounds:
            own = [x or [] for x in o["own"]]
            tr.append(dict(op="storages", own=own, seen=[x or [] for x in o["seen"]] if not o.get("err") else [["failed"]] * max(1, len(own))))
            if o.get("err"):
                tr[-1]["own"] = own or [["none"]]
        traces.append(tr)
        reps.append(dict(command="storages", item=it, out=[o.get("err") for o in rounds]))

    rejected, _ = c.validate("CacheTrace", traces)
    for i in rejected:
        why = [n for n in reps[i].get("notes", []) if n] if "history" not in reps[i] else [n for n in reps[i]["notes"] if n["event"]["op"] != "damage" and (n["event"]["result"] in ("wrong", "failed") or n["event"]["outside"])]
        c.violation(f"history of a cache: {str(why)[:700]}", dict(reps[i], trace=traces[i]))
    c.cov["histories"] = len(traces)
    c.cov["runs_of_program"] = sum(1 for h in chosen for s in h if s["op"] != "damage")
    c.cov["killed"] = sum(1 for t in traces for e in t if e["op"] == "kill" and e["result"] == "none")
    c.cov["unprivileged"] = bool(r.uid)
    c.assumptions += ["no two runs use the same cache at the same time", "the directories of the cache itself, other than those of storages, are not links"]
    c.sample(dict(history=chosen[0], trace=traces[0]))
    c.sample(dict(history=chosen[-1], trace=traces[len(chosen) - 1]))
