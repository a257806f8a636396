"""C24: which input files a command line selects.

spec/SourceMC.tla, a search through directories, refines the contract spec/Source.tla in all worlds with
a few entries and all command lines. Worlds are built for real, with odd names, and given to the real
selection with all command lines; what it selects must be what spec/SourceTrace.tla says. Both programs
are run on some of them, with files that tell which of them has been read."""
import json, os, subprocess

EXTS = ["xml", "nq", "other"]
KINDS = ["file", "file", "file", "link", "subdir", "linkdir", "dangling", "fifo"]
ODD = ["a", "b c", "[x]", "*", "?", "a\\b", "{a,b}", "-x", "-cache", "~", "$HOME", "ü", "a%20b", "#1", "a:b", "'q\"", "x\ny", "\t", "[", "]", "[!a]", "\\*", "a.xml.d", "a.nq", ".", "..."]
OTHER = [".XML", ".xml~", ".nq.gz", "", ".xml ", ".nQ", ".xmls", ".nqx", "xml", "nq", ".xm"]
PB = '<pathbuilderinterface><path><id>{id}</id><uuid>{id}</uuid><name>{id}</name><enabled>1</enabled><is_group>1</is_group><group_id>0</group_id><weight>0</weight><bundle>{id}</bundle><field></field><fieldtype></fieldtype><displaywidget></displaywidget><formatterwidget></formatterwidget><cardinality>-1</cardinality><field_type_informative></field_type_informative><path_array><x>http://v.example/C</x></path_array><datatype_property></datatype_property><short_name></short_name><disamb></disamb><description></description></path></pathbuilderinterface>'
NQ = '<http://v.example/{id}> <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> <http://v.example/C> .\n'


def content(p, name, ident):
    ext = name.rsplit(".", 1)[-1].lower() if "." in name else ""
    open(p, "w").write((PB if "xml" in ext else NQ if "nq" in ext else (PB if len(name) % 2 else NQ)).format(id=ident))


def norm(p):
    return "/" + os.path.normpath(p).lstrip("/")


class World:
    def __init__(self, c, d, n):
        self.w = [dict(ext=c.rng.choice(EXTS[:2] if c.rng.random() < .8 else EXTS), kind=c.rng.choice(KINDS)) for _ in range(n)]
        base = os.path.join(d, "w" + c.rng.choice(ODD).strip(".") + c.rng.choice(ODD))
        os.makedirs(base)
        self.base, used = base, set()
        self.real = {("d",): "d" + c.rng.choice(ODD), ("p",): "p" + c.rng.choice(ODD), ("e",): "e" + c.rng.choice(ODD), ("ld",): "l" + c.rng.choice(ODD), ("none",): "n" + c.rng.choice(ODD)}
        for k in self.real:
            self.real[k] = os.path.join(base, self.real[k])
        for k in ("d", "p", "e"):
            os.mkdir(self.real[(k,)])
        os.symlink(self.real[("d",)], self.real[("ld",)])
        for i, name in ((1, "p.xml"), (2, "p.nq")):
            self.real[("p", i)] = os.path.join(self.real[("p",)], c.rng.choice(["", "*", "[p]"]) + name)
            content(self.real[("p", i)], name, f"p{i}")
        outside = os.path.join(base, "outside")
        for i, e in enumerate(self.w, 1):
            while True:
                name = c.rng.choice(ODD) + (("." + e["ext"]) if e["ext"] != "other" else c.rng.choice(OTHER))
                if e["ext"] != "other" and c.rng.random() < .1:
                    name = "." + e["ext"]
                if name not in used and name not in (".", "..") and (e["ext"] != "other" or not name.endswith((".xml", ".nq"))):
                    break
            used.add(name)
            p = os.path.join(self.real[("d",)], name)
            self.real[("d", i)], self.real[("ld", i)] = p, os.path.join(self.real[("ld",)], name)
            for j in (1, 2):
                q = os.path.basename(self.real[("p", j)])
                self.real[("d", i, j)], self.real[("ld", i, j)] = os.path.join(p, q), os.path.join(self.real[("ld", i)], q)
            k = e["kind"]
            if k == "file":
                content(p, name, f"d{i}")
            elif k == "link":
                content(outside + str(i), name, f"d{i}")
                os.symlink(outside + str(i), p)
            elif k == "subdir":
                os.mkdir(p)
            elif k == "linkdir":
                os.symlink(self.real[("p",)], p)
            elif k == "dangling":
                os.symlink(outside + "none", p)
            else:
                os.mkfifo(p)
        self.names = [("d",), ("ld",), ("p",), ("e",), ("none",), ("p", 1), ("p", 2)] + [("d", i) for i in range(1, n + 1)] + ([("d", 1, 1)] if n else [])
        self.back = {}
        for k, p in self.real.items():
            self.back.setdefault(norm(p), list(k))

    def spelled(self, c, name, cwd=None):
        """one of the ways to write a name"""
        p = self.real[name]
        how = c.rng.randrange(4)
        if how == 1:
            p = os.path.join(os.path.dirname(p), ".", os.path.basename(p))
        elif how == 2:
            p = p.replace("/", "//", 1) if c.rng.random() < .5 else os.path.dirname(p) + "//" + os.path.basename(p)
        elif how == 3 and len(name) == 1:
            p += "/"
        return p

    def token(self, p, cwd=None):
        return [] if p == "" else self.back.get(norm(os.path.join(cwd or "/", p)), ["strange", p])


def lists(c, w):
    names = w.names
    yield ()
    for a in names:
        yield (a,)
        for b in names:
            yield (a, b)
    for _ in range(3):
        yield tuple(c.rng.choice(names) for _ in range(3))
    # the right files, and one too many
    yield (("p", 1), ("p", 2), ("p", 2))
    yield (("p",), ("p", 1), ("p", 2))


def trace(w, exports, args, r, cwd=None):
    return dict(w=w.w, exports=exports, args=[list(a) for a in args], r=dict(err=bool(r["err"]), xml=w.token(r["xml"], cwd), nq=w.token(r["nq"], cwd), export=w.token(r["export"], cwd)))


def program(c, d):
    """which files do the programs read?"""
    traces, where = [], []
    n2j, hangover = c.program("n2j"), c.program("hangover")
    for k in range(c.pick(12, 120)):
        w = World(c, os.path.join(d, f"p{k}"), c.rng.choice([2, 2, 3]))
        cases = [(x,) for x in w.names] + [(("d", 1), ("d", 2)), (("d", 2), ("d", 1)), (("p", 1), ("d", 1)), (("d", 1), ("p", 2))]
        for args in c.rng.sample(cases, c.pick(6, len(cases))) + [((("p", 1), ("p", 2), ("p", 2)), (("p",), ("p", 1), ("p", 2)), ())[k % 3]]:
            argv = [os.path.relpath(w.real[a], w.base) if c.rng.random() < .5 else w.real[a] for a in args]
            try:
                p = subprocess.run([n2j, "--", *argv], cwd=w.base, capture_output=True, timeout=60)
            except subprocess.TimeoutExpired:
                c.violation(f"n2j {argv} hangs", dict(world=w.w, args=args))
                continue
            r = dict(err="", xml="", nq="", export="")
            if p.returncode:
                # a file that was selected, but is something else, can't be read
                if b"find source" not in p.stderr:
                    continue
                r["err"] = "error"
            else:
                o = json.loads(p.stdout)
                b = list(o)
                us = [x["URI"].rsplit("/", 1)[1] for x in o[b[0]] or []] if len(b) == 1 else []
                where_is = {f"d{i}": w.real[("d", i)] for i in range(1, len(w.w) + 1)} | {f"p{i}": w.real[("p", i)] for i in (1, 2)}
                if len(b) != 1 or len(us) != 1:
                    continue  # what was read has other contents
                r["xml"], r["nq"] = where_is[b[0]], where_is[us[0]]
                # the same file by another name
                for key in ("xml", "nq"):
                    for q in [w.real[n] for n in w.real]:
                        if os.path.exists(q) and os.path.samefile(q, r[key]) and (os.path.dirname(os.path.normpath(q)) in (os.path.normpath(w.real[args[0]]),) or q in [w.real[a] for a in args]):
                            r[key] = q
                            break
            traces.append(trace(w, False, args, r, w.base))
            where.append(dict(program="n2j", world=w.w, args=args, argv=argv))
            # the server takes exports as well; none of these is one
            if r["err"] and len(args) == 1 and w.token(w.real[args[0]]) != ["none"]:
                q = subprocess.run(["timeout", "20", hangover, "-bench", "--", *argv], cwd=w.base, capture_output=True) if not any(e["kind"] == "fifo" for e in w.w) else None
                if q and q.returncode != 1:
                    c.violation(f"hangover {argv} exits with {q.returncode} although there is no data set", dict(world=w.w, args=args, stderr=q.stderr.decode()[-500:]))
    return traces, where


def run(c):
    c.tlc("SourceMC", consts=dict(Max=c.pick(2, 3)))
    for k in ("Exactly", "Regular"):
        if c.tlc("SourceMC", consts={k: False, "Max": 3 if k == "Exactly" else 2}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"SourceMC does not need {k}")
        c.specs.pop()
    d = c.dir("worlds")
    worlds = [World(c, os.path.join(d, f"w{i}"), c.rng.choice([0, 1, 2, 2, 2, 3, 3, 4])) for i in range(c.pick(300, 5000))]
    items, cases = [], []
    for w in worlds:
        cs = [(e, a, [w.spelled(c, x) for x in a]) for a in lists(c, w) for e in (False, True)]
        cs += [(e, (("none",),) * n, [""] * n) for n in (1, 2) for e in (False, True)]
        items.append([dict(exports=e, args=s) for e, _, s in cs])
        cases.append(cs)
    traces, where = [], []
    for w, cs, o in zip(worlds, cases, c.drive("source", items, parallel=8, grain=20)):
        for (e, a, s), r in zip(cs, o):
            if r["err"].startswith("panic"):
                c.violation(f"selecting from {s}: {r['err']}", dict(world=w.w, args=a))
                continue
            traces.append(trace(w, e, a, r))
            where.append(dict(world=w.w, names=s, exports=e, result=r))
    c.cov["worlds"], c.cov["command_lines"] = len(worlds), len(traces)
    t2, w2 = program(c, d)
    c.cov["program_runs"] = len(t2)
    rejected, r = c.validate("SourceTrace", traces + t2)
    for i in rejected:
        c.violation(f"{(traces + t2)[i]}"[:700], (where + w2)[i])
    c.sample(where[5])
    c.assumptions.append("directories and files can be read by the user running the program")
