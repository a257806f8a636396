"""Random scenarios (a document and a pathbuilder), and what spec/GraphEval.tla says they mean."""
import json, os, tempfile
import graphlib as g

TEXTS = ["", "a", "a", "b", "42", "with \"quotes\" and \\", "two\nlines", "tab\tcr\r", "\u00fcml\u00e4ut \u4e2d\u6587 \U0001f600", "x1", "http://v.example/x1", "<b>bold</b>",
         "a;b,c|d", "'; DROP TABLE x; --", " leading and trailing ", "0", "NULL", "@en", "\"@en", "%20", "{{.}}", "long " * 40]
LANGS = ["", "", "", "en", "de", "en-GB"]


def R(s, p, o):
    return dict(k="r", s=s, p=p, o=o, l="")


def D(s, p, o, l=""):
    return dict(k="d", s=s, p=p, o=o, l=l)


class Vocabulary:
    def __init__(self, res=8, classes=4, props=4, dts=3):
        self.res = [f"x{i}" for i in range(1, res + 1)]
        self.classes = [f"C{i}" for i in range(1, classes + 1)]
        self.props = [f"p{i}" for i in range(1, props + 1)]
        self.dts = [f"n{i}" for i in range(1, dts + 1)]


def pathbuilder(rng, v, tops=2, depth=3, fields=2, kids=2, size=6):
    """a pathbuilder as in Graph.tla"""
    pb, cnt = [], [0]

    def step():
        return [rng.choice(v.props), rng.choice(v.classes)]

    def name(p):
        cnt[0] += 1
        return f"{p}{cnt[0]}"

    def bundle(up, path, level):
        fs = []
        for _ in range(rng.randint(0, fields)):
            fp = list(path)
            if rng.random() < .4:
                fp += step()
            fs.append(dict(id=name("f"), path=fp, dt=rng.choice(v.dts) if rng.random() < .75 else ""))
        pb.append(dict(id=name("b"), up=up, path=path, fields=fs))
        me = len(pb)
        if level < depth:
            for _ in range(rng.choice([0, 1, 1, kids])):
                if len(pb) < size:
                    bundle(me, path + step() + (step() if rng.random() < .2 else []), level + 1)

    for _ in range(rng.randint(1, tops)):
        bundle(0, [rng.choice(v.classes)] + (step() if rng.random() < .2 else []), 1)
    return pb


def document(rng, v, pb, ents=3, noise=6, identities=2, inverses=True, texts=TEXTS, langs=LANGS, share=.5):
    """statements that give the pathbuilder something to find"""
    doc, inv, eqp = [], {}, {}
    if inverses:
        free = list(v.props)
        rng.shuffle(free)
        while len(free) >= 2 and rng.random() < .4:
            a, b = free.pop(), free.pop()
            inv[a], inv[b] = b, a
            doc.append(R(a, "inv", b))
    alias = {}
    for _ in range(rng.randint(0, identities)):
        x = rng.choice(v.res)
        y = rng.choice([f"{x}a", f"{x}b", rng.choice(v.res)])
        if x != y:
            doc.append(R(*((x, "same", y) if rng.random() < .5 else (y, "same", x))))
            alias.setdefault(x, []).append(y)
    if rng.random() < .2:
        doc.append(R(rng.choice(v.classes), "eqc", rng.choice([rng.choice(v.classes), "Cq"])))
    if rng.random() < .2:
        doc.append(R(rng.choice(v.props + v.dts), "eqp", rng.choice(["pq", "nq"])))

    def al(x):
        return rng.choice([x] + alias.get(x, []))

    def link(a, p, b):
        if p in inv and rng.random() < .4:
            doc.append(R(al(b), inv[p], al(a)))
        else:
            doc.append(R(al(a), p, al(b)))

    def typed(x, c):
        doc.append(R(al(x), "type", c))

    inst = {}  # bundle -> list of node lists

    def grow(nodes, path, k):
        for i in range(k, len(path), 2):
            x = rng.choice(v.res)
            link(nodes[-1], path[i], x)
            if i + 1 < len(path):
                typed(x, path[i + 1])
            nodes = nodes + [x]
        return nodes

    for b, bd in enumerate(pb):
        inst[b] = []
        for _ in range(rng.randint(0 if b else 1, ents)):
            if bd["up"] == 0:
                x = rng.choice(v.res)
                typed(x, bd["path"][0])
                inst[b].append(grow([x], bd["path"], 1))
            elif inst[bd["up"] - 1]:
                base = rng.choice(inst[bd["up"] - 1])
                inst[b].append(grow(base, bd["path"], len(pb[bd["up"] - 1]["path"])))
        for fd in bd["fields"]:
            for nodes in inst[b]:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    ns = grow(nodes, fd["path"], len(bd["path"]))
                    if fd["dt"]:
                        if rng.random() < .9:
                            doc.append(D(al(ns[-1]), fd["dt"], rng.choice(texts), rng.choice(langs)))
                        else:
                            doc.append(R(al(ns[-1]), fd["dt"], rng.choice(v.res)))
    for _ in range(rng.randint(0, noise)):
        r = rng.random()
        if r < .3:
            typed(rng.choice(v.res), rng.choice(v.classes))
        elif r < .7:
            link(rng.choice(v.res), rng.choice(v.props), rng.choice(v.res))
        elif r < .9:
            doc.append(D(rng.choice(v.res), rng.choice(v.dts + v.props), rng.choice(texts), rng.choice(langs)))
        elif doc:
            doc.append(dict(rng.choice(doc)))
    rng.shuffle(doc)
    return doc


def words(scens):
    out = set(g.SPECIAL)
    for s in scens:
        for st in s["doc"]:
            out |= {st["s"], st["p"]} | ({st["o"]} if st["k"] == "r" else set())
        for b in s["pb"]:
            out |= set(b["path"])
            for f in b["fields"]:
                out |= set(f["path"]) | ({f["dt"]} - {""})
        for q in s.get("qs", []):
            out |= set(q)
    return out


def evaluate(c, scens, limit=400):
    """scens: list of dict(doc, pb[, qs]); returns records (with ext for the one pathbuilder), None if outside of the domain"""
    out = [None] * len(scens)
    for at in range(0, len(scens), limit):
        d = c.dir("scen")
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=d)
        with os.fdopen(fd, "w") as f:
            for i, s in enumerate(scens[at:at + limit]):
                # texts mean nothing to the specification
                doc = [dict(st, o="-") if st["k"] == "d" else st for st in s["doc"]]
                f.write(json.dumps(dict(id=at + i, doc=doc, pb=s["pb"], qs=s.get("qs", []), trees=s.get("trees", []))) + "\n")
        r = c.tlc("GraphEval", consts=dict(Lab=words(scens[at:at + limit])), env=dict(SCEN=path))
        for p in r["prints"]:
            if p["proper"]:
                out[p["id"]] = dict(p, doc=scens[p["id"]]["doc"], ext=[p["ext"]] if isinstance(p["ext"], list) else p["ext"], pb=scens[p["id"]]["pb"])
    return out


def make(c, n, vocabulary=None, rename=None, **kw):
    """n scenarios in the domain of the specification: list of (Doc, pb, Bundles);
    rename makes a function renaming labels for each"""
    pk = {k: kw.pop(k) for k in ("tops", "depth", "fields", "kids", "size") if k in kw}
    v = vocabulary or Vocabulary()
    ss = []
    for _ in range(n):
        pb = pathbuilder(c.rng, v, **pk)
        ss.append(dict(pb=pb, doc=document(c.rng, v, pb, **kw)))
    out = []
    for r in evaluate(c, ss):
        if r is not None:
            d = g.Doc(r, rename() if rename else None)
            out.append((d, r["pb"], g.Bundles(d, r["pb"], r["ext"][0])))
    return out
