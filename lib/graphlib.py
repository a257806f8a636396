"""Running the documents emitted by IndexMC against the code, and comparing."""
from collections import Counter

SPECIAL = {"type", "same", "eqc", "eqp", "inv"}


def documents(c, runs, emit):
    """runs IndexMC in several configurations, returns (definitions, records)"""
    recs, defs, seen = [], None, set()
    for consts, sim in runs:
        r = c.tlc("IndexMC", consts=dict(consts, Emit=emit), simulate=sim)
        for p in r["prints"]:
            if "queries" in p:
                defs = p
                continue
            key = repr(p["doc"])
            if key not in seen:
                seen.add(key)
                recs.append(p)
    recs.sort(key=lambda r: repr(r["doc"]))  # TLC prints them in any order
    return defs, recs


def renamer(k):
    if k is None:
        return lambda x: x
    if callable(k):
        return lambda x: x if x in SPECIAL or x in ("", "-") or x.startswith("#") else k(x)
    return lambda x: x if x in SPECIAL or x in ("", "-") or x.startswith("#") else f"n{k}/{x}"


class Doc:
    """one emitted document under a renaming"""

    def __init__(self, rec, k=None):
        f = renamer(k)
        self.rec, self.k, self.f = rec, k, f
        self.stmts = [dict(k=s["k"], s=f(s["s"]), p=f(s["p"]), o=f(s["o"]) if s["k"] == "r" else s["o"], l=s["l"]) for s in rec["doc"]]
        can = rec["can"] if isinstance(rec["can"], dict) else {}
        self.can = {f(a): f(b) for a, b in can.items()}
        self.edges = {tuple(map(f, e["e"])): e for e in rec["edges"]}

    def canon(self, x):
        return self.can.get(x, x)

    def q(self, q):
        return [self.f(x) for x in q]

    def lit(self, n):
        s = self.stmts[int(n[1:]) - 1]
        return (s["o"], s["l"])

    def edge_key(self, s, p, n):
        """what an edge looks like from outside: literals are their text and language"""
        return (s, p, ("lit",) + self.lit(n)) if n.startswith("#") else (s, p, n)

    def triples_of(self, nodes, q):
        """the edges a match of q along nodes consists of"""
        out = [(nodes[0], self.canon("type"), self.canon(q[0]))]
        for i in range(1, len(q)):
            j = (i + 1) // 2
            if i % 2:
                out.append(self.edge_key(nodes[j - 1], self.canon(q[i]), nodes[j]))
            else:
                out.append((nodes[j], self.canon("type"), self.canon(q[i])))
        return out

    def sources(self, key):
        """statements that may be named as the source of an edge, and its role"""
        s, p, o = key
        if isinstance(o, tuple):
            st = [i for i, x in enumerate(self.stmts) if x["k"] == "d" and (x["o"], x["l"]) == o[1:] and (s, p, f"#{i+1}") in self.edges]
            return 2, st
        e = self.edges.get(key)
        if e is None:
            return None, []
        if e["st"]:
            return 0, [i - 1 for i in e["st"]]
        return 1, [i - 1 for i in e["inf"]]


def triple_key(t):
    if t["r"] == 2 or t.get("d") is not None:
        return (t["c"][0], t["c"][1], ("lit", t.get("d", ""), t.get("lang", "")))
    return tuple(t["c"])


def check_triples(doc, triples, want, ids, where):
    """checks reported triples against the edges they should be; returns problems.
    ids: edge -> id and id -> edge, filled across calls"""
    bad = []
    got = Counter(triple_key(t) for t in triples)
    if got != Counter(want):
        bad.append(f"{where}: triples {sorted(map(str, got.elements()))} instead of {sorted(map(str, want))}")
        return bad
    for t in triples:
        k = triple_key(t)
        role, src = doc.sources(k)
        if t["r"] != role or t.get("i", False) != (role == 1):
            bad.append(f"{where}: triple {k} has role {t['r']} inferred={t.get('i', False)} instead of {role}")
        lits = {(doc.stmts[i]["s"], doc.stmts[i]["p"], doc.stmts[i]["o"] if doc.stmts[i]["k"] == "r" else "") for i in src}
        if tuple(t["l"]) not in lits:
            bad.append(f"{where}: triple {k} names the statement {t['l']}, not one of {lits}")
        if isinstance(k[2], tuple):
            k = (k, "lit", t["id"])  # literals: every id its own fact
        if ids.setdefault(("k", k), t["id"]) != t["id"]:
            bad.append(f"{where}: fact {k} is reported as triple {t['id']} and as {ids[('k', k)]}")
        if ids.setdefault(("i", t["id"]), k) != k:
            bad.append(f"{where}: triple {t['id']} stands for {k} and {ids[('i', t['id'])]}")
    return bad


def check_answer(doc, q, want, got, ids):
    """compares the answer of one query; q and want are renamed/canonical node sequences"""
    bad = []
    if got is None:
        return ["no answer"]
    want = [[doc.f(n) for n in ns] for ns in want]

    def view(ns):
        if ns[-1].startswith("#"):
            return (tuple(ns[:-1]), doc.lit(ns[-1]))
        return (tuple(ns), None)
    W = Counter(view(ns) for ns in want)
    G = Counter((tuple(p["n"]), (p["d"], p.get("lang", "")) if p.get("d") is not None else None) for p in got)
    if W != G:
        bad.append(f"query {q}: missing {list((W - G).elements())[:4]} unexpected {list((G - W).elements())[:4]}")
        return bad
    edges = [doc.canon(q[i]) for i in range(1, len(q), 2)]
    litids = Counter()
    for p in got:
        if p["e"] != edges:
            bad.append(f"query {q}: edges {p['e']} instead of {edges}")
        ns = list(p["n"])
        lit = p.get("d") is not None
        # rebuild the expected triples from nodes (literal represented by one of its statements)
        if lit:
            cand = [n for n in want if n[:-1] == [x for x in ns] and n[-1].startswith("#") and doc.lit(n[-1]) == (p["d"], p.get("lang", ""))]
            ns = cand[0]
        bad += check_triples(doc, p["t"], doc.triples_of(ns, q), ids, f"query {q} path {ns}")
        if lit:
            litids[(tuple(p["n"]), [t["id"] for t in p["t"] if t["r"] == 2][0] if any(t["r"] == 2 for t in p["t"]) else None)] += 1
    if any(v > 1 for v in litids.values()):
        bad.append(f"query {q}: one literal statement reported twice")
    return bad


def check_stats(doc_list, stats, filler=0):
    """unmasked statistics add up"""
    want = Counter()
    for d in doc_list:
        want.update(d.rec["cnt"])
    got = dict(direct=stats["DirectTriples"] - filler, datum=stats["DatumTriples"], inverse=stats["InverseTriples"], conflict=stats["ConflictTriples"])
    w = {k: want.get(k, 0) for k in got}
    if got != w or stats["MaskedPredTriples"] or stats["MaskedDataTriples"]:
        return [f"statistics {stats} instead of {w} (+{filler} direct)"]
    return []


# ---------------------------------------------------------------- bundles
NS = "http://v.example/"
URI = {"type": "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "same": "http://www.w3.org/2002/07/owl#sameAs", "eqc": "http://www.w3.org/2002/07/owl#equivalentClass",
       "eqp": "http://www.w3.org/2002/07/owl#equivalentProperty", "inv": "http://www.w3.org/2002/07/owl#inverseOf"}


def uri(l):
    return l if "://" in l else URI.get(l, NS + l)


def pb_tree(pb, f, pre="", weight=0):
    """the pathbuilder of the specification as a tree for the driver"""
    def node(i):
        b = pb[i]
        return dict(id=pre + b["id"], path=[f(x) for x in b["path"]],
                    fields=[dict(id=pre + x["id"], path=[f(y) for y in x["path"]], dt=f(x["dt"]), weight=j) for j, x in enumerate(b["fields"])],
                    children=[node(j) for j in range(len(pb)) if pb[j]["up"] == i + 1])
    return [node(i) for i in range(len(pb)) if pb[i]["up"] == 0]


def prefix(k):
    return "" if k is None or callable(k) else f"n{k}_"


class Bundles:
    """what the bundles of one pathbuilder contain, according to the specification"""

    def __init__(self, doc, pb, ext):
        self.doc, self.pb, self.ext = doc, pb, ext
        self.pre = prefix(doc.k)
        f = doc.f
        self.ents = [[tuple(map(f, n)) for n in e["ents"]] for e in ext]
        self.fields = [[[tuple(map(f, n)) for n in ms] for ms in e["fields"]] for e in ext]
        self.kids = [[tuple(map(f, n)) for n in e["kids"]] for e in ext]

    def at(self, b):
        return 0 if self.pb[b]["up"] == 0 else len(self.pb[b]["path"]) // 2

    def name(self, b):
        return self.pre + self.pb[b]["id"]

    def field(self, b, i):
        return self.pre + self.pb[b]["fields"][i]["id"]

    def uris(self, b):
        return sorted({n[self.at(b)] for n in self.ents[b]})

    def children(self, b):
        return [c for c in range(len(self.pb)) if self.pb[c]["up"] == b + 1]

    def values(self, b, i, u):
        """(text, language, path) of every value of a field"""
        out = Counter()
        for n in self.fields[b][i]:
            if n[self.at(b)] == u:
                if n[-1].startswith("#"):
                    t, l = self.doc.lit(n[-1])
                    out[(t, l, n[:-1])] += 1
                else:
                    out[(uri(n[-1]), "", n)] += 1
        return out

    def shape(self, b, u):
        """entity as a comparable value, as it should be"""
        return (u, frozenset((self.field(b, i), frozenset((self.values(b, i, u)).items())) for i in range(len(self.pb[b]["fields"])) if self.values(b, i, u)),
                frozenset((self.name(c), frozenset(Counter(self.shape(c, n) for n in {k[1] for k in self.kids[c] if k[0] == u}).items())) for c in self.children(b) if any(k[0] == u for k in self.kids[c])))

    def want(self):
        """bundle -> Counter of shapes"""
        return {self.name(b): Counter(self.shape(b, u) for u in self.uris(b)) for b in range(len(self.pb)) if self.pb[b]["up"] == 0}

    # -- triples
    def check_triples(self, b, e, ids, where):
        q = self.doc.q(self.pb[b]["path"])
        bad = []
        n = tuple(e["path"])
        if n not in self.ents[b] or n[self.at(b)] != e["uri"]:
            return [f"{where}: {n} is not a path of entity {e['uri']}"]
        bad += check_triples(self.doc, e["t"], self.doc.triples_of(n, q), ids, where)
        for i, fd in enumerate(self.pb[b]["fields"]):
            fq = self.doc.q(fd["path"] + ([fd["dt"]] if fd["dt"] else []))
            seen = Counter()
            for v in e["fields"].get(self.field(b, i)) or []:
                n = tuple(v["path"])
                cand = [m for m in self.fields[b][i] if (m[:-1] == n and m[-1].startswith("#") and self.doc.lit(m[-1]) == (v["v"], v.get("lang", ""))) or (m == n and not m[-1].startswith("#") and uri(m[-1]) == v["v"])]
                if not cand:
                    return bad + [f"{where}: unexpected value {v['v']!r} of {fd['id']}"]
                bad += check_triples(self.doc, v["t"], self.doc.triples_of(cand[0], fq), ids, f"{where} field {fd['id']}")
                if cand[0][-1].startswith("#"):
                    seen[(n, tuple(t["id"] for t in v["t"] if t["r"] == 2))] += 1
            if any(x > 1 for x in seen.values()):
                bad.append(f"{where}: one statement yields two values of {fd['id']}")
        for c in self.children(b):
            for ce in e["children"].get(self.name(c)) or []:
                bad += self.check_triples(c, ce, ids, where + "/" + ce["uri"])
        return bad


def shape(e):
    """entity as reported by the driver, as a comparable value"""
    return (e["uri"], frozenset((f, frozenset(Counter((v["v"], v.get("lang", ""), tuple(v["path"])) for v in vs).items())) for f, vs in e["fields"].items() if vs),
            frozenset((b, frozenset(Counter(shape(c) for c in cs).items())) for b, cs in e["children"].items() if cs))


def check_bundles(bs, bundles, ids, triples=True):
    """compares extracted bundles with those of the specification"""
    bad = []
    for name, want in bs.want().items():
        if name not in bundles:
            bad.append(f"bundle {name} is missing")
            continue
        got = Counter(shape(e) for e in bundles[name])
        if got != want:
            bad.append(f"bundle {name}: missing {short(want - got)} unexpected {short(got - want)}")
    if triples and not bad:
        for b in range(len(bs.pb)):
            if bs.pb[b]["up"] == 0:
                for e in bundles[bs.name(b)]:
                    bad += bs.check_triples(b, e, ids, e["uri"])
    return bad


def show(s):
    u, fs, cs = s
    out = u
    if fs:
        out += "{" + "; ".join(f"{f}: " + ",".join(f"{v[0]!r}@{v[1]} {'/'.join(v[2])}x{n}" for v, n in vs) for f, vs in sorted(fs)) + "}"
    if cs:
        out += "[" + "; ".join(f"{b}: " + ", ".join(f"{show(x)}x{n}" for x, n in xs) for b, xs in sorted(cs, key=lambda x: x[0])) + "]"
    return out


def short(c):
    return [show(x) + f" x{n}" for x, n in list(c.items())[:2]]
