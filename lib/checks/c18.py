"""C18: RDF downloads contain exactly the entity's facts.

Random data sets with odd names, texts and languages are served by the real viewer. Both downloads
of every entity, read by a reader of our own, are compared with the facts that spec/Graph.tla (Facts,
evaluated by spec/GraphEval.tla) derives from the document for the entity and its nested entities."""
from collections import Counter
from urllib.parse import quote
import graphlib as g
import rdf_
import scen
import site_ as st

TEXTS = scen.TEXTS + ["", "\u0000", "\b\f\u007f\u0085\u2028", "\\", "\\n", "\\u0041", "\"\"\"", "'''", "'", "ends with \\", "ends with \"", "\" .\n<a> <b> <c> .", "<http://v.example/x1>", "\ufeff", "\ufffe", "@", "^^<x>", "a\r\nb", ".", ";", "  "]
LANGS = ["", "", "en", "de", "en-GB", "zh-Hant-TW", "sl-rozaj-biske-1994", "EN", "x-private", "de-1996"]


def tree(bs, e, b, inv):
    """bundle and path of an entity and everything nested in it"""
    out = [dict(b=b + 1, path=[inv.get(x, x) for x in e["path"]])]
    for c in bs.children(b):
        for ce in e["children"].get(bs.name(c)) or []:
            out += tree(bs, ce, c, inv)
    return out


def run(c):
    ss = scen.make(c, c.pick(300, 3000), rename=st.odd(c.rng, share=.5), tops=3, size=6, depth=3, texts=TEXTS, langs=LANGS, identities=3)
    items, tops = [], []
    for d, pb, bs in ss:
        top = [(b, u) for b in range(len(pb)) if pb[b]["up"] == 0 for u in bs.uris(b)]
        alias = {}
        for a, x in d.can.items():
            alias.setdefault(x, []).append(a)
        asks = [(b, u, f"/api/v1/{k}/{bs.name(b)}?uri=" + quote(g.uri(c.rng.choice([u] + alias.get(u, [])) if c.rng.random() < .2 else u), safe="")) for b, u in top for k in ("ntriples", "turtle")]
        items.append(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), get=[a[2] for a in asks], imports=c.rng.choice([0, 0, 1]), cache=c.rng.random() < .1))
        tops.append(asks)
    outs = c.drive("site", items, parallel=8, grain=10)
    evals, where = [], []
    for (d, pb, bs), it, o in zip(ss, items, outs):
        replay = dict(command="site", item=it)
        if o.get("err"):
            c.violation(f"site: {o['err']}", replay)
            continue
        inv = {d.f(x): x for x in scen.words([dict(doc=d.rec["doc"], pb=pb)])}
        trees, keys = [], []
        for b in range(len(pb)):
            if pb[b]["up"] == 0:
                for e in o["bundles"][bs.name(b)]:
                    t = tree(bs, e, b, inv)
                    if any(tuple(d.f(x) for x in n["path"]) not in bs.ents[n["b"] - 1] for n in t):
                        c.violation(f"entity {e['uri']} has a path that is none", replay)
                        continue
                    trees.append(t)
                    keys.append((b, e["uri"]))
        evals.append(dict(doc=d.rec["doc"], pb=pb, trees=trees))
        where.append((d, bs, it, keys, o))
    recs = scen.evaluate(c, evals)
    n = 0
    for rec, (d, bs, it, keys, o) in zip(recs, where):
        facts = {}
        for k, fs in zip(keys, rec["facts"]):
            w = Counter()
            for s, p, x in fs:
                w[(g.uri(d.f(s)), g.uri(d.f(p)), d.lit(x) if x.startswith("#") else g.uri(d.f(x)))] += 1
            facts[k] = w
        for (b, u, url), chain in zip(tops[items.index(it)], o["answers"]):
            a = chain[-1]
            replay = dict(command="site", item=dict(it, get=[url]))
            if (b, u) not in facts:
                continue
            n += 1
            want = facts[(b, u)]
            kind = "turtle" if "/turtle/" in url else "ntriples"
            if a.get("panic") or a["status"] != 200 or a["ctype"] != ("text/turtle" if kind == "turtle" else "application/n-triples"):
                c.violation(f"{url} answers {a['status']} {a['ctype']} {a.get('panic', '')}", replay)
                continue
            try:
                got = Counter(getattr(rdf_, kind)(a.get("body", "")))
            except rdf_.Bad as e:
                c.violation(f"{kind} of {u} can't be read: {e}", dict(replay, body=a.get("body", "")))
                continue
            miss = [k for k in want if k not in got]
            more = [k for k in got if k not in want or got[k] > want[k]]
            if miss or more:
                c.violation(f"{kind} of {u}: missing {miss[:3]} unexpected {more[:3]}", dict(replay, body=a.get("body", ""), want=[list(map(str, k)) for k in want]))
    c.cov["code_runs"] = c.cov["traces_validated_against_impl"] = n
    c.cov["data_sets"] = len(ss)
    c.cov["facts"] = sum(len(f) for r in recs for f in r["facts"])
    c.sample(dict(url=items[0]["get"][:1], body=outs[0]["answers"][0][0].get("body", "")[:400]))
    c.assumptions.append("resources are named by absolute IRIs; equal texts stated twice may be written once or twice")
