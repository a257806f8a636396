"""Random scenarios of many shapes, decided by spec/GraphEval.tla, for the checks of the data pipeline."""
import graphlib as g
import scen

BIG = dict(res=12, classes=5, props=6, dts=3)
SHAPES = [
    dict(tops=2, depth=3, fields=2, kids=2, size=6, ents=3, noise=6),
    dict(tops=2, depth=3, fields=0, kids=2, size=6, ents=3, noise=4),          # bundles without any fields
    dict(tops=1, depth=2, fields=1, kids=5, size=9, ents=4, noise=4),          # wide
    dict(tops=1, depth=6, fields=1, kids=1, size=7, ents=2, noise=3),          # deep
    dict(tops=3, depth=1, fields=4, kids=0, size=4, ents=4, noise=8),          # flat
    dict(tops=1, depth=3, fields=2, kids=2, size=5, ents=3, noise=3, identities=6),
]


def scenarios(c, n, shapes=None, **kw):
    shapes = shapes or SHAPES
    out = []
    for i, sh in enumerate(shapes):
        k = n // len(shapes) + (i < n % len(shapes))
        if k:
            v = scen.Vocabulary(**(BIG if c.rng.random() < .5 else {}))
            out += scen.make(c, k, v, **dict(sh, **kw))
    c.cov["random_scenarios"] = c.cov.get("random_scenarios", 0) + len(out)
    return out


def extraction(c, n, runs, problems=None, race=False, scens=None, grain=5):
    """extracts n random scenarios in each of the ways in runs, and compares with the specification"""
    ss = scens or scenarios(c, n)
    items = [dict(filler=0, doc=d.stmts, pb=g.pb_tree(pb, d.f), runs=[dict(r) for r in (runs(i) if callable(runs) else runs)]) for i, (d, pb, bs) in enumerate(ss)]
    outs = c.drive("extract", items, parallel=8, grain=grain, race=race)
    for (d, pb, bs), it, os_ in zip(ss, items, outs):
        for r, o in zip(it["runs"], os_):
            if o.get("err"):
                bad = [o["err"]]
            else:
                bad = g.check_bundles(bs, o["bundles"], {}, triples=r["via"] != "glass") + (problems(d, pb, bs, r, o) if problems else [])
            if bad:
                c.violation(f"random scenario, {r}: {bad[:3]}", dict(command="extract", item=it, run=r, problems=bad[:20]))
    c.cov["traces_validated_against_impl"] += len(ss)
    c.cov["code_runs"] = c.cov.get("code_runs", 0) + sum(len(it["runs"]) for it in items)
    return ss, items, outs


def queries(c, n, judge=g.check_answer, per=8):
    """asks random queries of random documents on both engines"""
    ss = []
    for i in range(n):
        sh = {k: v for k, v in c.rng.choice(SHAPES).items()}
        pk = {k: sh.pop(k) for k in ("tops", "depth", "fields", "kids", "size")}
        v = scen.Vocabulary(**(BIG if c.rng.random() < .5 else {}))
        pb = scen.pathbuilder(c.rng, v, **pk)
        doc = scen.document(c.rng, v, pb, **sh)
        pool = [list(b["path"]) for b in pb] + [list(f["path"]) + ([f["dt"]] if f["dt"] else []) for b in pb for f in b["fields"]]
        qs = c.rng.sample(pool, min(len(pool), per))
        while len(qs) < per:
            q = [c.rng.choice(v.classes)]
            for _ in range(c.rng.randint(0, 4)):
                q.append(c.rng.choice(v.props if len(q) % 2 or c.rng.random() < .9 else v.props) if len(q) % 2 else c.rng.choice(v.classes))
            if len(q) % 2 and c.rng.random() < .4:
                q.append(c.rng.choice(v.dts + v.props))
            qs.append(q)
        ss.append(dict(pb=pb, doc=doc, qs=qs))
    recs = [r for r in scen.evaluate(c, ss) if r is not None]
    items, docs = [], []
    for i, r in enumerate(recs):
        d = g.Doc(r)
        qs = ss[r["id"]]["qs"]
        docs.append((d, qs))
        items.append(dict(engine="disk" if i % 8 == 0 else "mem", filler=0, via="nq" if i % 5 == 0 else "", compact=c.rng.choice([0, 0, 3]), doc=d.stmts, queries=[d.q(q) for q in qs]))
    outs = c.drive("query", items, parallel=8)
    for (d, qs), it, o in zip(docs, items, outs):
        bad = [o["err"]] if o.get("err") else []
        ids = {}
        if not bad:
            for i, q in enumerate(qs):
                bad += judge(d, d.q(q), d.rec["ans"][i], o["ans"][i], ids)
        if bad:
            c.violation(f"random document, {it['engine']} engine: {bad[:3]}", dict(command="query", item=it, problems=bad[:20]))
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["random_queries"] = c.cov.get("random_queries", 0) + sum(len(q) for _, q in docs)
