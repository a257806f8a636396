"""C02: path queries return exactly the paths the source statements support.

spec/IndexMC.tla (machine) and spec/Graph.tla (meaning): every document over a pool of 30
statements within the bounds, with the answers to 16 queries, replayed on both engines, alone
and many at once."""
import graphlib as g
import rnd


def documents(c):
    runs = [
        (dict(Base="none", Mode="up", MaxLen=c.pick(3, 4), MinLen=1), None),
        (dict(Base="typed", Mode="up", MaxLen=c.pick(3, 4), MinLen=1), None),
        (dict(Base="rich", Mode="down", MaxLen=c.pick(2, 3), MinLen=1), None),
        (dict(Base="typed", Mode="any", MaxLen=2, MinLen=1), None),
        (dict(Base="none", Mode="any", MaxLen=12, MinLen=6), (c.pick(500, 10000), 70)),
        (dict(Base="rich", Mode="any", MaxLen=9, MinLen=4), (c.pick(500, 10000), 70)),
    ]
    return g.documents(c, runs, "queries")


def plan(c, recs):
    """(engine, filler, via, compact, list of (record, rename index))"""
    jobs = []
    alone = c.rng.sample(recs, min(len(recs), c.pick(1200, 12000)))
    for i, r in enumerate(alone):
        jobs.append(("mem", 0, "nq" if i % 5 == 0 else "", 0 if i % 7 else 2, [(r, None)]))
    for r in c.rng.sample(recs, min(len(recs), c.pick(60, 1500))):
        jobs.append(("disk", 0, "", c.rng.choice([0, 0, 0, 3]), [(r, None)]))

    def batches(engine, size, via, filler=0, limit=None):
        order = list(recs)
        c.rng.shuffle(order)
        order = order[:limit]
        for i in range(0, len(order), size):
            jobs.append((engine, filler, via, -1 if engine == "disk" or i % 3 == 0 else 0, [(r, k) for k, r in enumerate(order[i:i + size])]))
    batches("mem", c.pick(60, 40), "")
    batches("disk", 80, "", limit=c.pick(2400, None))
    batches("disk", 30, "nq", filler=200, limit=c.pick(240, 3000))
    batches("mem", 50, "", filler=65350, limit=c.pick(50, 1000))
    batches("disk", 60, "", filler=65300, limit=c.pick(30, 600))
    c.rng.shuffle(jobs)
    return jobs


def interleave(c, docs):
    """one document out of many, keeping the order of each"""
    order = [k for k, d in enumerate(docs) for _ in d.stmts]
    c.rng.shuffle(order)
    pos = [0] * len(docs)
    out = []
    for k in order:
        out.append(docs[k].stmts[pos[k]])
        pos[k] += 1
    return out


def execute(c, defs, recs, judge):
    jobs = plan(c, recs)
    items, docs = [], []
    for engine, filler, via, compact, rs in jobs:
        ds = [g.Doc(r, k) for r, k in rs]
        docs.append(ds)
        if compact < 0:  # about three times per scan
            compact = (filler + sum(len(d.stmts) for d in ds)) // 3
        items.append(dict(engine=engine, filler=filler, via=via, compact=compact, doc=interleave(c, ds), queries=[d.q(q) for d in ds for q in defs["queries"]]))
    outs = c.drive("query", items, parallel=8)
    nq = len(defs["queries"])
    n = 0
    for it, ds, o in zip(items, docs, outs):
        n += len(ds)
        bad = [o["err"]] if o.get("err") else []
        ids = {}
        if not bad:
            for j, d in enumerate(ds):
                for i, q in enumerate(defs["queries"]):
                    b = judge(d, d.q(q), d.rec["ans"][i], o["ans"][j * nq + i], ids)
                    bad += b
        if bad:
            small = it if len(it["doc"]) < 400 else dict(it, doc=it["doc"][:400], note="document shortened")
            c.violation(f"{it['engine']} engine, {len(ds)} documents, filler {it['filler']}: {bad[:3]}", dict(command="query", item=small, problems=bad[:20]))
    c.cov["traces_validated_against_impl"] += n
    c.cov["code_runs"] = len(items)


def judge(d, q, want, got, ids):
    return g.check_answer(d, q, want, got, ids)


def only_paths(d, q, want, got, ids):
    return [b for b in g.check_answer(d, q, want, got, ids) if "triple" not in b and "fact" not in b]


def run(c):
    defs, recs = documents(c)
    c.sample(recs[len(recs) // 2])
    c.cov["documents"] = len(recs)
    c.cov["documents_with_answers"] = sum(1 for r in recs if any(r["ans"]))
    execute(c, defs, recs, only_paths)
    rnd.queries(c, c.pick(400, 12000), only_paths)
