"""C06: extracted bundles contain exactly the entities, values and children described.

Documents of spec/IndexMC.tla with the bundles spec/Graph.tla says three pathbuilders have
(nested to depth three, shared and cyclic entities, aliases, inverses), extracted by the code."""
import graphlib as g
import rnd
from checks import c02


def documents(c):
    runs = [
        (dict(Base="typed", Mode="up", MaxLen=c.pick(3, 4), MinLen=1), None),
        (dict(Base="rich", Mode="up", MaxLen=c.pick(2, 3), MinLen=1), None),
        (dict(Base="none", Mode="any", MaxLen=12, MinLen=6), (c.pick(200, 6000), 70)),
        (dict(Base="rich", Mode="any", MaxLen=12, MinLen=4), (c.pick(400, 12000), 80)),
    ]
    return g.documents(c, runs, "bundles")


def interesting(recs):
    """documents in which some pathbuilder finds something"""
    return [r for r in recs if any(b["ents"] for e in r["ext"] for b in e)]


def job(c, pbs, rs, runs, filler=0):
    """one run of the code: several documents, each with all pathbuilders, in one index"""
    ds, trees = [], []
    for j, (r, k) in enumerate(rs):
        d = g.Doc(r, k)
        x = r["pbk"] if "pbk" in r else c.rng.randrange(len(pbs))
        ds.append((d, x))
        trees += g.pb_tree(pbs[x], d.f, g.prefix(k))
    item = dict(filler=filler, doc=c02.interleave(c, [d for d, _ in ds]), pb=trees, runs=runs)
    return item, ds


def run_jobs(c, pbs, jobs, judge):
    outs = c.drive("extract", [i for i, _ in jobs], parallel=8, grain=10)
    for (it, ds), os_ in zip(jobs, outs):
        for r, o in zip(it["runs"], os_):
            bad = judge(it, ds, r, o)
            if bad:
                small = it if len(it["doc"]) < 300 else dict(it, doc=it["doc"][:300], note="document shortened")
                c.violation(f"{r}, {len(ds)} documents: {bad[:3]}", dict(command="extract", item=small, run=r, problems=bad[:20]))
        if len(ds) == 1 and len(os_) > 1:
            pass
    c.cov["traces_validated_against_impl"] += sum(len(ds) * len(it["runs"]) for it, ds in jobs)
    c.cov["code_runs"] = c.cov.get("code_runs", 0) + sum(len(it["runs"]) for it, _ in jobs)
    return outs


def judge(pbs):
    def f(it, ds, r, o):
        if o.get("err"):
            return [o["err"]]
        bad, ids = [], {}
        for d, x in ds:
            bad += g.check_bundles(g.Bundles(d, pbs[x], d.rec["ext"][x]), o["bundles"], ids, triples=r["via"] != "glass")
        return bad
    return f


MEM = dict(via="", engine="mem", store="mem", masked=False)


def run(c):
    defs, recs = documents(c)
    c.cov["documents"] = len(recs)
    recs = interesting(recs)
    c.cov["documents_with_entities"] = len(recs)
    c.sample(recs[len(recs) // 2])
    pbs = defs["pbs"]
    jobs = []
    for i, r in enumerate(c.rng.sample(recs, min(len(recs), c.pick(600, 15000)))):
        jobs.append(job(c, pbs, [(r, None)], [MEM]))
    order = [dict(r, pbk=k) for r in recs for k in range(len(pbs))]
    c.rng.shuffle(order)
    order = order[:c.pick(6000, None)]
    for i in range(0, len(order), 40):
        jobs.append(job(c, pbs, [(r, k) for k, r in enumerate(order[i:i + 40])], [MEM], filler=c.rng.choice([0, 0, 0, 300])))
    for r in c.rng.sample(recs, min(len(recs), c.pick(40, 400))):
        jobs.append(job(c, pbs, [(r, None)], [dict(MEM, via="glass")]))
    c.rng.shuffle(jobs)
    run_jobs(c, pbs, jobs, judge(pbs))
    rnd.extraction(c, c.pick(300, 12000), lambda i: [MEM, dict(MEM, via="glass")] if i % 6 == 0 else [MEM])
