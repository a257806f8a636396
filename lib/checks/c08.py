"""C08: caching on disk gives the same result as working in memory.

The documents and bundles of spec/IndexMC.tla, extracted with index and bundles on disk (and one
of the two on disk), compared with the specification and with the result in memory."""
import json
import graphlib as g
import rnd
from checks import c06

DISK = dict(via="", engine="disk", store="disk", masked=False)


def norm(e):
    """an entity without the order of its children and without empty lists"""
    return dict(uri=e["uri"], path=e["path"], t=e["t"], fields={k: v for k, v in e["fields"].items() if v},
                children={k: sorted((norm(x) for x in v), key=lambda x: json.dumps(x, sort_keys=True)) for k, v in e["children"].items() if v})


def bundles(o):
    return {b: sorted((norm(e) for e in es), key=lambda x: json.dumps(x, sort_keys=True)) for b, es in o["bundles"].items()}


def run(c):
    defs, recs = c06.documents(c)
    pbs = defs["pbs"]
    recs = c06.interesting(recs)
    order = [dict(r, pbk=k) for r in recs for k in range(len(pbs)) if any(b["ents"] for b in r["ext"][k])]
    c.rng.shuffle(order)
    c.sample(order[0])
    c.cov["documents"] = len(recs)
    alone, many = order[:c.pick(150, 1500)], order[c.pick(150, 1500):c.pick(1200, 20000)]
    mem = c06.MEM
    jobs = [c06.job(c, pbs, [(r, None)], [mem, DISK] + ([dict(DISK, masked=True)] if i % 4 == 0 else [])) for i, r in enumerate(alone)]
    for i in range(0, len(many), 15):
        runs = [mem, DISK] if i % 2 else [mem, dict(mem, store="disk"), dict(mem, engine="disk")]
        jobs.append(c06.job(c, pbs, [(r, k) for k, r in enumerate(many[i:i + 15])], runs, filler=c.rng.choice([0, 0, 250, 300])))
    for i in range(c.pick(2, 12)):
        jobs.append(c06.job(c, pbs, [(r, k) for k, r in enumerate(c.rng.sample(order, 15))], [mem, DISK], filler=65400))
    for r in order[-c.pick(16, 120):]:
        jobs.append(c06.job(c, pbs, [(r, None)], [dict(mem, via="glass"), dict(DISK, via="glass")]))
    c.rng.shuffle(jobs)
    outs = c06.run_jobs(c, pbs, jobs, c06.judge(pbs))
    for (it, ds), os_ in zip(jobs, outs):
        first = os_[0]
        if first.get("err"):
            continue
        for d, _ in ds:
            want = {a: b for a, b in d.can.items() if a != b}
            mentioned = {x for s in d.stmts for x in ((s["s"], s["p"], s["o"]) if s["k"] == "r" else (s["s"], s["p"]))}
            want = {a: b for a, b in want.items() if a in mentioned}
            for r, o in zip(it["runs"], os_):
                if o.get("err"):
                    continue
                got = {a: b for a, b in o["aliases"].items() if (a in mentioned)}
                # classes and properties may be named by several documents; all names of one document are its own
                if got != want:
                    c.violation(f"{r}: aliases {got} instead of {want}", dict(command="extract", item=it, run=r))
        alike(c, it, os_)
    ss, items, outs = rnd.extraction(c, c.pick(100, 2500), lambda i: [mem, DISK] if i % 2 else [mem, dict(mem, store="disk"), dict(mem, engine="disk")])
    for it, os_ in zip(items, outs):
        if not os_[0].get("err"):
            if any(o.get("aliases") != os_[0]["aliases"] for o in os_ if not o.get("err")):
                c.violation("random scenario: different aliases", dict(command="extract", item=it))
            alike(c, it, os_)


def alike(c, it, os_):
    first = os_[0]
    a = bundles(first)
    for r, o in zip(it["runs"][1:], os_[1:]):
        if not o.get("err") and not r["masked"]:
            b = bundles(o)
            if a != b:
                diff = [k for k in a if a[k] != b.get(k)]
                c.violation(f"{r} differs from {it['runs'][0]} in bundles {diff[:5]}: {json.dumps(a[diff[0]])[:300]} / {json.dumps(b.get(diff[0]))[:300]}" if diff else f"{r}: different bundles", dict(command="extract", item=it, run=r))
            if r["via"] == "" and o["stats"] != first["stats"]:
                c.violation(f"{r}: statistics {o['stats']} instead of {first['stats']}", dict(command="extract", item=it, run=r))
