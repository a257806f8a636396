"""C15: paging through a bundle visits every entity exactly once.

spec/PagingMC.tla, the pages as the server computes them, refines the contract spec/Paging.tla.
The real viewer is crawled for many sizes of bundles and pages; all walks along next links, and
every link of every page, must be explained by the contract."""
import json
import site_ as st


def run(c):
    c.tlc("PagingMC", consts=dict(MaxTotal=c.pick(9, 16), MaxLimit=c.pick(6, 17)))
    jobs = []
    totals = list(range(0, c.pick(9, 14))) + c.rng.sample(range(9, 60), c.pick(3, 20)) + [99, 100, 101, 200, 201] + c.rng.sample(range(150, 420), c.pick(1, 10))
    for n in totals:
        ask = [None]
        lims = range(1, n + 3) if n < 9 else sorted(set(c.rng.sample(range(1, n + 3), c.pick(3, 12)) + [1 if n < 60 else 7, n - 1, n, n + 1]))
        ask += [(l, 0) for l in lims]
        # links from outside may start anywhere
        ask += [(c.rng.choice(lims), c.rng.randrange(0, n)) for _ in range(3) if n]
        if n > 90:
            ask.append((1000, 0))
        jobs.append((n, ask))
    items = []
    for n, ask in jobs:
        name = c.rng.choice(["b1", "b1", "b 1", "b&1", "b%1", "b\u00e41"])
        items.append(dict(name=name, doc=[st.R(f"e{i}", "type", "C1") for i in range(n)], pb=[st.bundle(name, ["C1"])], ask=[dict(limit=a[0], skip=a[1]) if a else dict(limit=0, skip=0) for a in ask], imports=c.rng.choice([0, 0, 1])))
    traces, where = [], []
    for it, o in zip(items, c.drive("pages", items, parallel=8, grain=2)):
        replay = dict(command="pages", item=dict(it, doc=f"{len(it['doc'])} entities"))
        if o["err"]:
            c.violation(f"bundle of {len(it['doc'])}: {o['err']}", replay)
            continue
        pos = {u: i + 1 for i, u in enumerate(o["listing"])}
        if len(pos) != len(it["doc"]) or len(o["listing"]) != len(it["doc"]):
            c.violation(f"the listing has {len(o['listing'])} entries instead of {len(it['doc'])}", replay)
            continue
        for walk in o["walks"]:
            ev = []
            for s in walk:
                p = s["page"]
                if p is None:
                    ev = None
                    break
                q = dict(p, items=[pos.get(u, 0) for u in p["items"]])
                ev.append(dict(op=s["op"], page=q))
            if ev is None:
                c.violation(f"bundle of {len(it['doc'])}: following {walk[-1]['op']} leads to {walk[-1]['url']}, which answers with {walk[-1]['status']}", dict(replay, walk=[(s["op"], s["url"]) for s in walk]))
                continue
            traces.append(dict(n=len(it["doc"]), ev=ev))
            where.append((replay, [(s["op"], s["url"]) for s in walk]))
    c.cov["code_runs"] = sum(len(t["ev"]) for t in traces)
    c.cov["walks"] = len(traces)
    rejected, r = c.validate("PagingTrace", traces)
    for i in rejected:
        c.violation(f"bundle of {traces[i]['n']}: {where[i][1]} shows {json.dumps(traces[i]['ev'][-1]['page'])[:400]}", dict(where[i][0], walk=where[i][1], trace=traces[i]))
    c.sample(dict(total=traces[-1]["n"], walk=where[-1][1]))
    c.assumptions.append("identifiers of bundles that WissKI makes, and some with spaces, &, % and non-ASCII letters, but no ?, # or escapes")
    c.assumptions.append("limits the server accepts (1 to 1000); others fall back to the default of 100")
