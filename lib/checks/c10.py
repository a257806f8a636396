"""C10: every opened resource is closed and never used afterwards.

The runs of C09, judged by what happens to the resources: every trace of opens, uses and closes
must be explained by the contract of spec/Lifecycle.tla, which spec/LifecyclePipe.tla refines."""
import life


def run(c):
    for m in c.pick((1, 2), (1, 2, 3)):
        c.tlc("LifecyclePipe", consts=dict(MaxFaults=m, NStorages=c.pick(3, 8)))
    ss = life.scenarios(c, c.pick(5, 60))
    clean, jobs = [], []
    for i, cfg in enumerate(life.CONFIGS):
        disk = cfg.get("engine") == "disk"
        cl, js = life.plan(c, ss if not disk else ss[:c.pick(2, 20)], [cfg], c.pick(45 if disk else 80, None))
        clean += cl
        jobs += js
    jobs = [(s, dict(it, linger=c.rng.choice([0, 0, 300, 1000]))) for s, it in jobs]
    runs = clean + life.execute(c, jobs)
    traces, live = [], []
    for s, it, o in runs:
        if o["hang"]:
            continue  # C09
        if o["leaks"]:
            c.violation(f"files left open after failure of operation {it['fail']}: {o['leaks'][:3]}", dict(command="life", item=it, leaks=o["leaks"]))
        ev, bad = life.trace(s, it, o)
        traces.append(life.compress(ev))
        live.append((s, it, o))
    # iterators that are abandoned when what they read from is closed
    items = []
    for k in range(c.pick(60, 600)):
        n = c.rng.randint(2, 9)
        doc = [dict(s=f"e{i}", p="p", k="r", o=f"f{c.rng.randint(0, n)}", l="") for i in range(n)] + [dict(s=f"e{i}", p="type", k="r", o="C", l="") for i in range(n)]
        q = c.rng.randint(1, 3)
        items.append(dict(doc=doc, disk=c.rng.random() < .5, start=["type", "C"], edges=["p"] * c.rng.randint(0, 1), take=[c.rng.randint(0, n) for _ in range(q)],
                          close=[c.rng.random() < .6 for _ in range(q)], linger=c.rng.choice([0, 300, 1500])))
    for it, outs in zip(items, c.drive("abandon", items, parallel=8, grain=4)):
        for o in outs:
            it2 = dict(fail=["abandoned iterators"])
            if o["hang"] or o["err"]:
                c.violation(f"closing with abandoned iterators: {'hangs' if o['hang'] else o['err']}", dict(command="abandon", item=it))
            if o["leaks"]:
                c.violation(f"files left open by abandoned iterators: {o['leaks'][:3]}", dict(command="abandon", item=it, leaks=o["leaks"]))
            traces.append(life.compress(o["events"]))
            live.append((None, dict(it, **it2), o))
    rejected, r = c.validate("LifecycleTrace", traces, consts=dict(Check="resources"))
    for i in rejected:
        s, it, o = live[i]
        if s is None:
            c.violation("an abandoned iterator uses what it reads from after that has been closed", dict(command="abandon", item=it, trace=traces[i]))
            continue
        what = [e for e in o["events"] if e["how"] == "fail"][:2]
        opened = {e["r"] for e in o["events"] if e["e"] == "open" and e["how"] == "ok"} - {e["r"] for e in o["events"] if e["e"] == "close"}
        c.violation(f"failure of {[(e['r'], e['op']) for e in what]}: " + (f"never closed: {sorted(opened)}" if opened else "a resource is used after it has been closed, or closed too late"),
                    dict(command="life", item=it, trace=traces[i]))
    if traces:
        c.sample(dict(fail=live[0][1]["fail"], trace=traces[0][:40]))
    c.cov["events"] = sum(len(t) for t in traces)
    c.assumptions.append("an operation fails by returning an error, either instead of taking effect or after it")
