"""C09: a failing storage or source is always reported, never silently ignored.

spec/LifecyclePipe.tla is checked for all single and double failures.  On the code, every
operation of the index storages, the source, the bundle storages and the exporter is made to
fail, one (or two) per run; the outcomes must satisfy spec/LifecycleTrace.tla, with the result
of the specification deciding whether a success is complete."""
import life


def run(c):
    for m in c.pick((1, 2), (1, 2, 3)):
        c.tlc("LifecyclePipe", consts=dict(MaxFaults=m, NStorages=c.pick(3, 8)))
    ss = life.scenarios(c, c.pick(6, 60))
    clean, jobs = [], []
    for i, cfg in enumerate(life.CONFIGS):
        disk = cfg.get("engine") == "disk"
        cl, js = life.plan(c, ss if not disk else ss[:c.pick(2, 20)], [cfg], c.pick(60 if disk else 160, None))
        clean += cl
        jobs += js
    # failures that come in pairs
    for s, it, o in clean:
        for _ in range(c.pick(10, 200)):
            if it["engine"] == "mem":
                jobs.append((s, dict(it, fail=sorted(c.rng.sample(range(o["ops"]), 2)))))
    # the text of the statements can be read only up to some byte, the first, second or third time
    for s in ss:
        size = sum(len(str(x)) for x in s[0].stmts)
        for _ in range(c.pick(40, 600)):
            jobs.append((s, life.item(s, text=True, cut=c.rng.randint(1, size), **{"pass": c.rng.randint(1, 3)}, cause=c.rng.randrange(10), masked=c.rng.random() < .3)))
        jobs.append((s, life.item(s, text=True)))
    runs = clean + life.execute(c, jobs)
    traces, live = [], []
    for s, it, o in runs:
        if o["hang"]:
            c.violation(f"a run with failing operation {it['fail']} does not end", dict(command="life", item=it))
            continue
        ev, bad = life.trace(s, it, o)
        traces.append([e for e in ev if e["how"] == "fail" or e["e"] == "return"])
        live.append((s, it, o, bad))
    rejected, _ = c.validate("LifecycleTrace", traces, consts=dict(Check="errors"))
    for i in rejected:
        s, it, o, bad = live[i]
        what = [e for e in o["events"] if e["how"] == "fail"][:2]
        c.violation(f"failure of {[(e['r'], e['op']) for e in what]}: " + (f"error {o['err']!r} without a failure" if o["err"] else f"success with an incomplete result: {bad[:1]}"),
                    dict(command="life", item=it, problems=bad[:5], failed=what, err=o["err"]))
    c.cov["failed_and_reported"] = sum(1 for _, it, o, _ in live if it["fail"] and o["err"])
    c.cov["failed_without_effect"] = sum(1 for _, it, o, _ in live if it["fail"] and not o["err"])
    if live:
        c.sample(dict(fail=live[-1][1]["fail"], trace=traces[-1]))
    c.assumptions.append("an operation fails by returning an error, either instead of taking effect or after it")
