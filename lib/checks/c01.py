"""C01: declared identities form exactly the right classes with a canonical member.

spec/Identity.tla: TLC enumerates every history over 3 (thorough: 4) resources, checks the
classes against connectivity, and emits each history with all answers; they are replayed on
both engines, alone and as many renamed copies interleaved in one table (so that identities
cross the 1- and 2-byte boundaries).  Longer random histories over 8 resources are recorded
from the code and validated against IdentityTrace.tla."""


def rename(x, k):
    return x if x in ("-", "") else f"n{k}/{x}"


def run(c):
    labs = ["a", "b", "c"]
    r = c.tlc("Identity", consts=dict(Lab=set(labs), MaxOps=c.pick(4, 5), WithFin=False))
    hists = [p["scenario"] for p in r["prints"]]
    r = c.tlc("Identity", consts=dict(Lab={"a", "b"}, MaxOps=c.pick(4, 5), WithFin=True))
    fins = [p["scenario"] for p in r["prints"]]
    if c.thorough:
        r = c.tlc("Identity", consts=dict(Lab={"a", "b", "c", "d"}, MaxOps=4, WithFin=False))
        hists += [p["scenario"] for p in r["prints"]]
    c.sample(hists[len(hists) // 2])

    # 1. every history alone
    def alone(hs, engine):
        items = [dict(engine=engine, ops=[{k: s[k] for k in ("op", "x", "y")} for s in h], labels=sorted(h[0]["table"]), every=True) for h in hs]
        out = c.drive("identity", items, parallel=8)
        c.cov["traces_validated_against_impl"] += len(out)
        for h, it, o in zip(hs, items, out):
            want = [dict(ret=s["ret"], table=s["table"]) for s in h]
            got = [dict(ret=s["ret"], table=s["table"]) for s in o["res"]]
            al = {k: v for k, v in h[-1]["table"].items() if v not in ("-", k)}
            if want != got or o["aliases"] != al or o["bad"]:
                c.violation(f"history on {engine} engine: want {want} aliases {al}, got {got} aliases {o['aliases']} {o['bad']}", dict(command="identity", item=it, want=want))

    alone(hists, "mem")
    alone(fins, "mem")
    alone(c.rng.sample(hists, c.pick(300, 3000)), "disk")
    alone(c.rng.sample(fins, min(len(fins), c.pick(100, 1000))), "disk")

    # 2. many histories at once in one table
    items, wants = [], []
    for engine, filler, n in c.pick(
        [("mem", 0, 100), ("mem", 0, 300), ("mem", 240, 40), ("mem", 65500, 30), ("disk", 0, 100), ("disk", 240, 30), ("disk", 65500, 12)],
        [("mem", 0, 100)] * 4 + [("mem", 0, 600), ("mem", 200, 60), ("mem", 65400, 60), ("mem", 1 << 17, 30)] + [("disk", 0, 100)] * 2 + [("disk", 240, 40), ("disk", 65450, 30)]):
        hs = c.rng.sample(hists, n)
        queue = [(k, s) for k, h in enumerate(hs) for s in h]
        # random interleaving which keeps the order of every history
        order = [k for k, h in enumerate(hs) for _ in h]
        c.rng.shuffle(order)
        pos = [0] * n
        ops, rets = [], []
        for k in order:
            s = hs[k][pos[k]]
            pos[k] += 1
            ops.append(dict(op=s["op"], x=rename(s["x"], k), y=rename(s["y"], k)))
            rets.append(rename(s["ret"], k))
            if c.rng.random() < 0.2:
                ops.append(dict(op="fresh", x="-", y="-"))
                rets.append("new")
        table = {rename(a, k): rename(b, k) for k, h in enumerate(hs) for a, b in h[-1]["table"].items()}
        items.append(dict(engine=engine, filler=filler, ops=ops, labels=sorted(table), check=True))
        wants.append((rets, table))
    for it, (rets, table), o in zip(items, wants, c.drive("identity", items, parallel=8)):
        c.cov["traces_validated_against_impl"] += 1
        got = [s["ret"] for s in o["res"]]
        diff = [(i, a, b) for i, (a, b) in enumerate(zip(rets, got)) if a != b] + [(k, table[k], o["table"].get(k)) for k in table if table[k] != o["table"].get(k)]
        al = {k: v for k, v in table.items() if v not in ("-", k)}
        if al != o["aliases"]:
            diff.append(("aliases", sorted(set(al.items()) ^ set(o["aliases"].items()))[:10]))
        if diff or o["bad"]:
            c.violation(f"{len(table)} resources on {it['engine']} engine after {it['filler']} others: (where, want, got) {diff[:5]} {o['bad'][:3]}", dict(command="identity", item=it))

    # 3. random long histories, recorded from the code, checked by TLC
    labs = list("abcdefgh")
    items = []
    for i in range(c.pick(200, 2000)):
        ops = []
        pool = labs[: c.rng.randint(2, 8)]
        for _ in range(c.rng.randint(5, c.pick(40, 80))):
            x = c.rng.random()
            if x < 0.2:
                ops.append(dict(op="add", x=c.rng.choice(pool), y="-"))
            elif x < 0.9:
                ops.append(dict(op="mark", x=c.rng.choice(pool), y=c.rng.choice(pool)))
            elif x < 0.97:
                ops.append(dict(op="fresh", x="-", y="-"))
            else:
                ops.append(dict(op="compact", x="-", y="-"))
        if c.rng.random() < 0.5:
            tail = [dict(op="fin", x="-", y="-")]
            for _ in range(4):
                tail.append(dict(op=c.rng.choice(["mark", "add", "fin"]), x=c.rng.choice(pool), y=c.rng.choice(pool)))
            ops += tail
        items.append(dict(engine="disk" if i % 4 == 0 else "mem", ops=ops, labels=labs, every=True))
    out = c.drive("identity", items, parallel=8)
    traces = [o["res"] for o in out]
    bad, r = c.validate("IdentityTrace", traces)
    for i in bad:
        c.violation(f"recorded history is not a behaviour of Identity: {traces[i]}", dict(command="identity", item=items[i]))
    for it, o in zip(items, out):
        if o["bad"]:
            c.violation(f"{o['bad']}", dict(command="identity", item=it))
    c.assumptions += ["names are compared through Forward/Get/Reverse/IdentityMap, the exported interface of the table"]
