"""C19: progress never runs backwards and every statement is accounted for.

spec/ProgressMC.tla, stages, workers, readers and somebody who closes, satisfies what spec/Progress.tla
demands; spec/IndexMC.tla counts as spec/Accounting.tla demands. The progress of real loads, exports and
imports of random data sets, failing ones among them, is watched by a handler and by several readers all
the time; random operations on the real interface are read concurrently, and it is closed while others
are busy; spec/ProgressTrace.tla explains what has been seen, spec/AccountingTrace.tla the counters."""
import graphlib as g
import rnd
import scen

LOAD = ["pathbuilder", "index/sameas", "index/inverse", "index/triples", "bundles", "sameas", "cache"]
STAGES = dict(create=LOAD, export=["export"], serve=LOAD + ["handler"], index=["index/sameas", "index/inverse", "index/triples"])
STAGES["import"] = ["import"]
RENAME = dict(direct="DirectTriples", datum="DatumTriples", maskedpred="MaskedPredTriples", maskeddata="MaskedDataTriples", inverse="InverseTriples", conflict="ConflictTriples")
BROKEN = "<http://v.example/a> <http://v.example/b> \"never ends .\n"


def operations(rng, n, depth=0):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .5:
            out.append(dict(op="set", cur=rng.randint(0, 9), total=rng.choice([0, 9])))
        elif k < .65:
            out.append(dict(op="start", stage=rng.choice(["one", "two", "three"])))
        elif k < .72:
            out.append(dict(op="end"))
        elif k < .8:
            out.append(dict(op="store", n=rng.randint(1, 99)))
        elif k < .83:
            out.append(dict(op="close"))
        elif depth < 2:
            out.append(dict(op="do", stage=rng.choice(["four", "five"]), fail=rng.random() < .3, ops=operations(rng, rng.randint(0, 6), depth + 1)))
    return out


def flatten(ops, closed=None):
    """the operations in the order in which they take effect"""
    closed = closed if closed is not None else [False]
    out = []
    full = lambda **k: dict(dict(op="nothing", stage="", cur=0, total=0, n=0), **k)
    for o in ops:
        if o["op"] == "do":
            was = closed[0]
            out.append(full(op="start", stage=o["stage"]))
            out += flatten(o["ops"], closed)
            out.append(full(op="nothing" if was else "finish"))
        else:
            closed[0] = closed[0] or o["op"] == "close"
            out.append(full(**o))
    return out


def run(c):
    c.tlc("ProgressMC", consts=dict(Workers=c.pick("{1, 2}", "{1, 2, 3}"), Units=c.pick(3, 5), Stages=c.pick(2, 3)))
    for k in ("Counted", "Recheck", "CloseLocks"):
        if c.tlc("ProgressMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"ProgressMC does not need {k}")
        c.specs.pop()
    c.tlc("IndexMC", cfg="IndexAccount", consts=dict(Base="typed", Mode="up", MaxLen=c.pick(2, 3)))
    c.tlc("IndexMC", cfg="IndexAccount", consts=dict(Base="rich", Mode="any", MinLen=4, MaxLen=12), simulate=(c.pick(300, 5000), 90))

    traces, where, counters = [], [], []
    # loads
    ss = rnd.scenarios(c, c.pick(100, 1200))
    items = []
    for k, (d, pb, bs) in enumerate(ss):
        fault = c.rng.choice(["pb", "nopb", "nonq", "export", "import", "nq"]) if c.rng.random() < .2 else ""
        items.append(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), pollers=c.rng.choice([0, 1, 2, 3]), fault=fault, nq=BROKEN if fault == "nq" else "", cache=c.rng.random() < .15, inverse=c.rng.random() < .8))
    items.append(dict(doc=[], pb=[], pollers=1, fault="", nq="", cache=False, inverse=True))
    ss.append(None)
    seen = 0
    for race in (False, True):
        sel = range(len(items)) if not race else range(0, len(items), c.pick(6, 3))
        for k, runs in zip(sel, c.drive("progress", [items[k] for k in sel], parallel=24, grain=2, race=race, env=dict(GOMAXPROCS="3"))):
            it, cs = items[k], []
            for r in runs:
                what = dict(command="progress", item=it, race=race, run=r["what"])
                failed = r["err"] != ""
                if failed and not it["fault"]:
                    c.violation(f"{r['what']}: {r['err']}", what)
                seen += sum(map(len, r["observers"]))
                traces.append(dict(kind="load", stages=STAGES[r["what"]], failed=failed, closed=r["what"] == "serve", finally_=None, observers=r["observers"], snaps=r["snaps"], all=r["all"], later=r["later"]))
                traces[-1]["finally"] = r["end"]
                del traces[-1]["finally_"]
                where.append(what)
                if r["what"] in ("create", "serve", "index") and not failed:
                    cs.append(dict({a: r["stats"][b] for a, b in RENAME.items()}, masked=r["what"] != "index", useinv=it["inverse"]))
            if cs and ss[k]:
                counters.append((k, cs))
    # operations
    n = c.pick(240, 3000)
    apis = []
    for j in range(n):
        ops = operations(c.rng, c.rng.randint(5, 30))
        if c.rng.random() < .3:
            ops.append(dict(op="close"))
            ops += operations(c.rng, 6)
        apis.append(dict(ops=ops, readers=c.rng.choice([1, 2, 4]), quiet=c.rng.random() < .5, seed=c.rng.randrange(1 << 30)))
    reads = 0
    for race in (False, True):
        sel = apis if not race else apis[::c.pick(6, 3)]
        for it, o in zip(sel, c.drive("statsapi", sel, parallel=24, grain=2, race=race, env=dict(GOMAXPROCS="4"))):
            ops = flatten(it["ops"])
            for s in o:
                reads += len(s)
            traces.append(dict(kind="api", ops=ops, seen=o))
            where.append(dict(command="statsapi", item=it, race=race))
    # closing
    closes = [dict(workers=c.rng.choice([2, 4, 8]), quiet=c.rng.random() < .2, seed=c.rng.randrange(1 << 30)) for _ in range(c.pick(150, 1500))]
    for race in (False, True):
        sel = closes if not race else closes[::5]
        for it, o in zip(sel, c.drive("statsapi", sel, parallel=12, grain=2, race=race, env=dict(GOMAXPROCS="4"))):
            traces.append(dict(kind="closed", seen=o))
            where.append(dict(command="statsapi", item=it, race=race))
    for r in c.races()[:3]:
        c.violation("data race: " + r[:1500], dict(race=r))
    rejected, _ = c.validate("ProgressTrace", traces)
    for i in rejected:
        c.violation(f"{where[i]['command']} {where[i].get('run', '')}: what has been seen is not explained: {str({k: v for k, v in traces[i].items() if k not in ('observers', 'snaps', 'seen')})[:500]}", dict(where[i], trace=traces[i]))
    c.sample({k: v for k, v in traces[0].items() if k != "snaps"})
    c.cov.update(loads=sum(t["kind"] == "load" for t in traces), observations=seen, reads=reads, closings=len(closes))
    # counters
    acc = []
    for k, cs in counters:
        d, pb, bs = ss[k]
        acc.append(dict(doc=[dict(s, o="-") if s["k"] == "d" else s for s in d.stmts], pb=pb, counters=cs))
    lab = scen.words([dict(doc=ss[k][0].stmts, pb=ss[k][1]) for k, _ in counters])
    rejected, _ = c.validate("AccountingTrace", acc, consts=dict(Lab=lab))
    for i in rejected:
        k, cs = counters[i]
        c.violation(f"statements are not accounted for: {cs}", dict(command="progress", item=items[k], counters=cs))
    c.cov["counters"] = sum(len(cs) for _, cs in counters)
    c.sample(dict(counters=acc[0]["counters"]))
