"""C21: a finished index is immutable and can be queried concurrently.

spec/FinishedMC.tla, queries that are answered by stages running at the same time, refines the contract
spec/Finished.tla, and always comes to its end. Random histories are carried out with the real index,
on both engines: everything around finalization, queries taking turns, and everything at the same time
(with and without the race detector). What queries should return is decided by spec/GraphEval.tla, the
histories by spec/FinishedTrace.tla."""
import json
from collections import Counter
import graphlib as g
import rnd
import scen


def ops_of(c, d):
    """the operations that make the index of a document, and others"""
    st = d.stmts
    ops = [dict(k="same", s=s["s"], p="", o=s["o"], l="") for s in st if s["k"] == "r" and s["p"] in ("same", "eqc", "eqp")]
    ops += [dict(k="inv", s=s["s"], p="", o=s["o"], l="") for s in st if s["k"] == "r" and s["p"] == "inv"]
    ops += st
    for _ in range(c.rng.randint(0, 3)):
        ops.insert(c.rng.randint(0, len(ops)), dict(k="compact", s="", p="", o="", l=""))
    return ops


def changes(c, d, qs):
    """operations that would change answers"""
    res = [x for x in d.can] or ["x1"]
    st = d.stmts
    x = lambda: d.f(c.rng.choice(res)) if c.rng.random() < .8 else "new"
    out = []
    for _ in range(c.rng.randint(4, 12)):
        q = c.rng.choice(qs)
        r = c.rng.random()
        if r < .3:
            out.append(dict(k="r", s=x(), p="type", o=q[0], l=""))
        elif r < .5:
            out.append(dict(k="r", s=x(), p=q[1] if len(q) > 1 else "type", o=x(), l=""))
        elif r < .65:
            out.append(dict(k="d", s=x(), p=q[-1] if len(q) % 2 == 0 else "p1", o="changed", l=c.rng.choice(["", "de"])))
        elif r < .8:
            out.append(dict(k="same", s=x(), p="", o=x(), l=""))
        elif r < .88:
            out.append(dict(k="inv", s=q[1] if len(q) > 1 else "p1", p="", o="p2", l=""))
        elif r < .94:
            out.append(dict(k="compact", s="", p="", o="", l=""))
        elif st:
            out.append(c.rng.choice(st))
    out.insert(c.rng.randint(0, len(out)), dict(k="fin", s="", p="", o="", l=""))
    return out


def run(c):
    c.tlc("FinishedMC", consts=dict(MaxChanges=c.pick(2, 6)))
    for k in ("Refuse", "Private", "Cancel"):
        if c.tlc("FinishedMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"FinishedMC does not need {k}")
        c.specs.pop()
    ss = []
    for i in range(c.pick(160, 3000)):
        sh = dict(c.rng.choice(rnd.SHAPES))
        pk = {k: sh.pop(k) for k in ("tops", "depth", "fields", "kids", "size")}
        v = scen.Vocabulary(**(rnd.BIG if c.rng.random() < .5 else {}))
        pb = scen.pathbuilder(c.rng, v, **pk)
        doc = scen.document(c.rng, v, pb, **sh)
        pool = [list(b["path"]) for b in pb] + [list(f["path"]) + ([f["dt"]] if f["dt"] else []) for b in pb for f in b["fields"]]
        ss.append(dict(pb=pb, doc=doc, qs=c.rng.sample(pool, min(len(pool), 5))))
    docs, items = [], []
    fin, query = dict(k="fin", s="", p="", o="", l=""), dict(k="query", s="", p="", o="", l="")
    for r in scen.evaluate(c, ss):
        if r is None:
            continue
        d, qs = g.Doc(r), [d_ for d_ in ss[r["id"]]["qs"]]
        q = [d.q(x) for x in qs]
        ops = ops_of(c, d) + [fin, query] + changes(c, d, q) + [query]
        slots = [c.rng.randrange(len(q)) for _ in range(c.rng.randint(2, 6))]
        turns = [c.rng.randrange(len(slots)) for _ in range(c.rng.randint(4, 60))]
        turns = [-t - 1 if c.rng.random() < .07 else t for t in turns]
        # let some of the slots come to their end
        if c.rng.random() < .6:
            turns += sum(([s] * 40 for s in range(len(slots))), []) if c.rng.random() < .5 else [s for _ in range(40) for s in range(len(slots))]
        docs.append((d, qs))
        items.append(dict(engine="disk" if len(docs) % 4 == 0 else "mem", ops=ops, queries=q, slots=slots, turns=turns, hammer=c.rng.choice([2, 4, 8]), rounds=c.pick(3, 10), seed=c.rng.randrange(1 << 30)))
    c.cov["histories"] = len(items)
    for race in (False, True):
        part = slice(None) if not race or c.thorough else slice(0, None, 2)
        sub, dd = items[part], docs[part]
        outs = c.drive("finished", sub, parallel=8, grain=5, race=race)
        traces = []
        for (d, qs), it, o in zip(dd, sub, outs):
            if o.get("err"):
                c.violation(f"closing an index: {o['err']}", dict(command="finished", item=it))
            answers = [[json.loads(p) for p in json.loads(a)] for a in o["answers"]]
            counts = [Counter(json.loads(a)) for a in o["answers"]]
            # asked alone, right after finalizing
            alone, i = [], next((i for i, e in enumerate(o["events"]) if e["k"] == "fin" and e["r"] == "ok"), None)
            ends = [e for e in o["events"][i + 1:] if e["k"] == "end"][:len(qs)] if i is not None else []
            ids = {}
            for k, e in enumerate(ends):
                bad = [e["r"]] if e["r"] != "ok" else g.check_answer(d, d.q(qs[k]), d.rec["ans"][k], answers[e["ans"]], ids)
                if bad:
                    c.violation(f"{it['engine']}: {d.q(qs[k])} asked alone: {bad[:2]}", dict(command="finished", item=it, problems=bad[:20]))
                alone.append(e["ans"])
            parts = [[k, a] for k, w in enumerate(alone) for a in range(len(answers)) if counts[a] <= counts[w]]
            traces.append(dict(alone=alone, parts=parts, events=o["events"]))
        if race:
            for r in c.races():
                c.violation(f"data race: {r[:600]}", dict(race=r))
        c.cov["events"] = c.cov.get("events", 0) + sum(len(t["events"]) for t in traces)
        rejected, r = c.validate("FinishedTrace", traces)
        for i in rejected:
            t = traces[i]
            # the first event that is not as it should be
            phase, what = "open", None
            for n, e in enumerate(t["events"]):
                if e["k"] == "end":
                    ok = e["r"] == "ok" and (e["ans"] == t["alone"][e["q"]] if e["all"] else [e["q"], e["ans"]] in t["parts"])
                elif e["k"] == "begin":
                    ok = True
                else:
                    ok = e["r"] == ("ok" if phase == "open" else "refused")
                    phase = "final" if e["k"] == "fin" and e["r"] == "ok" else phase
                if not ok:
                    what = (n, e)
                    break
            c.violation(f"{sub[i]['engine']}: event {what}, alone: {t['alone']}", dict(command="finished", item=sub[i], trace=t))
        if not race:
            c.sample(dict(events=traces[1]["events"][:60]))
