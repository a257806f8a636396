"""C16: tables contain every entity, value and child exactly once.

spec/TablesMC.tla, batches and inserts of a limited size, refines the contract spec/Tables.tla. Random data
sets, their contents decided by spec/GraphEval.tla, are exported by the real code into databases, in all
layouts, sizes of batches and limits, once or repeatedly; spec/TablesTrace.tla compares all tables."""
import graphlib as g
import rnd
import tables_

TEXTS = ["", "a", "a,b", ",", "x'y", "\"", "ä\n", "a", "b", "NULL", "?", "; DROP TABLE bundle__b1; --", "\\", "%s", " ", "\t", "0", "1e5", "http://v.example/x1", "x\u0001y", "😀"]


def columns(bs, joined):
    """the largest number of columns of a table"""
    return max([1 + (bs.pb[b]["up"] > 0) + (len(bs.pb[b]["fields"]) if joined else 0) for b in range(len(bs.pb))] + ([] if joined else [3]))


def runs_of(c, bs):
    out = []
    for _ in range(c.pick(4, 8)):
        joined = c.rng.random() < .5
        cols = columns(bs, joined)
        out.append(dict(batch=c.rng.choice([1, 2, 3, 5, 1000]), vars=c.rng.choice([cols, cols + 1, 2 * cols, 2 * cols + 1, 32766, max(1, cols - 1)]), fields=not joined, sep=c.rng.choice([",", "", "; ", "a", "\n", "'", "\""]),
                        times=c.rng.choice([1, 1, 2, 3]), before=None, other=c.rng.random() < .2, store=c.rng.choice(["", "", "disk"]), keep=c.rng.random() < .4))
    return out


def run(c):
    c.tlc("TablesMC", consts=dict(N=c.pick(2, 3)))
    for k in ("Rest", "Once", "Drop"):
        if c.tlc("TablesMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"TablesMC does not need {k}")
        c.specs.pop()
    ss = rnd.scenarios(c, c.pick(180, 3000), texts=TEXTS)
    items = []
    for k, (d, pb, bs) in enumerate(ss):
        rs = runs_of(c, bs)
        if k % 3 == 0:
            rs[0]["before"] = ss[(k * 7 + 1) % len(ss)][0].stmts
        items.append(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), runs=rs))
    refused = exports = 0
    traces, where = [], []
    for race in (False, True):
        sel = range(len(ss)) if not race else range(0, len(ss), c.pick(8, 3))
        for k, outs in zip(sel, c.drive("tables", [items[k] for k in sel], parallel=8, grain=5, race=race)):
            d, pb, bs = ss[k]
            for r, o in zip(items[k]["runs"], outs):
                what = dict(command="tables", item=dict(items[k], runs=[r]), race=race)
                exports += 1
                if o.get("err"):
                    if r["vars"] < columns(bs, not r["fields"]) or (r["other"] and r["vars"] < columns(bs, r["fields"])):
                        refused += 1
                        continue  # can't be done
                    c.violation(f"exporting {r}: {o['err']}", what)
                    continue
                words = tables_.Words()
                t, bad = tables_.decode(bs, o["tables"], words, not r["fields"], r["sep"])
                if bad:
                    c.violation(f"exporting {r}: {bad}", what)
                    continue
                traces.append(t)
                where.append(dict(what, words=words.n, tables=o["tables"]))
    for r in c.races():
        c.violation(f"data race: {r[:600]}", dict(race=r))
    c.cov["exports"], c.cov["refused_for_variables"] = exports, refused
    rejected, r = c.validate("TablesTrace", traces)
    for i in rejected:
        c.violation(f"exporting {where[i]['item']['runs'][0]}: tables {str(where[i]['tables'])[:400]}", dict(where[i], trace=traces[i]))
    c.sample(dict(run=items[0]["runs"][0], trace=traces[0]))
    c.assumptions.append("databases are written by SQLite; there is none else to test with")
