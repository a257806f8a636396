"""C03: every reported triple points back to a genuine source statement.

spec/IndexMC.tla labels every edge of the index with a statement and a role (invariant
LabelRight); all triples of all answers of the code are compared against the statements the
specification allows for their edge, and one edge must be one triple everywhere."""
import graphlib as g
import rnd
from checks import c02
from checks.c06 import MEM


def run(c):
    runs = [
        (dict(Base="rich", Mode="up", MaxLen=c.pick(2, 3), MinLen=1), None),
        (dict(Base="rich", Mode="down", MaxLen=c.pick(2, 3), MinLen=1), None),
        (dict(Base="typed", Mode="down", MaxLen=3, MinLen=1), None),
        (dict(Base="rich", Mode="any", MaxLen=10, MinLen=3), (c.pick(400, 10000), 70)),
    ]
    defs, recs = g.documents(c, runs, "queries")
    c.sample(recs[len(recs) // 2])
    c.cov["documents"] = len(recs)
    c.cov["edges_both_stated_and_inferred"] = sum(1 for r in recs for e in r["edges"] if e["st"] and e["inf"])
    c.cov["edges_with_several_sources"] = sum(1 for r in recs for e in r["edges"] if len(e["st"]) + len(e["inf"]) > 1)
    c02.execute(c, defs, recs, c02.judge)
    rnd.queries(c, c.pick(250, 6000))
    rnd.extraction(c, c.pick(120, 3000), lambda i: [MEM, dict(MEM, engine="disk", store="disk")] if i % 5 == 0 else [MEM, dict(MEM, masked=True)])
