"""Exports and imports (C11, C12)."""
import graphlib as g
import scen
import site_ as st

TEXTS = scen.TEXTS + ["\u0000", "\ufffe", "\\", "\u2028", "x" * 5000, "</xml>", "]]>", "\x7f\x80"]
EMPTY = [dict(doc=[], pb=[]), dict(doc=[], pb=[dict(id="b1", path=["C"], fields=[], children=[])]),
         dict(doc=[dict(k="r", s="x1", p="same", o="x2")], pb=[]),
         dict(doc=[dict(k="r", s="x1", p="type", o="C")], pb=[dict(id="b1", path=["C"], fields=[], children=[])]),
         dict(doc=[dict(k="r", s="x1", p="type", o="C"), dict(k="r", s="x2", p="same", o="x1"), dict(k="r", s="x3", p="same", o="x2"), dict(k="r", s="x9", p="same", o="x8")], pb=[dict(id="b1", path=["C"], fields=[dict(id="f", path=["C"], dt="p")], children=[])]),
         dict(doc=[dict(k="d", s="x1", p="p", o="", lang=""), dict(k="r", s="x1", p="type", o="C")], pb=[dict(id="b1", path=["C"], fields=[dict(id="f", path=["C"], dt="p")], children=[]), dict(id="b2", path=["D"], fields=[], children=[dict(id="c", path=["D", "q", "E"], fields=[], children=[])])])]
PUBLIC = ["", "https://pub.example", "http://pub.example/a, https://b.example\n", "not an address \u00e4", " "]
TIPSY = ["", "https://tipsy.example/", "javascript:x"]


def labels(it):
    out = {"http://nowhere.example/"}
    for s in it["doc"]:
        out |= {s["s"], s["p"]} | ({s["o"]} if s["k"] == "r" else set())
    return sorted(x for x in out if x not in g.SPECIAL and x not in ("type", "same", "eqc", "eqp", "inv"))


def flags(rng, it):
    it.update(public=rng.choice(PUBLIC), tipsy=rng.choice(TIPSY), strict=rng.random() < .5, html=rng.random() < .5, images=rng.random() < .5)
    return it


def items(c, n, **kw):
    out = []
    for d, pb, bs in scen.make(c, n, rename=st.odd(c.rng, share=.4), tops=3, size=6, depth=3, identities=5, texts=TEXTS, **kw):
        out.append(flags(c.rng, dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), cache=c.rng.random() < .2)))
    for e in EMPTY:
        out.append(flags(c.rng, dict(e)))
    for it in out:
        it["labels"] = labels(it)
    return out
