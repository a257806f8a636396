"""C04: literal values keep their text, language and multiplicity.

Documents of spec/IndexMC.tla; their three texts and two languages are replaced by others
(empty, with quotes, line breaks, escapes, non-ASCII, equal to names of resources, or made
equal to each other) and read from an nquads file, in which they are written in several ways."""
import graphlib as g
from checks import c02

TEXTS = ["", " ", "a", '"', "\\", "\\n", "line\nbreak", "cr\r\nlf", "\ttab", "äöüß", "日本語", "😀 emoji", "e\u0301", "'single'", "http://v.example/x", "x", "<b>bold</b>", "&amp;",
         "^^", '"@en', "_:b0", "0", "00", "1.0", "true", "#", "# comment", "@de", "a" * 3000, "trailing ", " leading", "\u00a0", "\u200b", "\u0001", "%20", "{}", "<http://v.example/y>", ".", "\\u0041", "null"]
LANGS = ["en", "de", "en-US", "zh-Hans-CN", "x-klingon", "de-1996"]


def nqtext(s, how):
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t" and how != 1:
            out.append("\\t")
        elif how == 2 and o > 126 or o < 32:
            out.append(f"\\u{o:04X}" if o < 0x10000 else f"\\U{o:08X}")
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


NS = "http://v.example/"
FULL = {"type": "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "same": "http://www.w3.org/2002/07/owl#sameAs", "eqc": "http://www.w3.org/2002/07/owl#equivalentClass",
        "eqp": "http://www.w3.org/2002/07/owl#equivalentProperty", "inv": "http://www.w3.org/2002/07/owl#inverseOf"}


def uri(x):
    return "<" + FULL.get(x, NS + x) + ">"


def nq(stmts, rng, graphs=True):
    lines = []
    for s in stmts:
        o = uri(s["o"]) if s["k"] == "r" else nqtext(s["o"], rng.randrange(3)) + ("@" + s["l"] if s["l"] else "")
        tail = " <http://v.example/graph> ." if graphs and rng.random() < 0.2 else " ."
        lines.append(f"{uri(s['s'])} {uri(s['p'])} {o}{tail}")
    return "\n".join(lines) + "\n"


def run(c):
    runs = [
        (dict(Base="rich", Mode="up", MaxLen=c.pick(2, 3), MinLen=1), None),
        (dict(Base="typed", Mode="up", MaxLen=c.pick(2, 4), MinLen=1), None),
        (dict(Base="rich", Mode="any", MaxLen=10, MinLen=4), (c.pick(300, 6000), 70)),
    ]
    defs, recs = g.documents(c, runs, "queries")
    recs = [r for r in recs if any(n[-1].startswith("#") for a in r["ans"] for n in a)]
    c.sample(recs[len(recs) // 2])
    c.cov["documents_with_literal_answers"] = len(recs)
    c.rng.shuffle(recs)
    jobs, size = [], 12
    combos = [(t, u) for t in TEXTS for u in TEXTS]
    c.rng.shuffle(combos)
    items, docs = [], []
    used = set()
    for i in range(0, len(recs), size):
        ds = []
        for k, r in enumerate(recs[i:i + size]):
            d = g.Doc(r, k)
            t, u = combos[(i + k) % len(combos)]
            v = c.rng.choice(TEXTS)
            sub = {"1": t, "2": u, "x": v}
            la = c.rng.sample(LANGS, 2)
            lng = {"": "", "en": la[0], "de": la[1]}
            for s in d.stmts:
                if s["k"] == "d":
                    s["o"], s["l"] = sub[s["o"]], lng[s["l"]]
                    used.add((s["o"], s["l"]))
            ds.append(d)
        docs.append(ds)
        eng = "disk" if (i // size) % 4 == 0 else "mem"
        items.append(dict(engine=eng, doc=[], nq=nq(c02.interleave(c, ds), c.rng), queries=[d.q(q) for d in ds for q in defs["queries"]], filler=c.rng.choice([0, 0, 250])))
    outs = c.drive("query", items, parallel=8)
    nq_ = len(defs["queries"])
    for it, ds, o in zip(items, docs, outs):
        bad = [o["err"]] if o.get("err") else []
        ids = {}
        if not bad:
            for j, d in enumerate(ds):
                for i, q in enumerate(defs["queries"]):
                    bad += g.check_answer(d, d.q(q), d.rec["ans"][i], o["ans"][j * nq_ + i], ids)
        if bad:
            c.violation(f"{it['engine']} engine: {bad[:3]}", dict(command="query", item=it, problems=bad[:20]))
    c.cov["traces_validated_against_impl"] += len(recs)
    c.cov["texts"] = len(TEXTS)
    c.cov["distinct_text_language_pairs"] = len(used)
    c.assumptions.append("typed literals (\"5\"^^xsd:int) are outside the property: the reader renders their native value")
