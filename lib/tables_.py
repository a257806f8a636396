"""Tables of exports, in terms of spec/Tables.tla"""
import graphlib as g


class Words:
    def __init__(self):
        self.n = {}

    def __call__(self, text):
        return self.n.setdefault(text, f"t{len(self.n)}")


def data(bs, words):
    """a data set, as meant by the specification"""
    out = []
    for b in range(len(bs.pb)):
        fields = []
        for i in range(len(bs.pb[b]["fields"])):
            vs = []
            for u in sorted({n[bs.at(b)] for n in bs.fields[b][i]} & set(bs.uris(b))):
                for (t, l, path), n in bs.values(b, i, u).items():
                    vs += [dict(of=g.uri(u), v=dict(text=words(t), lang=l))] * n
            fields.append(vs)
        out.append(dict(up=bs.pb[b]["up"], ents=[g.uri(u) for u in bs.uris(b)], fields=fields, kids=sorted({(g.uri(k[0]), g.uri(k[1])) for k in bs.kids[b]})))
    return out


def split(cell, texts, sep):
    """the texts that are joined in a cell, if there is a way to see it like that"""
    if cell is None or (cell == "" and not texts):
        return []
    def go(rest, left):
        if len(left) == 1:
            return [left[0]] if rest == left[0] else None
        for k in range(len(left)):
            if left[k] in left[:k]:
                continue
            if rest.startswith(left[k] + sep):
                more = go(rest[len(left[k]) + len(sep):], left[:k] + left[k + 1:])
                if more is not None:
                    return [left[k]] + more
        return None
    got = go(cell, texts) if texts else None
    return ["cell: " + cell] if got is None else got


def decode(bs, tables, words, joined, sep):
    """a trace for spec/TablesTrace.tla, or what is wrong with the tables as such"""
    ds = data(bs, words)
    back = {v: k for k, v in words.n.items()}
    text = lambda b, f, u: sorted(back[v["v"]["text"]] for v in ds[b]["fields"][f] if v["of"] == u)
    bundles, fields = [], []
    for b in range(len(bs.pb)):
        name = "bundle__" + bs.name(b)
        if name not in tables:
            return None, f"table {name} is missing"
        t = tables[name]
        cols = ["uri"] + (["parent"] if bs.pb[b]["up"] else []) + ([f"field__{bs.field(b, i)}" for i in range(len(bs.pb[b]["fields"]))] if joined else [])
        if sorted(t["columns"]) != sorted(cols):
            return None, f"table {name} has columns {t['columns']} instead of {cols}"
        rows = []
        for r in t["rows"]:
            r = dict(zip(t["columns"], r))
            cells = []
            for i in range(len(bs.pb[b]["fields"]) if joined else 0):
                cells.append([words(x) for x in split(r[f"field__{bs.field(b, i)}"], text(b, i, r["uri"]), sep)])
            rows.append(dict(uri=r["uri"], parent=r.get("parent", ""), cells=cells))
        bundles.append(rows)
        fs = []
        for i in range(len(bs.pb[b]["fields"])):
            name = f"field__{bs.name(b)}__{bs.field(b, i)}"
            if joined:
                fs.append([])
                continue
            if name not in tables:
                return None, f"table {name} is missing"
            t = tables[name]
            if sorted(t["columns"]) != ["lang", "uri", "value"]:
                return None, f"table {name} has columns {t['columns']}"
            fs.append([dict(of=r["uri"], v=dict(text=words(r["value"] if r["value"] is not None else "NULL"), lang=r["lang"] or "")) for r in (dict(zip(t["columns"], x)) for x in t["rows"])])
        fields.append(fs)
    return dict(ds=ds, joined=joined, bundles=bundles, fields=fields), None
