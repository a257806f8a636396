"""Large data sets: copies of a scenario, side by side. Copies share classes and properties, but no
resources, so that what they mean is the union of what each of them means."""
import graphlib as g


def resource(x):
    return x[:1] == "x" and x[1:].isdigit()


class _Doc(g.Doc):
    def __init__(self, d, n):
        self.k, self.f = None, d.f
        size = len(d.stmts)

        def at(j):
            return lambda x: f"{x}-{j}" if resource(x) else f"#{int(x[1:]) + j * size}" if x.startswith("#") and x[1:].isdigit() else x
        self.at = [at(j) for j in range(n)]
        self.stmts, self.can, self.edges = [], {}, {}
        for j, f in enumerate(self.at):
            self.stmts += [dict(s, s=f(s["s"]), p=f(s["p"]), o=f(s["o"]) if s["k"] == "r" else s["o"]) for s in d.stmts]
            self.can.update({f(a): f(b) for a, b in d.can.items()})
            for k, e in d.edges.items():
                k = tuple(map(f, k))
                old = self.edges.setdefault(k, dict(e=list(k), st=[], inf=[]))
                for w in ("st", "inf"):
                    old[w] = sorted(set(old[w]) | {i + j * size for i in e[w]})


def copies(d, pb, bs, n):
    """n copies of a scenario made with no renaming"""
    D = _Doc(d, n)
    out = object.__new__(g.Bundles)
    out.doc, out.pb, out.ext, out.pre = D, pb, None, bs.pre
    out.ents = [[tuple(map(f, t)) for f in D.at for t in e] for e in bs.ents]
    out.fields = [[list(dict.fromkeys(tuple(map(f, t)) for f in D.at for t in ms)) for ms in e] for e in bs.fields]
    out.kids = [[tuple(map(f, t)) for f in D.at for t in e] for e in bs.kids]
    return D, pb, out


def apart(d):
    """whether copies of a document don't get identified with each other: no resource is the same as something they share"""
    kinds = {}
    for a, b in d.can.items():
        kinds.setdefault(b, set()).update({resource(a), resource(b)})
    return all(len(k) == 1 for k in kinds.values())
