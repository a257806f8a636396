"""Runs with failing operations (C09, C10): planning, running, and the traces for spec/LifecycleTrace.tla."""
import graphlib as g
import scen

VOC = dict(res=5, classes=3, props=3, dts=2)


def scenarios(c, n, lo=6, hi=26):
    out = []
    while len(out) < n:
        for d, pb, bs in scen.make(c, 2 * n, scen.Vocabulary(**VOC), tops=2, depth=2, fields=1, kids=1, size=3, ents=2, noise=3):
            if lo <= len(d.stmts) <= hi and any(bs.want().values()) and len(out) < n:
                out.append((d, pb, bs))
    return out


def item(s, **kw):
    d, pb, bs = s
    return dict(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), engine="mem", store="mem", masked=False, compact=0, fail=[], late=False, linger=0, aliases=True), **kw)


def wrong(s, o):
    """what is wrong with the result of a run"""
    d, pb, bs = s
    bad = g.check_bundles(bs, o["bundles"], {})
    if o.get("aliases") is not None:
        want = {a: b for a, b in d.can.items() if any(a in (x["s"], x["p"]) or (x["k"] == "r" and a == x["o"]) for x in d.stmts)}
        got = {a: b for a, b in o["aliases"].items() if a in want or b != d.canon(a)}
        # resources no indexed statement mentions need not be known
        if any(d.canon(a) != b for a, b in o["aliases"].items()):
            bad.append(f"aliases {o['aliases']} instead of {want}")
    return bad


def trace(s, it, o):
    """the events of a run, with the outcome"""
    ok = not o["err"]
    bad = wrong(s, o) if ok else []
    ev = [dict(e) for e in o["events"]]
    ev.append(dict(e="return", r="", s="", op="partial" if bad else "complete", how="ok" if ok else "fail", n=0))
    return ev, bad


def compress(ev):
    """drops repeated operations on the same resource: they change nothing for the contract"""
    out, last, i = [], set(), 0
    while i < len(ev):
        e = ev[i]
        if e["e"] == "use" and i + 1 < len(ev) and ev[i + 1]["e"] == "used" and ev[i + 1]["n"] == e["n"] and ev[i + 1]["how"] == "ok":
            if e["r"] not in last:
                out += [e, ev[i + 1]]
                last.add(e["r"])
            i += 2
            continue
        if e["e"] in ("open", "close", "end"):
            last = set()
        out.append(e)
        i += 1
    return out


def plan(c, ss, configs, per):
    """(scenario, item) for every operation of every scenario, or a sample of `per` of them"""
    base = [(s, item(s, **k)) for s in ss for k in configs]
    outs = c.drive("life", [i for _, i in base], parallel=8, grain=2)
    jobs, clean = [], []
    for (s, it), o in zip(base, outs):
        clean.append((s, it, o))
        ks = list(range(o["ops"]))
        if per and len(ks) > per:
            # operations differ most in kind: sample evenly over (stage, operation)
            kinds = {}
            for e in o["events"]:
                if e["e"] in ("use", "open", "close"):
                    kinds.setdefault((e["r"].rstrip("0123456789"), e["op"]), []).append(e["n"])
            ks, pools = [], list(kinds.values())
            for p in pools:
                c.rng.shuffle(p)
            while len(ks) < per and any(pools):
                for p in pools:
                    if p and len(ks) < per:
                        ks.append(p.pop())
        for k in ks:
            jobs.append((s, dict(it, fail=[k], late=c.rng.random() < .3)))
    c.cov["operations"] = c.cov.get("operations", 0) + sum(o["ops"] for o in outs)
    return clean, jobs


def execute(c, jobs):
    outs = c.drive("life", [it for _, it in jobs], parallel=8, grain=10)
    c.cov["code_runs"] = c.cov.get("code_runs", 0) + len(jobs)
    c.cov["failures_injected"] = c.cov.get("failures_injected", 0) + sum(1 for o in outs if o["hit"])
    return [(s, it, o) for (s, it), o in zip(jobs, outs)]


CONFIGS = [dict(), dict(masked=True, compact=4), dict(engine="disk", store="disk", compact=5), dict(store="disk")]
