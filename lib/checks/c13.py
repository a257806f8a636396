"""C13: while loading, the server never serves partial data and never crashes.

spec/LoadingMC.tla, the loader and the handlers of the server, refines the contract spec/Loading.tla.
Requests to the real viewer, sent in parallel all the time while a data set is being loaded (also under
the race detector), and before and after, are checked against the contract by spec/LoadingTrace.tla;
that data is complete is judged by comparing with the answers after everything is over."""
import json
from urllib.parse import quote, quote_plus
import graphlib as g
import scen
import serve, os
import site_ as st

FREE = ["/about", "/perf", "/api/v1/progress", "/api/v1/perf", "/favicon.ico", "/assets/"]
NONE = ["/nope", "/entity/b", "/wisski/get", "/api/v1/entity/b", "/api/v2", "/tipsy/x", "/bundle", "/bundle/a/b", "/entity/b?uri=", "/index.html", "/api", "/wisski/navigate/5", "/wisski/navigate/5/edit", "/api/v1/ntriples/b", "/assets/nope"]
STRANGE = ["", "%00", "%2F", "..", ".", "%ff", "a%20b", "?", "'", "%22", "%3Cscript%3E", "x" * 3000, "%F0%9F%98%80", "{bundle}", "$", "+", "%25", "a;b", "http:%2F%2Fv.example%2Fx1", "//", "a=b&c=d", "%E0%A4%A"]


def kind(url):
    url = url.split(" ")[-1]
    p = url.split("?")[0]
    if url in NONE:
        return "none"
    if p in FREE or p.startswith("/assets/"):
        return "free"
    return "api" if p.startswith("/api/") else "page"


def answer(e, kind, want, loading):
    """the answer as in the specification"""
    a = e["a"]
    if a.startswith("broken"):
        return a[:200]
    if a.startswith("loading"):
        return a if e["hash"] in loading else a + " with other content"
    if kind == "none":
        return "notfound" if e["hash"] == want else "different"
    if kind == "free":
        return "free"
    return "data" if e["hash"] == want else "partial data"


def targets(c, d, pb, bs):
    f = g.uri
    ents = [(bs.name(b), f(u)) for b in range(len(pb)) for u in bs.uris(b)]
    out = ["/", "/pathbuilder", "/tipsy", "/api/v1", "/bundle/nope", "/api/v1/bundle/nope", "/entity/nope?uri=x", "/wisski/get?uri=nope", "/wisski/navigate/5/view", "/api/v1/entity/nope?uri=x"]
    for b in range(len(pb)):
        n = quote(bs.name(b), safe="")
        out += [f"/bundle/{n}", f"/api/v1/bundle/{n}", f"/bundle/{n}?limit=1&skip=1"]
    for b, u in c.rng.sample(ents, min(len(ents), 5)):
        q = quote_plus(u)
        out += [f"/entity/{b}?uri={q}", f"/wisski/get?uri={q}", f"/api/v1/entity/{b}?uri={q}", f"/api/v1/ntriples/{b}?uri={q}", f"/api/v1/turtle/{b}?uri={q}"]
    return out


def strange(c):
    s = lambda: c.rng.choice(STRANGE)
    forms = [lambda: f"/bundle/{s()}", lambda: f"/bundle/b1?limit={s()}&skip={s()}", lambda: f"/bundle/b1?limit={c.rng.choice(['0', '1', '99999999999999999999', '1001', '00'])}&skip={c.rng.choice(['0', '1', '99999999999999999999', '9223372036854775807', '2147483648', '00'])}",
             lambda: f"/entity/{s()}?uri={s()}", lambda: f"/wisski/get?uri={s()}", lambda: f"/wisski/navigate/{s()}/view", lambda: f"/api/v1/bundle/{s()}", lambda: f"/api/v1/entity/{s()}?uri={s()}",
             lambda: f"/api/v1/ntriples/{s()}?uri={s()}", lambda: f"/api/v1/turtle/{s()}?uri={s()}", lambda: f"/assets/{s()}", lambda: f"/tipsy?{s()}", lambda: f"/{s()}", lambda: f"/api/v1/{s()}", lambda: f"/api/v1/progress?{s()}"]
    return c.rng.choice(["", "", "", "HEAD ", "POST ", "OPTIONS "]) + c.rng.choice(forms)()


def usable(url):
    return url and "\n" not in url


def big(doc, n):
    return doc + [dict(k="d", s=f"y{i}", p="unused", o=str(i), lang="") for i in range(n)]


def hammered(c, items, race, name):
    """checks what was answered during loading"""
    traces, where, n, early, late = [], [], 0, 0, 0
    for it, o in zip(items, c.drive("site", items, parallel=8 if not race else 4, grain=1, race=race, env=dict(GOMAXPROCS="4"))):
        if o.get("err"):
            c.violation(f"site: {o['err']}", dict(command="site", item=it))
            continue
        loading = {e for e in o["loadinghashes"]}
        tr = []
        for e in o["hammer"]:
            if e["k"] == "begin":
                tr.append(dict(k="begin", i=e["i"], kind=kind(e["url"])))
            elif e["k"] == "end":
                k = kind(e["url"])
                tr.append(dict(k="end", i=e["i"], a=answer(e, k, o["final"][e["url"]], loading), url=e["url"]))
                n += 1
                early += e["a"].startswith("loading")
                late += e["a"] == "data" and k in ("page", "api")
            else:
                tr.append(dict(k=e["k"]))
        traces.append(shorten(tr))
        where.append(dict(command="site", item=it, race=race))
    c.cov[name] = dict(requests=n, answered_loading=early, answered_with_data=late, data_sets=len(traces))
    rejected, r = c.validate("LoadingTrace", traces)
    for i in rejected:
        bad = next((e for e in traces[i] if e["k"] == "end" and e["a"] not in ("data", "loading-page", "loading-api", "free", "notfound")), None)
        c.violation(f"while loading: {json.dumps(bad) if bad else 'answers are not explained by one moment of becoming ready'}", dict(where[i], trace=traces[i]))
    return traces


def shorten(tr):
    """leaves out requests that were answered well before, and well after the data set became available, if the same has been seen before"""
    a, b = next(i for i, e in enumerate(tr) if e["k"] == "prepare"), next(i for i, e in enumerate(tr) if e["k"] == "prepared")
    begun, drop, seen = {}, set(), set()
    for i, e in enumerate(tr):
        if e["k"] == "begin":
            begun[e["i"]] = i
        elif e["k"] == "end":
            s = begun[e["i"]]
            if i < a - 20 or s > b + 20:
                key = (e["a"], tr[s]["kind"], i < a)
                if key in seen:
                    drop |= {i, s}
                seen.add(key)
    return [e for i, e in enumerate(tr) if i not in drop]


def program(c):
    """the program itself, asked from the moment it listens"""
    d = c.dir("program")
    o = c.drive("site", [dict(doc=[], pb=[dict(id="b1", path=["C"], fields=[dict(id="f1", path=["C"], dt="p", type="")], children=[])])])[0]
    pb, nq, export = (os.path.join(d, f) for f in ("pb.xml", "data.nq", "export"))
    open(pb, "w").write(o["xml"])
    n = c.pick(20000, 60000)
    with open(nq, "w") as f:
        for i in range(n):
            f.write(f'<http://v.example/x{i % 2000}> <http://v.example/p> "{i}" .\n<http://v.example/x{i % 2000}> <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> <http://v.example/C> .\n')
    serve.subprocess.run([c.program("hangover"), "-export", export, pb, nq], check=True, stdout=serve.subprocess.DEVNULL, stderr=serve.subprocess.DEVNULL)
    urls = ["/", "/api/v1", "/bundle/b1", "/api/v1/bundle/b1", "/entity/b1?uri=http://v.example/x5", "/api/v1/entity/b1?uri=http://v.example/x5", "/about", "/api/v1/progress", "/nope", "/wisski/get?uri=http://v.example/x7"]
    traces, where, asked = [], [], 0
    for args in [[pb, nq], [export], ["-cache", c.dir("cache"), pb, nq], ["-html", "-images", pb, nq]][:c.pick(3, 4)]:
        with serve.Server(c, args) as s:
            if not s.wait():
                raise RuntimeError("hangover does not listen: " + s.output()[-500:])
            tr, i, after = [], 0, 0
            seen = []
            while after < 3 * len(urls) and s.p.poll() is None and i < 20000:
                u = urls[i % len(urls)]
                i += 1
                a = s.get(u)
                if a is None:
                    seen.append((u, "no answer", None))
                    break
                if a[0] == 503 or b'id="progress"' in a[2]:
                    k = "loading-api" if a[0] == 503 else "loading-page"
                elif kind(u) == "none":
                    k = "notfound" if a[0] == 404 else str(a[0])
                elif kind(u) == "free":
                    k = "free"
                else:
                    k = "data"
                    after += 1
                seen.append((u, k, (a[0], a[2]) if k == "data" else None))
            asked += i
            final = {u: s.get(u) for u in urls}
        for j, (u, k, body) in enumerate(seen):
            if body and (final[u] is None or (final[u][0], final[u][2]) != body):
                k = "partial data"
            tr += [dict(k="begin", i=j, kind=kind(u)), dict(k="end", i=j, a=k, url=u)]
        # when it became available is not known here
        first = next((j for j, e in enumerate(tr) if e["k"] == "end" and e["a"] == "data"), len(tr))
        tr = [dict(k="prepare")] + tr[-0:first + 1] + [dict(k="prepared")] + tr[first + 1:] if first < len(tr) else tr
        small, last = [], None
        for b, e in zip(*[iter([e for e in tr if e["k"] in ("begin", "end")])] * 2):
            pass
        traces.append(thin(tr))
        where.append(dict(command="hangover " + " ".join(args)))
    rejected, r = c.validate("LoadingTrace", traces)
    for i in rejected:
        c.violation(f"the program answers in a way not explained: {json.dumps([e for e in traces[i] if e['k'] == 'end'][-5:])}", dict(where[i], trace=traces[i][-60:]))
    c.cov["program"] = dict(runs=len(traces), requests=asked, answered_loading=sum(e.get("a", "").startswith("loading") for t in traces for e in t))


def thin(tr, most=600):
    """leaves out most of a long row of equal answers at the beginning"""
    pairs = [i for i, e in enumerate(tr) if e["k"] == "begin"]
    return tr[:1] + tr[1 + 2 * max(0, (len(pairs) - most)):] if len(pairs) > most else tr


def run(c):
    c.tlc("LoadingMC", consts=dict(Requests=c.pick("{1, 2}", "{1, 2, 3}")))
    for k in ("FlagLast", "Stops"):
        if c.tlc("LoadingMC", consts={"Requests": "{1, 2}", k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"LoadingMC does not need {k}")
        c.specs.pop()
    ss = scen.make(c, c.pick(48, 300), identities=4, tops=3, size=5, depth=2)
    plain, races = [], []
    for j, s in enumerate(ss):
        d, pb, bs = s
        # many more unused statements make loading take longer
        get = targets(c, d, pb, bs)
        c.rng.shuffle(get)
        it = dict(doc=big(d.stmts, c.rng.choice([0, 50, 1000, 5000])), pb=g.pb_tree(pb, d.f), get=get[:30] + FREE + c.rng.sample(NONE, 5), tipsy="https://tipsy.example/", imports=c.rng.choice([0, 0, 1]), cache=c.rng.random() < .2, hammer=c.rng.choice([2, 4, 6]), before=["/", "/api/v1"], html=c.rng.random() < .5)
        (races if j % 4 == 0 else plain).append(it)
    c.sample(hammered(c, plain, False, "loading")[0][:6])
    hammered(c, races, True, "loading_with_race_detector")
    for r in c.races()[:3]:
        c.violation("data race while serving and loading: " + r[:1500], dict(race=r))
    # strange requests in any state
    items = []
    for j, s in enumerate(ss[:c.pick(30, 300)]):
        d, pb, bs = s
        urls = [u for u in (strange(c) for _ in range(c.pick(60, 150))) if usable(u)]
        items.append(dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), before=urls, get=urls, tipsy="https://tipsy.example/", public="https://v.example", strict=True, imports=j % 2))
    n = 0
    for it, o in zip(items, c.drive("site", items, parallel=8, grain=3)):
        for phase, chains in (("before", o["before"]), ("after", o["answers"])):
            for chain in chains:
                for a in chain:
                    n += 1
                    if (a.get("panic") or "").startswith("bad url") or (a["status"] == 500 and "/assets/" in a["url"]):
                        continue
                    if a.get("panic"):
                        c.violation(f"{phase} loading, {a['url']!r} crashes: {a['panic']}", dict(command="site", item=dict(it, before=[], get=[], **{("before" if phase == "before" else "get"): [chain[0]["url"]]})))
                    elif phase == "after" and a["status"] == 503 or phase == "before" and a["status"] not in (200, 206, 301, 307, 404, 503) or phase == "after" and (a.get("page") or {}).get("loading"):
                        c.violation(f"{phase} loading, {a['url']!r} answers {a['status']}", dict(command="site", item=it))
    c.cov["strange_requests"] = n
    program(c)
    c.assumptions.append("the moment of becoming available lies within Prepare; a data set that cannot be loaded never becomes available")
