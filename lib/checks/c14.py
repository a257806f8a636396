"""C14: any alias of an entity leads to that entity.

spec/SiteMC.tla, the indexes of the server, refines the contract spec/Site.tla. Random data sets
(their meaning evaluated by spec/GraphEval.tla), with odd names, are served by the real viewer; all
visits, by any name, to any bundle, by the API and by navigation addresses of public sites, must be
explained by the contract."""
import json
from urllib.parse import quote, urlsplit, parse_qs, quote_plus, unquote
import graphlib as g
import scen
import site_ as st

PUBLICS = [("", []), ("https://pub.example", ["pub.example"]), ("http://pub.example/base/", ["pub.example/base"]), ("https://pub.example/base, http://other.example:81", ["pub.example/base", "other.example:81"]),
           ("https://pub.example\nhttps://other.example:81/x/y", ["pub.example", "other.example:81/x/y"])]
IDS = ["a+b", "a&b=c", "5", "17", "ab", "x1", "a%20b", "%C3%A4"]


def state(a):
    """the answer to a request, as a state of Site.tla"""
    if a.get("panic"):
        return dict(k="panic: " + a["panic"])
    if a["status"] == 404:
        return dict(k="notfound")
    if a["status"] == 307:
        u = urlsplit(a["loc"])
        try:
            q = parse_qs(u.query, keep_blank_values=True, strict_parsing=True) if u.query else {}
        except ValueError:
            q = {}
        if u.path == "/wisski/get" and list(q) == ["uri"] and not u.netloc:
            return dict(k="resolve", uri=q["uri"][0].strip())
        if u.path.startswith("/entity/") and list(q) == ["uri"] and not u.netloc:
            return dict(k="entity", b=unquote(u.path[8:]), uri=q["uri"][0])
        return dict(k="strange redirect to " + a["loc"])
    if a["status"] == 200 and a.get("page") and a["url"].startswith("/entity/") and not a["page"]["loading"]:
        return dict(k="page", b=unquote(urlsplit(a["url"]).path[8:]), uri=a["page"]["h1"], aliases=a["page"]["aliases"] or [])
    if a["status"] == 200 and a["ctype"] == "application/json":
        return dict(k="answer", uri=json.loads(a["body"])["URI"])
    return dict(k=f"status {a['status']} {a['ctype']}")


def item(c, d, pb, bs):
    public, hosts = c.rng.choice(PUBLICS)
    f = g.uri
    mentioned = {x for s in d.stmts for x in ((s["s"], s["o"]) if s["k"] == "r" else (s["s"],)) if x not in g.SPECIAL}
    can = [[f(a), f(b)] for a, b in d.can.items() if a != b and a in mentioned | {s["p"] for s in d.stmts}]
    ents = [[bs.name(b), [f(u) for u in bs.uris(b)]] for b in range(len(pb)) if pb[b]["up"] == 0]
    names = [f(x) for x in mentioned]
    strange = [x for n in names for x in (n + "/", n.replace("%2F", "/"), unquote(n), n.lower(), n.replace("+", " "), n.split("#")[0], n.split("&")[0], n.split("?")[0])]
    asks = [n for n in set(names) | set(c.rng.sample(strange, min(len(strange), 8)) if strange else []) | {"http://nowhere.example/"} if n.strip() == n and n and "\n" not in n and "\0" not in n]
    get, goals = [], []

    def ask(url, s):
        get.append(url)
        goals.append(s)
    for n in asks:
        q = quote(n, safe="") if c.rng.random() < .5 else quote_plus(n)
        ask(f"/wisski/get?uri={q}", dict(k="resolve", uri=n))
        for b, _ in c.rng.sample(ents, min(len(ents), 2)):
            ask(f"/entity/{b}?uri={q}", dict(k="entity", b=b, uri=n))
            ask(f"/api/v1/entity/{b}?uri={q}", dict(k="api", b=b, uri=n))
    ask("/entity/nobundle?uri=" + quote(asks[0], safe=""), dict(k="entity", b="nobundle", uri=asks[0]))
    for i in IDS:
        ask(f"/wisski/navigate/{i}/view", dict(k="nav", cands=[f"{s}://{h}/wisski/navigate/{i}/view" for h in hosts for s in ("http", "https")]))
    it = dict(doc=d.stmts, pb=g.pb_tree(pb, d.f), get=get, public=public, imports=c.rng.choice([0, 0, 1]), cache=c.rng.random() < .15, follow=c.rng.choice([0, 60]), html=c.rng.random() < .3)
    return it, goals, dict(can=can, ents=ents)


def run(c):
    c.tlc("SiteMC", consts=dict(N=c.pick(3, 4)))
    fixed = [f"{s}://{h}/wisski/navigate/{i}/view" for s in ("http", "https") for h in ("pub.example", "pub.example/base", "other.example:81", "other.example:81/x/y") for i in IDS]
    ss = scen.make(c, c.pick(160, 1500), rename=st.odd(c.rng, fixed), identities=5, tops=4, size=5, depth=2)
    jobs = [item(c, *s) for s in ss]
    traces, where = [], []
    for (it, goals, data), o in zip(jobs, c.drive("site", [j[0] for j in jobs], parallel=8, grain=5)):
        replay = dict(command="site", item=it)
        if o.get("err"):
            c.violation(f"site: {o['err']}", replay)
            continue
        ev = []
        for goal, chain in zip(goals, o["answers"]):
            traces.append(dict(data, ev=[goal] + [state(a) for a in chain]))
            where.append((dict(command="site", item=dict(it, get=[chain[0]["url"]], follow=0)), [a["url"] for a in chain]))
        for a in o["crawl"] or []:
            if a["status"] not in (200, 307):
                c.violation(f"{a['url']} is linked to but answers with {a['status']}", dict(command="site", item=dict(it, get=[a["url"]])))
            if a["url"].startswith("/bundle/") and a.get("page"):
                b = unquote(urlsplit(a["url"]).path[8:])
                pages = {x["url"]: x for x in o["crawl"]}
                for l in a["page"]["items"]:
                    u = urlsplit(l["href"])
                    x = pages.get(u.path + "?" + u.query)
                    if x:
                        traces.append(dict(data, ev=[dict(k="entity", b=b, uri=l["text"]), state(x)]))
                        where.append((dict(command="site", item=dict(it, get=[x["url"]], follow=0)), [a["url"], x["url"]]))
    c.cov["code_runs"] = len(traces)
    c.cov["data_sets"] = len(jobs)
    rejected, r = c.validate("SiteTrace", traces)
    for i in rejected:
        c.violation(f"{json.dumps(traces[i]['ev'], ensure_ascii=False)[:500]} contradicts {json.dumps([p for p in traces[i]['can']], ensure_ascii=False)[:200]} {json.dumps(traces[i]['ents'], ensure_ascii=False)[:200]}", dict(where[i][0], trace=traces[i]))
    kinds = {}
    for t in traces:
        k = t["ev"][0]["k"] + "->" + t["ev"][-1]["k"][:12]
        kinds[k] = kinds.get(k, 0) + 1
    c.cov["visits"] = kinds
    c.sample(dict(visit=traces[0]["ev"]))
    c.assumptions.append("resources are named by absolute URIs")
