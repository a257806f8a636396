"""C22: the content security policy follows exactly from the options.

spec/Policy.tla says what browsers make of a header, and what the options ask for. spec/PolicyMC.tla
writes the header character by character, as the server does, from arbitrary options, and refines it.
Responses of the real viewer and of the real program, of all kinds and in all states, with all
options and many addresses, are checked against Policy by spec/PolicyTrace.tla."""
import itertools, json, os, re
from urllib.parse import unquote
import serve
import site_ as st

# addresses, and what they are as a source (after the scheme)
PUBLICS = [("https://pub.example", "pub.example"), ("http://pub.example/base/", "pub.example/base/"), ("https://other.example:81/x", "other.example:81/x"), ("https://a;b.example", "a;b.example"),
           ("https://pub.example/a;script-src", "pub.example/a%3Bscript-src"), ("https://pub.example/x; script-src *", "pub.example/x%3B%20script-src%20*"), ("https://pub.example/?q= * ", "pub.example/?q=%20*"),
           ("https://pub.example/\u00e4", "pub.example/%C3%A4"), ("http://user@pub.example/", "user@pub.example/"), ("https://127.0.0.1:8080", "127.0.0.1:8080"), ("https://pub.example/'unsafe-inline'", "pub.example/%27unsafe-inline%27")]
BLANKS = ["", " ", "  \t"]
TIPSY = [("", None), ("https://tipsy.example/", "https://tipsy.example/"), ("http://tipsy.example:81/a?b=c", "http://tipsy.example:81/a?b=c"), ("javascript:alert(1)", None), ("ftp://tipsy.example/", None), ("tipsy.example", None), ("//tipsy.example", None),
         ("*", None), ("data:text/html,x", None), ("httpx://tipsy.example", None), ("http:/tipsy.example", None), ("javascript:http://", None), (" https://tipsy.example", None), ("blob:https://tipsy.example", None), ("https", None),
         ("https://tipsy.example/; script-src *", "https://tipsy.example/%3B%20script-src%20*"), ("https://tipsy.example/ *", "https://tipsy.example/%20*"), ("https://tipsy.example/,default-src *", "https://tipsy.example/%2Cdefault-src%20*"), ("https://tipsy.example/\tx", "https://tipsy.example/%09x"), ("https://tipsy.example/\n*", "https://tipsy.example/%0A*")]
DOC = [dict(k="r", s="x1", p="type", o="C"), dict(k="d", s="x1", p="p", o="<b>v</b>", lang="")]
PB = [dict(id="b1", path=["C"], fields=[dict(id="f1", path=["C"], dt="p", type="text_long")], children=[])]
ROUTES = ["/", "/about", "/perf", "/pathbuilder", "/tipsy", "/tipsy?x=y", "/bundle/b1", "/bundle/b1?limit=1&skip=0", "/bundle/nope", "/bundle/b1?limit=5&skip=77", "/entity/b1?uri=http%3A%2F%2Fv.example%2Fx1", "/entity/b1?uri=nope", "/entity/b1", "/wisski/get?uri=http://v.example/x1", "/wisski/get",
          "/wisski/navigate/5/view", "/api/v1", "/api/v1/progress", "/api/v1/perf", "/api/v1/bundle/b1", "/api/v1/bundle/nope", "/api/v1/entity/b1?uri=http%3A%2F%2Fv.example%2Fx1", "/api/v1/entity/b1?uri=nope", "/api/v1/ntriples/b1?uri=http%3A%2F%2Fv.example%2Fx1", "/api/v1/ntriples/b1?uri=nope",
          "/api/v1/turtle/b1?uri=http%3A%2F%2Fv.example%2Fx1", "/api/v1/turtle/nope?uri=x", "/assets/", "/assets/nope.js", "/favicon.ico", "/nope", "//double", "/a/../b", "/index.html", "/robots.txt"]


def header(values):
    """lexically: policies of directives of tokens"""
    out = []
    for v in values:
        for p in v.split(","):
            ds = []
            for d in p.split(";"):
                ws = [w for w in re.split(r"[ \t\n\f\r]+", d) if w]
                if ws:
                    ds.append(dict(name=ws[0].lower(), sources=[unquote(w) for w in ws[1:]]))
            out.append(ds)
    return out


def events(phase, answers):
    ev = []
    for url, status, csp in answers:
        path = url.split("?")[0]
        ev.append(dict(phase=phase, url=url, route="editor" if path == "/tipsy" else "other", status=status, header=header(csp)))
    return ev


def options(c, full):
    """combinations of options and what they ask for"""
    out = []
    for html, images, strict in itertools.product([False, True], repeat=3):
        chosen = [[], [PUBLICS[0]], c.rng.sample(PUBLICS, 2), c.rng.sample(PUBLICS, 3)] + [[p] for p in (PUBLICS if full else c.rng.sample(PUBLICS, 3))]
        for i, ps in enumerate(chosen):
            for tipsy in TIPSY if i == 0 else c.rng.sample(TIPSY, 1):
                parts = [a for a, _ in ps]
                if c.rng.random() < .5:
                    for _ in range(c.rng.randint(1, 2)):
                        parts.insert(c.rng.randint(0, len(parts)), c.rng.choice(BLANKS))
                text = ""
                for j, a in enumerate(parts):
                    text += (c.rng.choice([",", "\n", ", ", ",\n", " , "]) if j else "") + a
                out.append(dict(html=html, images=images, strict=strict, public=text, tipsy=tipsy[0],
                                o=dict(html=html, images=images, strict=strict, publics=[unquote(f"{s}://{r}") for _, r in ps if r for s in ("http", "https")], frame=[unquote(tipsy[1])] if tipsy[1] else [])))
    return out


def crawl_routes(c, it):
    return ROUTES + ["/assets/" + a for a in it]


def real_program(c, todo):
    """the program itself, started with options"""
    d = c.dir("program")
    it = dict(doc=DOC, pb=PB)
    o = c.drive("site", [dict(it)])[0]
    pb, nq = os.path.join(d, "pb.xml"), os.path.join(d, "data.nq")
    open(pb, "w").write(o["xml"])
    with open(nq, "w") as f:
        f.write('<http://v.example/x1> <http://www.w3.org/1999/02/22-rdf-syntax-ns#type> <http://v.example/C> .\n')
        for i in range(c.pick(30000, 100000)):
            f.write(f'<http://v.example/y{i}> <http://v.example/p> "{i}" .\n')
    export = os.path.join(d, "export")
    small = os.path.join(d, "small.nq")
    open(small, "w").write("".join(open(nq).readlines()[:1]))
    serve.subprocess.run([c.program("hangover"), "-export", export, "-html", "-images", "-public", "https://stored.example", "-tipsy", "https://stored.example/", pb, small], check=True, stdout=serve.subprocess.DEVNULL, stderr=serve.subprocess.DEVNULL)
    traces, where, early = [], [], 0
    for k, op in enumerate(todo):
        args = [a for a, on in (("-html", op["html"]), ("-images", op["images"]), ("-strict-csp", op["strict"])) if on]
        args += (["-public", op["public"]] if op["public"] or c.rng.random() < .5 else []) + (["-tipsy", op["tipsy"]] if op["tipsy"] else [])
        c.rng.shuffle(args) if not (op["public"] or op["tipsy"]) else None
        src = [export] if k % 3 == 2 else [pb, nq]
        with serve.Server(c, args + src) as s:
            ev = []
            if not s.wait():
                raise RuntimeError("hangover does not listen: " + s.output()[-500:])
            for r in ["/", "/tipsy", "/api/v1", "/about"]:
                a = s.get(r)
                if a and (a[0] == 503 or b'id="progress"' in a[2]):
                    early += 1
                    ev.append((r, a[0], a[1].get_all("Content-Security-Policy") or []))
            if not s.ready():
                raise RuntimeError("hangover does not get ready: " + s.output()[-500:])
            late = [(r, a[0], a[1].get_all("Content-Security-Policy") or []) for r in ROUTES for a in [s.get(r)] if a]
        traces.append(dict(o=op["o"], ev=events("loading", ev) + events("ready", late)))
        where.append(dict(command="hangover " + " ".join(map(repr, args + [os.path.basename(x) for x in src]))))
    return traces, where, early


def run(c):
    c.tlc("PolicyMC", consts=dict(MaxLen=c.pick(2, 3)))
    # the specification is sensitive to what it is about
    for k in ("Escaping", "Blanks"):
        if c.tlc("PolicyMC", consts={"MaxLen": 2, k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"PolicyMC does not need {k}")
        c.specs.pop()
    ops = options(c, c.thorough)
    for _ in range(c.pick(0, 3)):
        ops += options(c, True)
    assets = c.drive("site", [dict(doc=DOC, pb=PB, get=["/", "/about", "/tipsy"], tipsy="http://t.example/", raw=True)])[0]
    extra = sorted({m for a in assets["answers"] for m in re.findall(r'(?:src|href)=["\']?(/assets/[^"\'> ]+)', a[-1].get("raw", ""))})
    routes = ROUTES + extra
    items = [dict(doc=DOC, pb=PB, get=routes, before=routes, imports=int(i % 3 == 2), **{k: op[k] for k in ("html", "images", "strict", "public", "tipsy")}) for i, op in enumerate(ops)]
    traces, where = [], []
    for op, it, o in zip(ops, items, c.drive("site", items, parallel=8, grain=4)):
        if o.get("err"):
            c.violation(f"site: {o['err']}", dict(command="site", item=it))
            continue
        ev = []
        for phase, ans in (("loading", o["before"]), ("ready", o["answers"])):
            flat = [a for chain in ans for a in chain]
            for a in flat:
                if a.get("panic"):
                    c.violation(f"{a['url']}: {a['panic']}", dict(command="site", item=it))
            ev += events(phase, [(a["url"], a["status"], a["csp"] or []) for a in flat])
        traces.append(dict(o=op["o"], ev=ev))
        where.append(dict(command="site", item=it))
    t2, w2, early = real_program(c, c.rng.sample(ops, c.pick(12, 60)))
    c.cov["responses"] = sum(len(t["ev"]) for t in traces + t2)
    c.cov["responses_of_program_while_loading"] = early
    c.cov["option_combinations"] = len(traces)
    c.cov["routes"] = len(routes)
    # equal responses need to be explained once only
    short = []
    for t in traces + t2:
        seen, ev = set(), []
        for e in t["ev"]:
            k = json.dumps([e["phase"], e["route"], e["status"] == 404, e["header"]])
            if k not in seen:
                seen.add(k)
                ev.append(e)
        short.append(dict(o=t["o"], ev=ev))
    rejected, r = c.validate("PolicyTrace", short)
    for i in rejected:
        c.violation(f"options {json.dumps(short[i]['o'])}: answered {json.dumps(short[i]['ev'][:4])[:600]}", dict((where + w2)[i], trace=short[i]))
    c.sample(dict(options=short[0]["o"], response=short[0]["ev"][0]))
    c.assumptions.append("sources are compared as tokens, after splitting the header and decoding percent signs; what a browser makes of a source is not modelled")
