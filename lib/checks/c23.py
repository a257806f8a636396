"""C23: values are rendered safely and public links stay on the server.

spec/Render.tla says how values are shown, and shows that what the server does (parsing a tree, walking
and writing it) comes to the same. Every value the specification generates is put in the place of
placeholders in several ways, served by the real viewer with all options, and the cell on the page is
compared with what the specification says. In addition whole pages made from hostile names, addresses
and texts have to consist of the same elements as pages made from harmless ones."""
import collections, html, json
from urllib.parse import quote, urlsplit, parse_qsl, parse_qs

# public addresses, what to put before the path of addresses below them, and what that becomes
PUBLICS = [("https://pub.example", [("https://pub.example", ""), ("http://pub.example", "")]),
           ("http://pub.example/", [("https://pub.example", ""), ("http://pub.example", "")]),
           ("http://pub.example:81/base/", [("https://pub.example:81/base", "/base"), ("http://pub.example:81/base", "/base")]),
           ("https://pub.example, https://second.example/x\nhttp://third.example", [("https://pub.example", ""), ("http://second.example/x", "/x"), ("https://third.example", "")]),
           (" ,https://pub.example,\n", [("https://pub.example", ""), ("http://pub.example", "")])]
BELOW = ["/wisski/navigate/5/view", "/wisski/x?y=1&z=2", "/wisski/x?y=a%26b&z=%3F", "/wisski/a%20b", "/wisski/a%2Fb?c=%2F", "/wisski/\u00e4", "/wisski/x#frag", "/wisski/get?uri=https://pub.example/wisski/navigate/7/view", "/wisski", "/wisski/", "/wisski?a", "/wisski/a//b", "/wisski/x?q=a+b", "/wisski/a;b,c", "/wisski/x?", "/wisski/(x)'"]
OUT = ["https://out.example/wisski/x?a=b&c=d", "http://out.example/", "mailto:a@b.example", "https://out.example/?u=https://pub.example/wisski/x", "https://out.example/a%2Fb?c=%26", "https://out.example/#https://pub.example/wisski"]
NEAR = ["https://pub.example/other/x", "https://pub.example.out.example/wisski/x", "ftp://pub.example/wisski/x", "//pub.example/wisski/x", "http://pub.example:82/wisski/x", "https://user@pub.example/wisski/x", "https://pub.example/a/wisski/x", "https://xpub.example/wisski/x", "pub.example/wisski/x"]
RELATIVE = ["/wisski/x?a=b", "x.png", "#frag", "?q=1", "../x", "/"]
SCRIPT = ["javascript:alert(1)", "JavaScript:alert(1)//https://pub.example/wisski/x", "data:text/html,<script>alert(1)</script>", "vbscript:x"]
TEXTS = ["plain", "two  words\nand lines", "a < b & c > d", "\u00e4\u4e2d\U0001f600", "&amp; &lt;b&gt;", "\"quoted\" 'text'", "{{.}}", "https://pub.example/wisski/x", "a&nbsp;b", "<!-- c -->x", "1 &lt; 2"]
OTHER = ["string", "text", "integer", "email", "boolean", "list_string", "text_with_summary", "Text_long", "Image", "links", "text_longer", "datetime"]
FLAGS = [(h, i) for h in (False, True) for i in (False, True)]


def norm(u):
    """an address up to encoding of characters that may not occur in addresses"""
    s = urlsplit(u)
    q = lambda x: quote(x, safe="%/:@!$&'()*+,;=~-._?").replace("'", "%27").replace("(", "%28").replace(")", "%29").replace("+", "%2B" if False else "+")
    return s.scheme, q(s.netloc), q(s.path), q(s.query), q(s.fragment)


class Concrete:
    """puts something for the placeholders"""
    def __init__(self, rng, public):
        self.rng, self.public = rng, public
        self.addr, self.local = {}, {}
        for k in ("in", "in2"):
            pre, post = rng.choice(public[1])
            path = rng.choice(BELOW)
            self.addr[k], self.local["local" + k[2:]] = pre + path, post + path
        self.addr.update(out=rng.choice(OUT), near=rng.choice([n for n in NEAR if not any(n.startswith(p + "/wisski") for p, _ in public[1])]), relative=rng.choice(RELATIVE), script=rng.choice(SCRIPT))

    def value(self, v):
        """markup, and the text it stands for"""
        r, out, text, stack, marks = self.rng, "", "", [], []
        for i, t in enumerate(v):
            if t["k"] == "text":
                x = r.choice(TEXTS)
                out += x
                text += html.unescape(x.replace("<!-- c -->", ""))
            elif t["k"] == "close":
                out += f"</{stack.pop()}>"
            else:
                tag = t["tag"]
                name = tag.upper() if r.random() < .2 else tag
                at = []
                if t["addr"] != "none":
                    a = self.addr[t["addr"]]
                    e = html.escape(a) if r.random() < .7 else a.replace('"', "&quot;").replace("'", "&#39;")
                    q = r.choice("\"'")
                    at.append(("src" if tag == "img" else "href") + "=" + q + e + q)
                if r.random() < .3:
                    at.append(r.choice(['title="https://pub.example/wisski/t"', "class=c", "data-x='1 < 2'"]))
                    r.shuffle(at)
                marks.append(at)
                out += "<" + " ".join([name] + at) + (" /" if t["k"] == "void" and r.random() < .5 else "") + ">"
                if t["k"] == "open":
                    stack.append(name)
        return out, text


def expected(con, want, value, text, type):
    els = []
    for e in want["els"]:
        a = e["addr"]
        els.append((e["tag"], None if a == "none" else ("uri", value) if a == "resolver" else ("local", con.local[a]) if a in con.local else ("kept", con.addr[a])))
    return dict(els=els, text=value if want["verbatim"] else text if type == "text_long" else "", verbatim=want["verbatim"], raw=type == "text_long")


def differs(cell, exp):
    """what is wrong with a cell"""
    got = [e for e in cell["els"]]
    if [e["tag"] for e in got] != [t for t, _ in exp["els"]]:
        return f"elements {[e['tag'] for e in got]} instead of {[t for t, _ in exp['els']]}"
    for e, (tag, want) in zip(got, exp["els"]):
        at = e["attr"].get("src" if tag == "img" else "href")
        if want is None:
            if at is not None:
                return f"unexpected address {at!r}"
            continue
        if at is None:
            return "address is missing"
        kind, w = want
        if kind == "uri":
            u = urlsplit(at)
            if u.path != "/wisski/get" or u.netloc or parse_qs(u.query, keep_blank_values=True) != {"uri": [w]}:
                return f"reference to {at!r} instead of {w!r}"
        elif w.split(":")[0].lower() in ("javascript", "data", "vbscript", "ftp") and not exp["raw"]:
            if urlsplit(at).scheme not in ("", "ftp"):
                return f"unsafe address {at!r}"
        elif kind == "kept" and exp["raw"]:
            if at != w:
                return f"address {w!r} became {at!r}"
        elif norm(at) != norm(w):
            return f"address {at!r} instead of {w!r}"
    if exp["verbatim"]:
        if got[0]["text"] != exp["text"] or cell["text"].strip() != exp["text"].strip():
            return f"text {got[0]['text']!r} instead of {exp['text']!r}"
    elif " ".join(cell["text"].split()) != " ".join(exp["text"].split()):
        return f"text {cell['text']!r} instead of {exp['text']!r}"


def cells(c, cases):
    rng, per = c.rng, 40
    jobs = []
    c.cov["values"] = len(cases)
    for rep in range(c.pick(1, 2)):
        rng.shuffle(cases)
        for k in range(0, len(cases), per):
            public = rng.choice(PUBLICS)
            con, fields, doc, exps = [], [], [dict(k="r", s="x1", p="type", o="C")], []
            for i, case in enumerate(cases[k:k + per]):
                cc = Concrete(rng, public)
                type = case["type"]
                if type == "text_long" or case["val"][0]["k"] == "text" or len(case["val"]) > 1:
                    value, text = cc.value(case["val"])
                else:
                    value = text = cc.addr[case["val"][0]["addr"]]
                fields.append(dict(id=f"f{i}", path=["C"], dt=f"p{i}", type=rng.choice(OTHER) if type == "text" else dict(reference="entity_reference").get(type, type)))
                doc.append(dict(k="d", s="x1", p=f"p{i}", o=value, lang=rng.choice(["", "", "de"])))
                exps.append((cc, case, value, text))
            for h, i in FLAGS:
                jobs.append((dict(doc=doc, pb=[dict(id="b1", path=["C"], fields=fields, children=[])], html=h, images=i, public=public[0], imports=int(rng.random() < .1), get=["/entity/b1?uri=http%3A%2F%2Fv.example%2Fx1"]), exps))
    n = 0
    for (it, exps), o in zip(jobs, c.drive("site", [j[0] for j in jobs], parallel=8, grain=4)):
        if o.get("err") or o["answers"][0][0]["status"] != 200 or not o["answers"][0][0]["page"]["tables"]:
            c.violation(f"no page of the entity: {o.get('err')}", dict(command="site", item=it))
            continue
        rows = {r["name"]: r["values"] for r in o["answers"][0][0]["page"]["tables"][0]["rows"]}
        for i, (cc, case, value, text) in enumerate(exps):
            want = case["shown"]["html" if it["html"] else "plain"]["images" if it["images"] else "noimages"]
            exp = expected(cc, want, value, text, case["type"])
            row = rows.get(f"Name f{i}", [])
            bad = f"{len(row)} values" if len(row) != 1 else differs(row[0], exp)
            n += 1
            if bad:
                f = it["pb"][0]["fields"][i]
                c.violation(f"{f['type']} value {value!r} with html={it['html']} images={it['images']} public={it['public']!r}: {bad}",
                            dict(command="site", item=dict(it, doc=[it["doc"][0], it["doc"][i + 1]], pb=[dict(it["pb"][0], fields=[f])]), cell=row))
    c.cov["cells_compared"] = n
    c.cov["traces_validated_against_impl"] += n


HOSTILE = ["<script>alert(1)</script>", "\"><img src=x onerror=alert(1)>", "' onmouseover='alert(1)", "</script><script>alert(1)", "<!-- ", "]]><b>", "</td></tr></table><b>", "</title><b>", "`onclick=alert(1)", "{{.}}<i>", "&lt;b&gt;<b>", "<a href=javascript:alert(1)>x</a>", "--><iframe src=//e.example>", "<svg/onload=alert(1)>", "</textarea><b>", "\\\"<b>", "\u2028<b>"]


def build(rng, w, tame):
    """a site with w() wherever names and texts come from outside; tame() for formatted texts"""
    types = ["string", "text_long", "link", "image", "entity_reference"]
    wid = lambda: w().replace("/", "").replace("#", "").replace("?", "").replace("%", "")   # names of bundles are part of paths
    mk = lambda p, n: [dict(id=f"{p}{i}" + wid(), path=list(n), dt=f"p{i}", type=types[i], name=f"{p}{i} " + w()) for i in range(len(types))]
    pb = [dict(id="b1" + wid(), name="first " + w(), path=["C"], fields=mk("f", ["C"]), children=[dict(id="c1" + wid(), name="child " + w(), path=["C", "q", "D"], fields=mk("g", ["C", "q", "D"]), children=[])]), dict(id="b2" + wid(), name="second " + w(), path=["D"], fields=mk("h", ["D"]), children=[])]
    u = lambda n: f"http://v.example/{n}/" + w()
    xs, ys = [u(f"x{i}") for i in range(2)], [u(f"y{i}") for i in range(2)]
    doc = [dict(k="r", s=x, p="type", o="C") for x in xs] + [dict(k="r", s=y, p="type", o="D") for y in ys] + [dict(k="r", s=xs[i], p="q", o=ys[i]) for i in range(2)]
    doc += [dict(k="r", s=u("z"), p="same", o=xs[0]), dict(k="r", s="p0", p="eqp", o="http://v.example/pp/" + w())]
    for s in xs + ys:
        for i, t in enumerate(types):
            doc.append(dict(k="d", s=s, p=f"p{i}", o=f"{i} " + (tame() if t == "text_long" else w()), lang=""))
    return pb, doc, xs, ys


def whole(c):
    """pages made from hostile data have the elements of pages made from harmless data"""
    items, rng = [], c.rng
    for n in range(c.pick(40, 300)):
        h, i = FLAGS[n % 4]
        seed = rng.random()
        pair = []
        for hostile in (False, True):
            r, count = __import__("random").Random(seed), [0]

            def w():
                count[0] += 1
                x = r.choice(HOSTILE)
                return f"w{count[0]}" + (x if hostile else "")
            pb, doc, xs, ys = build(r, w, (lambda: "w<b>x</b>") if h else w)
            get = ["/", "/pathbuilder", "/perf", "/about"] + [f"/bundle/{quote(b['id'], safe='')}" for b in pb] + [f"/entity/{quote(pb[k]['id'], safe='')}?uri={quote(u, safe='')}" for k, us in ((0, xs), (1, ys)) for u in us]
            pair.append(dict(doc=doc, pb=pb, html=h, images=i, get=get, raw=True, imports=n % 2))
        items += pair
    out = c.drive("site", items, parallel=8, grain=2)
    n = 0
    for k in range(0, len(items), 2):
        a, b = out[k], out[k + 1]
        rep = dict(command="site", item=items[k + 1])
        if a.get("err") or b.get("err"):
            c.violation(f"site: {a.get('err')} {b.get('err')}", rep)
            continue
        for ca, cb in zip(a["answers"], b["answers"]):
            pa, pb_ = ca[-1], cb[-1]
            if pa["status"] != 200 or pb_["status"] != 200:
                c.violation(f"{pb_['url']}: {pb_['status']}, with harmless names {pa['status']}", rep)
                continue
            n += 1
            shape = lambda p: collections.Counter(tuple([t[0]] + sorted(t[1::2])) for t in p["page"]["tags"])
            sa, sb = shape(pa), shape(pb_)
            if sa != sb:
                c.violation(f"{pb_['url']}: markup from the data on the page: {dict(sb - sa)} (missing {dict(sa - sb)})", rep)
            for t in pb_["page"]["tags"]:
                at = dict(zip(t[1::2], t[2::2]))
                for key in ("href", "src", "action"):
                    if key in at and urlsplit(at[key].strip().lower()).scheme not in ("", "http", "https", "mailto"):
                        c.violation(f"{pb_['url']}: unsafe address {at[key]!r}", rep)
                if any(x.startswith("on") for x in at):
                    c.violation(f"{pb_['url']}: event handler {t}", rep)
    c.cov["whole_pages"] = n
    c.sample(dict(hostile=items[1]["doc"][0]))


def run(c):
    r = c.tlc("Render", consts=dict(MaxLen=c.pick(4, 5), MaxDepth=c.pick(2, 3)))
    c.sample(r["prints"][-1])
    cells(c, r["prints"])
    whole(c)
    c.assumptions.append("addresses are compared up to the encoding of characters that may not occur in them; carriage returns and NUL are not used")
