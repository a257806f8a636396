"""C11: exporting and re-importing preserves everything that can be viewed.

spec/Archive.tla is the contract on exports and imports. Random data sets are made, exported, imported,
exported again and so on by the real code; everything that can be seen of them (pages and API answers
of the viewer, pathbuilder, entities, aliases, settings) is compared with the original, and the
histories are checked by spec/ArchiveTrace.tla. The program itself is asked the same questions when
serving files and when serving an export of them."""
import json, os, subprocess
from urllib.parse import quote
import archive_
import serve


def program(c, items):
    """the same pages from files and from an export"""
    pages = 0
    for k, it in enumerate(items):
        d = c.dir(f"program{k}")
        o = c.drive("files", [dict(it, dir=d)])[0]
        export = os.path.join(d, "export")
        src = [o["pb"], o["nq"]]
        opts = [a for a, on in (("-html", it["html"]), ("-images", it["images"])) if on]
        subprocess.run([c.program("hangover"), "-export", export, *opts, *src], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        got = []
        for args in (src, [export]):
            with serve.Server(c, opts + args) as s:
                if not s.wait() or not s.ready():
                    c.violation(f"hangover {args} does not get ready: {s.output()[-300:]}", dict(item=it))
                    break
                seen, queue = {}, ["/", "/api/v1", "/pathbuilder"]
                while queue and len(seen) < 60:
                    u = queue.pop(0)
                    if u in seen:
                        continue
                    a = s.get(u)
                    # two runs may list the aliases in different orders
                    seen[u] = a and (a[0], sorted(x.strip() for x in a[2].replace(b"null", b"[]").splitlines()))
                    if a and u == "/api/v1":
                        for b in json.loads(a[2]):
                            queue += [f"/api/v1/bundle/{quote(b, safe='')}", f"/bundle/{quote(b, safe='')}"]
                    if a and u.startswith("/api/v1/bundle/") and a[0] == 200:
                        for x in (json.loads(a[2]) or [])[:5]:
                            queue += [f"/entity/{u[15:]}?uri={quote(x, safe='')}", f"/api/v1/entity/{u[15:]}?uri={quote(x, safe='')}", f"/wisski/get?uri={quote(x, safe='')}"]
                got.append(seen)
        if len(got) == 2:
            pages += len(got[0])
            for u in got[0].keys() | got[1].keys():
                if got[0].get(u) != got[1].get(u):
                    c.violation(f"{u} differs between files and an export of them", dict(item=it, url=u, files=str(got[0].get(u))[:2000], export=str(got[1].get(u))[:2000]))
                    break
    c.cov["program"] = dict(data_sets=len(items), pages=pages)


def run(c):
    c.tlc("ArchiveMC")
    items = archive_.items(c, c.pick(150, 2000))
    for it in items:
        it.update(gens=c.pick(2, 3), follow=40)
    traces, where, keys = [], [], 0
    for it, o in zip(items, c.drive("archive", items, parallel=8, grain=5)):
        if o.get("err"):
            c.violation(f"archive: {o['err']}", dict(command="archive", item=it))
            continue
        keys += o["keys"]
        traces += o["runs"]
        where += [it] * len(o["runs"])
    c.cov["data_sets"] = len(items)
    c.cov["things_compared_per_generation"] = keys
    rejected, r = c.validate("ArchiveTrace", traces)
    for i in rejected:
        c.violation(f"{[e['r'] for e in traces[i]]}"[:700], dict(command="archive", item=where[i], trace=traces[i]))
    c.sample(traces[0])
    program(c, [it for it in items if it["doc"]][:c.pick(4, 20)])
    c.assumptions.append("an empty list and null are the same in answers of the API")
