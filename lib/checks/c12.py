"""C12: an interrupted or failed export is never taken for a complete one.

spec/ArchiveMC.tla, the layers an export goes through, refines the contract spec/Archive.tla. Real exports
are cut off after every byte, and written with room for every number of bytes; whatever is left is
imported, and everything that happens is checked against the contract by spec/ArchiveTrace.tla. The
program itself is given files without room, devices without space, and is killed while exporting."""
import os, random, resource, signal, subprocess, time
import archive_


def outcome(c, file, want):
    """what importing a file with the program and with the code comes to"""
    o = c.drive("viewfile", [dict(file=file)])[0]
    if o.get("panic"):
        return "crash: " + o["panic"]
    if o.get("err"):
        return "error"
    return "original" if o["view"] == want else "other data"


def program(c, items):
    exe, traces, where = c.program("hangover"), [], []

    def export(path, src, limit=None, kill=None):
        def pre():
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        p = subprocess.Popen([exe, "-export", path, *src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=pre)
        if kill is not None:
            time.sleep(kill)
            p.kill()
        err = p.communicate(timeout=120)[1].decode(errors="replace")
        return p.returncode, err

    def imported(file):
        """whether the program refuses a file"""
        p = subprocess.run([exe, "-bench", file], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        return p.returncode, p.stderr.decode(errors="replace")
    for k, it in enumerate(items):
        d = c.dir(f"program{k}")
        f = c.drive("files", [dict(it, dir=d)])[0]
        src = [f["pb"], f["nq"]]
        full = os.path.join(d, "full")
        rc, err = export(full, src)
        want = c.drive("viewfile", [dict(file=full)])[0].get("view")
        if rc != 0 or not want:
            c.violation(f"hangover -export fails without a reason: exit {rc} {err[-300:]}", dict(item=it))
            continue
        size = os.path.getsize(full)
        runs = []
        # over an older, longer file; without room; where there is no space at all; nowhere
        old = os.path.join(d, "old")
        open(old, "wb").write(open(full, "rb").read() + b"x" * 5000)
        runs.append((old, {}))
        for limit in sorted({0, 1, 10, 100, size // 2, size - 200, size - 20, size - 9, size - 8, size - 1, size + 200} | {c.rng.randrange(size) for _ in range(c.pick(4, 60))}):
            if limit >= 0:
                runs.append((os.path.join(d, f"limit{limit}"), dict(limit=limit)))
        for kill in [c.rng.uniform(0, .25) for _ in range(c.pick(8, 60))]:
            runs.append((os.path.join(d, f"kill{kill}"), dict(kill=kill)))
        runs += [("/dev/full", {}), (os.path.join(d, "no", "such", "folder"), {}), (d, {})]
        for path, kw in runs:
            rc, err = export(path, src, **kw)
            rep = dict(item=it, command=f"hangover -export {path}", how=kw)
            if "panic:" in err or "goroutine " in err:
                c.violation(f"hangover -export {path} crashes: {err[-400:]}", rep)
            if not os.path.isfile(path):
                if rc == 0:
                    c.violation(f"hangover -export {path} reports success but writes nothing", rep)
                continue
            r = outcome(c, path, want)
            have = os.path.getsize(path)
            complete = rc == 0
            tr = [dict(k="export", at=have, size=have if complete else have + 1, r="ok" if complete else "error"), dict(k="import", at=0, size=0, r=r)]
            traces.append(tr)
            where.append(rep)
        for at in sorted({0, 1, 9, 10, 11, size // 3, size - 9, size - 30} | {c.rng.randrange(size) for _ in range(c.pick(3, 40))}):
            if not 0 <= at < size:
                continue
            part = os.path.join(d, "part")
            open(part, "wb").write(open(full, "rb").read()[:at])
            rc, err = imported(part)
            if "panic:" in err or rc not in (0, 1):
                c.violation(f"loading an export cut off after {at} of {size} bytes crashes: exit {rc} {err[-400:]}", dict(item=it))
            r = outcome(c, part, want)
            if rc == 0 and r != "original":
                c.violation(f"the program accepts an export cut off after {at} of {size} bytes ({r})", dict(item=it))
            traces.append([dict(k="export", at=size, size=size, r="ok"), dict(k="cut", at=at, size=0, r=""), dict(k="import", at=0, size=0, r="original" if rc == 0 and r == "original" else "error" if rc == 1 else r)])
            where.append(dict(item=it, cut=at))
    c.cov["program_runs"] = len(traces)
    return traces, where


def run(c):
    c.tlc("ArchiveMC")
    for k in ("ReportFinish", "ReportClose", "CountFirst"):
        if c.tlc("ArchiveMC", consts={k: False}, allow_fail=True, count=False)["ok"]:
            raise RuntimeError(f"ArchiveMC does not need {k}")
        c.specs.pop()
    items = archive_.items(c, c.pick(10, 150))
    # one that is longer than the buffers on the way
    big = archive_.items(c, 4)[-1]
    big["doc"] = big["doc"] + [dict(k="r", s=f"y{i}", p="type", o="C") for i in range(1500)] + [dict(k="d", s=f"y{i}", p="p", o=str(c.rng.random()), lang="") for i in range(1500)]
    for n, it in enumerate(items):
        it.update(gens=0, cuts=1 if n % 4 == 0 or c.thorough else 7, limits=2 if n % 4 == 1 else 9, offset=c.rng.randrange(1000))
    items.append(dict(big, gens=1, cuts=c.pick(2503, 101), limits=c.pick(4001, 211), offset=0))
    traces, where = [], []
    for it, o in zip(items, c.drive("archive", items, parallel=8, grain=1, timeout=800)):
        if o.get("err"):
            c.violation(f"archive: {o['err']}", dict(command="archive", item=it))
            continue
        traces += o["runs"]
        where += [dict(command="archive", item=it)] * len(o["runs"])
    c.cov["cut_or_limited"] = len(traces)
    t2, w2 = program(c, [it for it in items if it["doc"]][:1] + [dict(big)])
    traces, where = traces + t2, where + w2
    rejected, r = c.validate("ArchiveTrace", traces)
    for i in rejected:
        c.violation(f"{traces[i]}"[:700], dict(where[i], trace=traces[i]))
    c.sample(traces[-1])
    c.assumptions.append("room for the file is limited with RLIMIT_FSIZE; data is lost from the end of files only")
