"""C07: parallel extraction is complete and schedule-independent.

spec/ExtractSched.tla (the tasks and wait groups) is model checked to refine the contract
spec/Extraction.tla for every schedule, with and without a failing operation.  Schedules it
generates are forced onto the code through storages that let one operation through at a time;
every recorded run must be explained by spec/ExtractTrace.tla and yield the result of the
specification."""
import json
import graphlib as g
import rnd
import scen

SMALL = [
    dict(up=[0, 1], ents=[1, 1], vals=[[1], [1]], kids=[0, 1]),
    dict(up=[0, 1, 2], ents=[1, 1, 1], vals=[[], [], []], kids=[0, 1, 1]),
    dict(up=[0, 0], ents=[2, 1], vals=[[1], []], kids=[0, 0]),
    dict(up=[0, 1, 1], ents=[1, 1, 1], vals=[[], [], []], kids=[0, 2, 1]),
    dict(up=[0], ents=[2], vals=[[1, 2]], kids=[0]),
    dict(up=[0, 0, 2], ents=[1, 0, 1], vals=[[], [0], []], kids=[0, 0, 0]),
]
LARGE = SMALL + [
    dict(up=[0, 1, 2], ents=[1, 1, 1], vals=[[1], [1], [1]], kids=[0, 1, 1]),
    dict(up=[0, 1, 1], ents=[2, 1, 1], vals=[[2], [], [1]], kids=[0, 1, 2]),
    dict(up=[0, 1, 2, 2], ents=[1, 1, 1, 1], vals=[[], [1], [], []], kids=[0, 1, 1, 1]),
    dict(up=[0, 0, 1, 2], ents=[1, 1, 1, 1], vals=[[], [], [], []], kids=[0, 0, 1, 1]),
    dict(up=[0, 1, 1, 1], ents=[1, 1, 1, 1], vals=[[], [], [], []], kids=[0, 1, 1, 1]),
    dict(up=[0, 1, 2, 3], ents=[1, 1, 1, 1], vals=[[], [], [], []], kids=[0, 1, 1, 1]),
]


def cases_file(c, cases, name):
    p = c.dir("cases") + "/" + name
    with open(p, "w") as f:
        for i, x in enumerate(cases):
            f.write(json.dumps(dict(x, id=i)) + "\n")
    return p


class Scenario:
    def __init__(self, d, pb, bs):
        self.d, self.pb, self.bs = d, pb, bs
        n = len(pb)
        self.names = {bs.name(b): b + 1 for b in range(n)}
        self.groups = {bs.field(b, i): i + 1 for b in range(n) for i in range(len(pb[b]["fields"]))}
        # the writes the contract asks for
        seen, self.want = {}, []

        def add(b, grp, w):
            k = (b, grp, w)
            seen[k] = seen.get(k, 0) + 1
            self.want.append(dict(b=b + 1, g=grp, w=f"{w}#{seen[k]}"))
        for b in range(n):
            at = bs.at(b)
            for m in bs.ents[b]:
                add(b, "e", m[at] + "|" + "/".join(m))
            for i in range(len(pb[b]["fields"])):
                for m in bs.fields[b][i]:
                    if m[-1].startswith("#"):
                        t, l = d.lit(m[-1])
                        add(b, f"f{i+1}", m[at] + "|" + "/".join(m[:-1]) + "|" + l + "|" + t)
                    else:
                        add(b, f"f{i+1}", m[at] + "|" + "/".join(m) + "||" + g.uri(m[-1]))
            if pb[b]["up"]:
                for p, k in sorted(set(bs.kids[b])):
                    add(pb[b]["up"] - 1, f"c{b+1}", p + "|" + k)
        self.case = dict(up=[b["up"] for b in pb], ents=[len(e) for e in bs.ents],
                         vals=[[len(f) for f in fs] for fs in bs.fields], kids=[len(set(k)) for k in bs.kids])

    def item(self, **kw):
        return dict(dict(doc=self.d.stmts, pb=g.pb_tree(self.pb, self.d.f), store="mem", names=self.names, groups=self.groups,
                         policy="order", order=[], starve="", fail=-1, hang=10000), **kw)

    def trace(self, o):
        return dict(want=self.want, all=list(range(1, len(self.pb) + 1)), ev=o["events"])


def judge(s, it, o):
    if o["hang"]:
        return "extraction does not end"
    if it["fail"] >= 0 and it["fail"] < o["ops"] and not o["err"]:
        # success is possible only if nothing is missing, and the contract decides that
        return None
    if o["err"]:
        return None if it["fail"] >= 0 else "extraction fails: " + o["err"]
    bad = g.check_bundles(s.bs, o["bundles"], {})
    return "wrong result: " + bad[0] if bad else None


def starvations(s):
    """what a schedule may hold back"""
    out = []
    for b in range(len(s.pb)):
        out += [f"open/{b+1}/", f"e/{b+1}/", f"fin/{b+1}/", f"get/{b+1}/"]
        out += [f"f{i+1}/{b+1}/" for i in range(len(s.pb[b]["fields"]))]
        if s.pb[b]["up"]:
            out += [f"c{b+1}/{s.pb[b]['up']}/", f"rc{b+1}/{s.pb[b]['up']}/"]
    return out + ["f", "c", "e/", "open/", "rc", "get", "fin"]


def run(c):
    small = cases_file(c, c.pick(SMALL, LARGE), "small")
    for fault in (False, True):
        c.tlc("ExtractSched", consts=dict(Fault=fault), env=dict(CASES=small), timeout=3000)
    # schedules for concrete scenarios
    voc = scen.Vocabulary(res=5, classes=3, props=3, dts=2)
    ss = [Scenario(*x) for x in scen.make(c, c.pick(50, 500), voc, tops=2, depth=3, fields=2, kids=2, size=5, ents=2, noise=4)]
    ss = [s for s in ss if 3 <= len(s.want) <= 60]
    r = c.tlc("ExtractSched", cfg="ExtractSim", env=dict(CASES=cases_file(c, [s.case for s in ss], "sim")), simulate=(c.pick(350, 12000), 600))
    jobs = []
    for p in r["prints"]:
        s = ss[p["id"]]
        order = [[e[0], e[1], e[3]] for e in p["order"]]
        jobs.append((s, s.item(order=order, store=c.rng.choice(["mem", "mem", "disk"]))))
    c.cov["generated_schedules"] = len(jobs)
    if jobs:
        c.sample(dict(case=jobs[0][0].case, order=jobs[0][1]["order"]))
    for s in c.rng.sample(ss, min(len(ss), c.pick(14, 300))):
        for st in starvations(s):
            jobs.append((s, s.item(policy="starve", starve=st, store=c.rng.choice(["mem", "mem", "disk"]))))
    for s in ss:
        jobs.append((s, s.item(policy="burst")))
        jobs.append((s, s.item(policy="free", store=c.rng.choice(["mem", "disk"]))))
    for s in c.rng.sample(ss, min(len(ss), c.pick(8, 150))):
        for k in range(len(s.want) + 4 * len(s.pb)):
            if c.rng.random() < c.pick(.5, 1):
                jobs.append((s, s.item(policy=c.rng.choice(["burst", "free", "order"]), fail=k)))
    c.rng.shuffle(jobs)
    check(c, jobs, False)
    # the same under the race detector
    sub = c.rng.sample([j for j in jobs if j[1]["policy"] in ("burst", "free")], min(60, len(jobs)) if not c.thorough else min(1500, len(jobs)))
    check(c, sub, True)
    # the storages of the program itself, with many bundles below one entity
    mem = dict(via="", engine="mem", store="mem", masked=False)
    rnd.extraction(c, c.pick(60, 2000), lambda i: [mem, mem, dict(mem, engine="disk", store="disk")] if i % 6 == 0 else [mem, mem], race=True,
                   scens=rnd.scenarios(c, c.pick(60, 2000), [dict(tops=1, depth=2, fields=1, kids=6, size=9, ents=6, noise=2), dict(tops=3, depth=3, fields=3, kids=3, size=9, ents=4, noise=4)]))
    for rep in c.races()[:5]:
        c.violation("data race during extraction: " + rep[:600], dict(report=rep[:6000]))
    c.assumptions += ["operations of the storages are the points at which schedules differ; between two of them the code runs without interference, except for the free and burst schedules",
                      "an operation that isn't called within a millisecond of silence is taken to be waiting for others"]


def check(c, jobs, race):
    outs = c.drive("sched", [it for _, it in jobs], parallel=16, grain=5, race=race)
    for (s, it), o in zip(jobs, outs):
        bad = judge(s, it, o)
        if bad:
            c.violation(f"{it['policy']} {it['starve']} fail={it['fail']} store={it['store']}: {bad}", dict(command="sched", item=it, out=o))
    live = [(s, it, o) for (s, it), o in zip(jobs, outs) if not o["hang"]]
    rejected, r = c.validate("ExtractTrace", [s.trace(o) for s, it, o in live])
    for i in rejected:
        s, it, o = live[i]
        c.violation(f"{it['policy']} {it['starve']} fail={it['fail']} store={it['store']}: the run breaks the contract of extraction", dict(command="sched", item=it, out=o, trace=s.trace(o)))
    c.cov["code_runs"] = c.cov.get("code_runs", 0) + len(jobs)
    c.cov["operations_scheduled"] = c.cov.get("operations_scheduled", 0) + sum(o["ops"] for o in outs)
