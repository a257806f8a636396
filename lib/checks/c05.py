"""C05: masking by the pathbuilder never changes what is extracted.

The specification derives the bundles from the full document (invariant MaskRight: skipping the
statements the pathbuilder does not need yields the same).  The code extracts them with and
without the mask; the statistics have to account for every statement."""
import graphlib as g
import rnd
from checks import c06
from collections import Counter


def accounted(ds, stats, masked, filler):
    """every statement is indexed, skipped or merged"""
    bad = []
    lit = sum(s["k"] == "d" for d, _ in ds for s in d.stmts)
    res = sum(s["k"] == "r" for d, _ in ds for s in d.stmts) + filler
    if stats["DatumTriples"] + stats["MaskedDataTriples"] != lit:
        bad.append(f"{lit} literal statements, but statistics {stats}")
    cnt = Counter()
    for d, _ in ds:
        cnt.update(d.rec["cnt"])
    two = cnt["direct"] + cnt["inverse"] + cnt["conflict"] + cnt["datum"] - sum(len(d.stmts) for d, _ in ds)  # statements that also yield an inverse
    merged = Counter()
    got = stats["DirectTriples"] + stats["MaskedPredTriples"] + stats["ConflictTriples"] + stats["InverseTriples"]
    if not masked:
        # the filler is the same statement only if there are several documents
        want = dict(DirectTriples=cnt["direct"] + filler, DatumTriples=cnt["datum"], InverseTriples=cnt["inverse"], ConflictTriples=cnt["conflict"], MaskedPredTriples=0, MaskedDataTriples=0)
        if stats != want:
            bad.append(f"statistics {stats} instead of {want}")
    elif not res <= got <= res + two:
        bad.append(f"{res} statements about resources, {two} with an inverse, but statistics {stats}")
    return bad


def judge(pbs):
    base = c06.judge(pbs)

    def f(it, ds, r, o):
        return base(it, ds, r, o) or accounted(ds, o["stats"], r["masked"], it["filler"])
    return f


def run(c):
    defs, recs = c06.documents(c)
    pbs = defs["pbs"]
    c.cov["documents"] = len(recs)
    order = [dict(r, pbk=k) for r in recs for k in range(len(pbs)) if any(b["ents"] for b in r["ext"][k])]
    none = [dict(r, pbk=k) for r in recs for k in range(len(pbs)) if not any(b["ents"] for b in r["ext"][k])]
    c.rng.shuffle(order)
    c.rng.shuffle(none)
    order = order[:c.pick(2400, None)] + none[:c.pick(400, 4000)]
    c.rng.shuffle(order)
    c.sample(order[0])
    runs = [dict(c06.MEM, masked=True), c06.MEM]
    disk = [dict(c06.MEM, engine="disk", masked=True), dict(c06.MEM, engine="disk")]
    jobs = []
    # alone: what one statement needs is not hidden by what another one needs
    for r in order[:c.pick(1200, 12000)]:
        jobs.append(c06.job(c, pbs, [(r, None)], runs))
    for r in order[:c.pick(30, 600)]:
        jobs.append(c06.job(c, pbs, [(r, None)], disk))
    for i in range(0, len(order), 20):
        jobs.append(c06.job(c, pbs, [(r, k) for k, r in enumerate(order[i:i + 20])], disk if i % 200 == 0 else runs, filler=c.rng.choice([0, 0, 0, 300])))
    c.rng.shuffle(jobs)
    c06.run_jobs(c, pbs, jobs, judge(pbs))
    rnd.extraction(c, c.pick(400, 12000), lambda i: disk if i % 12 == 0 else runs)
