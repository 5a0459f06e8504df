"""C13, C14, C12 (part): behaviours of the pipeline model replayed on the real
listeners, analyzers and executor.  C17: the expiration worker and running servers."""
import json
import os
import core
from concurrent.futures import ThreadPoolExecutor

SIZES = {"PipelineGen": (3, 2), "PipelineGen1": (1, 1), "PipelineGen2": (2, 1)}


def behaviours(ctx, cfg, n):
    out = ctx.path(cfg + ".out")
    r = core.tlc("PipelineGen", cfg, workers=1, extra=("-simulate", "num=%d" % n, "-depth", "150", "-seed", str(ctx.seed)), stdout=out)
    f = ctx.path(cfg + ".ndjson")
    k = 0
    with open(f, "w") as o:
        for l in open(out):
            if l.startswith('"[') and k < n:
                b = json.loads(json.loads(l))[1]
                o.write(json.dumps(b) + "\n")
                k += 1
    if "violated" in r.out or k < n // 2:
        raise core.ToolError("PipelineGen/%s: %d behaviours\n%s" % (cfg, k, r.out[-2000:]))
    return f, k


def replay(ctx, plan, par=10):
    """plan: [(cfg, number of behaviours)]"""
    if not core.stages():
        ctx.note("stages", "the stages have other types here: not replayed (the servers are still judged on the wire)")
        return
    for cfg, n in plan:
        f, k = behaviours(ctx, cfg, n)
        try:
            r = core.vp("replay", f, ctx.seed, SIZES[cfg][0], SIZES[cfg][1], par, timeout=700)
        except (core.HarnessStuck, core.HarnessCrash) as e:
            raise core.ToolError(str(e))
        ctx.traces += r["behaviours"]
        ctx.events += r["steps"]
        ctx.note("stages", {"listeners, analyzers": SIZES[cfg], **{x: r[x] for x in r if x != "violations"}})
        with open(f) as g:
            ctx.sample({"behaviour": json.dumps(json.loads(g.readline()))[:600]})
        for v in r["violations"][:3]:
            ctx.violation("stages: %s, at step %d of %s" % (v["what"], v["step"], json.dumps(v["behaviour"][:v["step"] + 1])[-1200:]), v)


def c13(ctx):
    core.design(ctx, "Pipeline", "Pipeline" if ctx.quick else "PipelineDeep")
    replay(ctx, [("PipelineGen", ctx.q(160, 2000)), ("PipelineGen1", ctx.q(40, 500)), ("PipelineGen2", ctx.q(40, 500))])


def c14(ctx):
    replay(ctx, [("PipelineGen", ctx.q(100, 800))])


def c12(ctx):
    replay(ctx, [("PipelineGen2", ctx.q(60, 500))])


def c17(ctx):
    ctx.assumptions += ["values of 2 MB come from and go back to the operating system one by one (mmap threshold set), so the memory of a server tells how many it holds",
                        "a server is given 2.5 s beyond its interval (the async one a quarter of its rate)"]
    core.design(ctx, "Reclaim", "Reclaim")
    built = core.stages()
    secs = ctx.q(17, 62)
    jobs = []
    for i in range(ctx.q(3, 10)):
        for kind, n, t in (("multi", 12, 19), ("async", 20, 13)):
            jobs.append((kind, ctx.path("%s%d" % (kind, i)), (ctx.seed * 50 + i, ctx.path("%s%d" % (kind, i)), kind, n, t, 1, 0)))
    # minutes of a server's life: many rounds before and while something elapses
    for i in range(ctx.q(1, 6)):
        for kind, n, t in (("multi", 12, 5), ("async", 12, 3)):
            p = ctx.path("%s-fast%d" % (kind, i))
            jobs.append((kind, p, (ctx.seed * 50 + 30 + i, p, kind, n, t, 20, ctx.q(10, 100))))
    FAST = 30

    def one(j):
        if isinstance(j, int):
            for attempt in range(4):
                r = core.vp("passes", j * secs, timeout=secs + 60, speed=j)
                if r["stall"] <= (1000 if j == 1 else 50 * j):
                    return r
            return None
        for attempt in range(3):
            r = core.vh("reclaim", *j[2], timeout=400)
            if "error" not in r:
                return r
        return r
    with ThreadPoolExecutor(max_workers=10) as ex:
        ws = [(ex.submit(one, 1), 2500), (ex.submit(one, FAST), 100 * FAST)] if built else []
        rs = list(ex.map(one, jobs))
        ws = [(w.result(), slack) for w, slack in ws]
    whole = ctx.path("reclaim.ndjson")
    got = 0
    with open(whole, "w") as o:
        for w, slack in ws:
            if w is None:
                ctx.note("stalled", "this machine stood still too often to judge the worker at that speed")
                continue
            o.write('{"kind":"reset","slack":%d}\n' % slack)
            for e in w["events"]:
                o.write(json.dumps(e, separators=(",", ":")) + "\n")
        if not built:
            ctx.note("stages", "the expiration worker has other types here: judged only through the servers")
        for j, r in zip(jobs, rs):
            if "error" in r:
                ctx.note("not stored", r["error"])
                continue
            got += 1
            ctx.note("reclaim", {k: r[k] for k in ("server", "per_kb", "traffic", "speed", "idle", "lasting", "pestered", "asked", "samples")})
            ctx.sample({"server": r["server"], "held over time (ms, values)": r["curve"]})
            o.write(open(j[1]).read())
    if got < len(jobs) // 2:
        raise core.ToolError("the servers did not take the values: %s" % [r.get("error") for r in rs])
    for x in core.validate("ReclaimTrace", "ReclaimTrace", whole, ctx, shard=400):
        e = x["event"]
        if e["kind"] == "sample":
            h = x["history"]
            s = [y for y in h if y["kind"] == "stored"][0]
            ctx.violation("%s server: %d ms after storing %d values that elapsed by %d ms (and %d to keep) it holds %d, alive %s; before: %s" % (
                s["server"], e["at"], s["n"], s["gone"], s["keep"], e["held"], e["alive"], [(y["at"], y["held"]) for y in h if y["kind"] == "sample"][-30::6]), x)
        else:
            ctx.violation("expiration worker: %s after %s" % (json.dumps(e), [(y.get("at"), y["kind"]) for y in x["history"][-8:-1]]), x)


CHECKS = {"C17": c17}
EXTRA = {"C12": c12, "C13": c13, "C14": c14}


def setup():
    core.stages()
