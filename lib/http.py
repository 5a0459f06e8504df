"""C10, C11: what the front ends make of byte streams, and the replies they write."""
import json
import core
from concurrent.futures import ThreadPoolExecutor

DEPS = ["Http.tla", "HttpGen.tla", "HttpTexts.tla", "JsonText.tla"]
KINDS = ("sync", "async")


def pool(jobs):
    with ThreadPoolExecutor(max_workers=6) as ex:
        for f in [ex.submit(*j) for j in jobs]:
            f.result()


def run(ctx, what, *args):
    try:
        return core.vh(what, *args, timeout=500)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("%s: %s" % (what, e), {"what": what, "args": [str(a) for a in args], "error": str(e)})


def vectors(ctx, cfg, kind, every, seed):
    g = core.emitted("HttpGen", cfg, DEPS)
    r = run(ctx, "httpvec", g, ctx.seed * 10 + seed, kind, every)
    if not r:
        return
    ctx.states += r["streams"]
    ctx.transitions += r["connections"]
    ctx.traces += r["connections"]
    ctx.note("streams", dict(r, model=cfg, reader=kind, violations=len(r["violations"])))
    for v in r["violations"][:5]:
        ctx.violation("%s reader: bytes %s in segments %s, client %s: specification %s, got %s"
                      % (kind, json.dumps(v["bytes"])[:600], str(v["segments"])[:80], v["client"], v["meaning"], v["got"][:200]), v)


def show(e):
    return "%s -> %s" % (json.dumps("".join(chr(c) for c in e.get("bytes", e.get("pre", [])))), json.dumps(e.get("o", e.get("r", e.get("got"))))[:300])


def judge(ctx, path, what, shard=400):
    for x in core.validate("HttpTrace", "HttpTrace", path, ctx, shard=shard):
        ctx.violation("%s: rejected by the specification: %s" % (what, show(x["event"])[:1500]), x)
    with open(path) as f:
        for l in list(f)[1:6:4]:
            ctx.sample(show(json.loads(l))[:600])


def recorded(ctx, kind, n, seed, *large):
    p = ctx.path("read-%s-%d" % (kind, seed))
    r = run(ctx, "httprec", ctx.seed * 100 + seed, kind, n, p, *large)
    if r:
        ctx.note("large_requests" if large else "random_requests", dict(r, reader=kind, stuck=len(r["stuck"])))
        for s in r["stuck"]:
            ctx.violation("%s reader: no outcome 10 s after the client closed: %s" % (kind, json.dumps(s)[:600]), s)
        judge(ctx, p, "%s reader" % kind, 16 if large else 400)


def replies(ctx, kind, n, bigs, seed):
    p = ctx.path("rep-%s-%d" % (kind, seed))
    # the slowest client reads nothing for 12 s (thorough: also for 65 s)
    pause = 0 if seed > 1 else 12000 if seed == 0 else 65000
    r = run(ctx, "httprep", ctx.seed * 100 + seed, kind, n, bigs, p, pause)
    if r:
        ctx.note("replies", dict(r, sender=kind, lost=len(r["lost"])))
        for s in r["lost"]:
            ctx.violation("%s sender: reply not delivered: %s" % (kind, json.dumps(s)[:600]), s)
        judge(ctx, p, "%s sender" % kind)


def c10(ctx):
    q = ctx.q
    core.design(ctx, "Reader", q("Reader_quick", "Reader"))
    core.emitted("HttpGen", "HttpGen", DEPS)
    jobs = [(vectors, ctx, "HttpGen", k, q(5, 1), i) for i, k in enumerate(KINDS)]
    if not ctx.quick:
        core.emitted("HttpGen", "HttpGen3", DEPS)
        jobs += [(vectors, ctx, "HttpGen3", k, 20, 10 + i) for i, k in enumerate(KINDS)]
    pool(jobs)
    for i in range(q(1, 6)):
        for k in KINDS:
            recorded(ctx, k, q(2500, 6000), i)
            # bodies and heads of up to 70 kB
            recorded(ctx, k, q(40, 300), 50 + i, "large")


def c11(ctx):
    q = ctx.q
    for i in range(q(1, 5)):
        for k in KINDS:
            replies(ctx, k, q(1500, 5000), q(15, 40), i)


CHECKS = {"C10": c10, "C11": c11}


def setup():
    core.emitted("HttpGen", "HttpGen", DEPS)
