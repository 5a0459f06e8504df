"""C01-C06 and C16: the store, by replaying TLC's transition graphs on the real
code and by judging recorded histories against Store.tla."""
import json
import core


def walk(ctx, graph, layer, walks, length, secs, seed=0, frac=1, only=None):
    g = core.store_graph(graph)
    try:
        r = core.vh("walk", g, layer, ctx.seed * 1000 + seed, walks, length, secs, frac, timeout=secs + 120)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("replaying %s on %s: %s" % (graph, layer, e), {"graph": graph, "layer": layer, "error": str(e)})
        return
    ctx.states += r["states"]
    ctx.transitions += r["covered"]
    ctx.traces += r["traces"]
    ctx.events += r["steps"]
    ctx.note("graph_replay", {"graph": graph, "layer": layer, "states": r["states"], "transitions": r["transitions"],
                              "transitions_replayed": r["covered"], "not_expressible_there": r["skipped"],
                              "every_transition": bool(r["complete"] and frac == 1), "steps": r["steps"]})
    vs = [v for v in r["violations"] if only is None or only(v)]
    for v in vs[:5]:
        ctx.violation("%s on %s after %d steps: %s from %s answered %s, the specification allows %s (%s)" % (
            graph, layer, len(v["history"]), json.dumps(v["request"]), json.dumps(v["from"])[:300], json.dumps(v["got"]), json.dumps(v["expected"]), v["why"]), v)
    if not vs and r["sample"]:
        ctx.sample({"graph": graph, "layer": layer, "walk": r["sample"]})


def hist(ctx, profile, n, length, seed=0, only=None):
    p = ctx.path("%s-%d.ndjson" % (profile, seed))
    try:
        r = core.vh("hist", profile, ctx.seed * 100 + seed, n, length, p, timeout=600)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("histories %s: %s" % (profile, e), {"profile": profile, "error": str(e)})
        return
    rej = core.validate("StoreTrace", "StoreTrace", p, ctx)
    ctx.note("histories", {"profile": profile, "histories": r["histories"], "events": r["events"], "commands": r["ops"]})
    for x in rej:
        if only is None or only(x["event"]):
            ctx.violation("history (%s) rejected at event %d: %s" % (profile, x["index"], json.dumps(x["event"])[:600]), x)
    with open(p) as f:
        ctx.sample({"profile": profile, "events": [json.loads(l) for _, l in zip(range(4), f)]})


def scale(ctx, kind, n, seed=0, only=None):
    """histories of unusual size: thousands of keys or elements, requests of
    hundreds of commands, names and strings of up to 100 000 characters"""
    p = ctx.path("scale-%s-%d.ndjson" % (kind, seed))
    try:
        r = core.vh("scale", kind, ctx.seed * 100 + seed, n, p, timeout=600)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("large histories (%s): %s" % (kind, e), {"kind": kind, "error": str(e)})
        return
    rej = core.validate("ScaleTrace", "ScaleTrace", p, ctx, shard=40)
    ctx.note("large_histories", {"kind": kind, "histories": r["histories"], "events": r["events"]})
    for x in rej:
        if only is None or only(x["event"]):
            e = dict(x["event"])
            if len(json.dumps(e)) > 3000:
                e = {k: json.dumps(v)[:400] for k, v in e.items()}
            ctx.violation("large history (%s) rejected at event %d: %s" % (kind, x["index"], json.dumps(e)[:900]), x)


def c01(ctx):
    q = ctx.q
    walk(ctx, "values", "L1", q(60, 2000), 2000, q(60, 300))
    walk(ctx, "values", "L2", q(40, 500), 2000, q(60, 300), 1)
    walk(ctx, "values", "L3", q(4, 40), 500, q(25, 300), 2, frac=q(60, 6))
    for i in range(q(1, 12)):
        hist(ctx, "kv", q(400, 500), 150, i)
    hist(ctx, "coll", 100, 100, 50)
    scale(ctx, "keys", q(4, 40), 400)
    scale(ctx, "names", q(3, 30), 401)


def c02(ctx):
    q = ctx.q
    walk(ctx, "life", "L1", q(100, 2000), 2000, q(60, 200))
    walk(ctx, "life", "L2", q(50, 500), 2000, q(60, 200), 1)
    walk(ctx, "lifecoll", "L1", q(100, 1000), 1000, q(60, 200), 2)
    walk(ctx, "lifecoll", "L2", q(50, 500), 1000, q(60, 200), 3)
    walk(ctx, "life", "L3", q(2, 20), 300, q(25, 200), 4, frac=q(40, 6))
    if not ctx.quick:
        walk(ctx, "life3", "L1", 200, 2000, 500, 5)
    for i in range(q(1, 12)):
        hist(ctx, "life", q(400, 500), 150, i)
    scale(ctx, "lives", q(5, 60), 402)


def c03(ctx):
    q = ctx.q
    walk(ctx, "index", "L1", q(300, 3000), 3000, q(60, 300))
    walk(ctx, "life", "L1", q(60, 1000), 2000, q(60, 200), 1)
    walk(ctx, "lifecoll", "L1", q(50, 500), 1000, q(60, 100), 2)
    core.design(ctx, "HashStore", "HashStore" if ctx.quick else "HashStoreDeep")
    for i in range(q(1, 12)):
        hist(ctx, "life", q(250, 400), 150, 100 + i)
    hist(ctx, "index", q(250, 2000), 200, 300)
    scale(ctx, "lives", q(6, 80), 403)


def c04(ctx):
    q = ctx.q
    walk(ctx, "values", "L1", q(60, 2000), 2000, q(60, 300))
    walk(ctx, "values", "L2", q(30, 400), 2000, q(60, 300), 1)
    walk(ctx, "lifecoll", "L1", q(50, 500), 1000, q(60, 100), 2)
    for i in range(q(1, 12)):
        hist(ctx, "coll", q(400, 500), 150, i)
    scale(ctx, "coll", q(8, 80), 404)


def c05(ctx):
    q = ctx.q
    walk(ctx, "auth", "L1", q(20, 300), 1000, q(60, 200))
    walk(ctx, "auth", "L2", q(20, 300), 1000, q(60, 200), 1)
    walk(ctx, "auth", "L3", q(4, 40), 300, q(25, 200), 2, frac=q(10, 2))
    walk(ctx, "batch", "L1", q(20, 300), 1000, q(60, 200), 3)
    for i in range(q(1, 12)):
        hist(ctx, "batch", q(200, 400), 100, i)
    scale(ctx, "batch", q(6, 40), 405)


def c06(ctx):
    q = ctx.q
    walk(ctx, "batch", "L1", q(40, 600), 1000, q(60, 200))
    walk(ctx, "batch", "L2", q(40, 400), 1000, q(60, 200), 1)
    walk(ctx, "batch", "L3", q(4, 40), 300, q(25, 200), 2, frac=q(15, 2))
    walk(ctx, "auth", "L1", q(20, 200), 1000, q(60, 200), 3)
    for i in range(q(1, 12)):
        hist(ctx, "batch", q(300, 400), 100, 20 + i)
    scale(ctx, "batch", q(6, 40), 406)


FALSE = ["bool", "false"]


def failed(rep, req):
    if rep is None:
        return False
    return rep[0] in ("err", "panic") or (rep == FALSE and req.get("op") == "tryset")


def c16(ctx):
    q = ctx.q

    def only_walk(v):
        if v["kind"] == "state-after-failure":
            return True
        # what should have failed, or did fail, and changed something
        return v["kind"].endswith("-and-state") and ("cs" not in v["request"]) and (failed(v["got"], v["request"]) or any(failed(x, v["request"]) for x in v["expected"]))

    def only_hist(e):
        cs = e.get("cs", [])
        return len(cs) == 1 and failed(e["r"], cs[0])

    walk(ctx, "values", "L1", q(60, 2000), 2000, q(60, 300), only=only_walk)
    walk(ctx, "life", "L1", q(60, 1000), 2000, q(60, 200), 1, only=only_walk)
    walk(ctx, "life", "L2", q(20, 300), 2000, q(60, 200), 1, only=only_walk)
    walk(ctx, "lifecoll", "L1", q(50, 500), 1000, q(60, 100), 2, only=only_walk)
    walk(ctx, "lifecoll", "L2", q(50, 500), 1000, q(60, 100), 2, only=only_walk)
    walk(ctx, "index", "L1", q(100, 500), 1000, q(60, 100), 3, only=only_walk)
    for i in range(q(1, 6)):
        hist(ctx, "coll", q(200, 400), 150, 10 + i, only=only_hist)
        hist(ctx, "life", q(200, 400), 150, 10 + i, only=only_hist)
        hist(ctx, "kv", q(150, 400), 150, 10 + i, only=only_hist)
    scale(ctx, "keys", q(3, 20), 407, only=only_hist)
    scale(ctx, "coll", q(5, 40), 408, only=only_hist)


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C16": c16}
GRAPHS = ["values", "life", "lifecoll", "index", "batch", "auth"]
