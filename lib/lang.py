"""C07, C08: the query language, by replaying TLC's vectors on the real tokenizer and
parser, and by judging what they make of random texts against Lang.tla/Store.tla."""
import json
import core

DEPS = ["Lang.tla", "Float32.tla", "LangFloats.tla", "LangGen.tla"]


def vectors(ctx, cfg, seed):
    g = core.emitted("LangGen", cfg, DEPS)
    try:
        r = core.vh("langvec", g, ctx.seed * 10 + seed, timeout=400)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("vectors %s: %s" % (cfg, e), {"model": cfg, "error": str(e)})
        return
    ctx.states += r["vectors"]
    ctx.transitions += r["vectors"]
    ctx.traces += r["texts"]
    ctx.note("vectors", {"model": cfg, "vectors": r["vectors"], "texts_replayed": r["texts"], "of_them_well_formed": r["understood"]})
    for v in r["violations"][:5]:
        ctx.violation("text %s: the specification says %s, the code %s" % (json.dumps(v["text"]), json.dumps(v["expected"])[:300], json.dumps(v["got"])[:300]), v)
    if r["sample"]:
        ctx.sample(r["sample"])


def show(e):
    t = "".join(chr(c) for c in e.get("t", []))
    t = t if len(t) < 1500 else t[:500] + " ... " + t[-500:]
    return "%s -> %s" % (json.dumps(t), json.dumps(e.get("o", e.get("r")))[:500])


def recorded(ctx, what, args, seed, shard=3000):
    p = ctx.path("%s-%d.ndjson" % (what, seed))
    a = [str(x) for x in args]
    try:
        r = core.vh(what, ctx.seed * 100 + seed, *[x if x != "OUT" else p for x in a], timeout=400)
    except (core.HarnessStuck, core.HarnessCrash) as e:
        ctx.violation("%s: %s" % (what, e), {"what": what, "args": a, "error": str(e)})
        return
    rej = core.validate("LangTrace", "LangTrace", p, ctx, shard=shard)
    ctx.note("recorded_texts", dict(r, how=what))
    for x in rej:
        ctx.violation("%s: text rejected by the specification: %s" % (what, show(x["event"])), x)
    with open(p) as f:
        for l in list(f)[1:3]:
            ctx.sample(show(json.loads(l)))


def c07(ctx):
    q = ctx.q
    vectors(ctx, "LangGen_tokens", 1)
    vectors(ctx, "LangGen_chars", 2)
    if not ctx.quick:
        vectors(ctx, "LangGen_tokens8", 3)
        vectors(ctx, "LangGen_chars4", 4)
    for i in range(q(1, 8)):
        recorded(ctx, "langparse", [q(15000, 40000), "OUT", "all"], i)
        recorded(ctx, "langrun", [q(400, 1200), 15, "OUT", "all"], 20 + i)
        # texts of thousands of characters or tokens
        recorded(ctx, "langparse", [q(250, 1500), "OUT", "large"], 30 + i, 50)


def c08(ctx):
    q = ctx.q
    vectors(ctx, "LangGen_round", 1)
    for i in range(q(1, 8)):
        recorded(ctx, "langparse", [q(12000, 40000), "OUT", "lits"], 40 + i)
        recorded(ctx, "langrun", [q(400, 1200), 15, "OUT", "lits"], 60 + i)
        recorded(ctx, "langparse", [q(150, 1500), "OUT", "large"], 70 + i, 50)


CHECKS = {"C07": c07, "C08": c08}


def setup():
    for c in ("tokens", "chars", "round"):
        core.emitted("LangGen", "LangGen_" + c, DEPS)
