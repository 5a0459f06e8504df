"""C09, C12, C13, C14, C15: the three real servers as processes, judged on the wire."""
import json
import core
from concurrent.futures import ThreadPoolExecutor

ALL = "simple,multi,async"


def record(ctx, jobs, workers=4):
    """Run recordings [(what, args, file)] side by side; their results and files."""
    def one(j):
        what, args, f = j
        try:
            return core.vh(what, *args, timeout=600)
        except (core.HarnessStuck, core.HarnessCrash) as e:
            return {"error": str(e), "unanswered": []}
    with ThreadPoolExecutor(max_workers=workers) as ex:
        rs = list(ex.map(one, jobs))
    files = []
    failed = None
    for (what, args, f), r in zip(jobs, rs):
        if "error" in r:
            failed = failed or "%s %s: %s" % (what, args, r["error"])
            continue
        files.append(f)
        ctx.note(what, {k: v for k, v in r.items() if k != "unanswered"})
        for u in r["unanswered"][:3]:
            ctx.violation("no complete answer: %s" % json.dumps(u)[:600], u)
    if failed:
        raise core.ToolError(failed)
    return files


def text(bs):
    return json.dumps("".join(chr(c) for c in bs))


def show(e):
    if e["kind"] == "req":
        return "at %s ms sent %s, got %s" % (e["now"], text(e["bytes"])[:700], [text(g)[:300] for g in e["got"]])
    if e["kind"] == "call":
        return "sent %s, got %s" % (text(e["bytes"])[:500], text(e["got"])[:300])
    return json.dumps(e)


def explain(x):
    e = x["event"]
    if e["kind"] == "ret":
        for c in x["history"]:
            if c["kind"] == "call" and c["id"] == e["id"]:
                return "no order of the requests explains this reply: " + show(c) + (" (late)" if c["late"] else "")
    if e["kind"] == "sync":
        opens = {}
        for c in x["history"]:
            if c["kind"] == "call":
                opens[c["id"]] = c
        return "a request answered as timed out, or left by its client, never ran (or no order explains the replies so far): %s" % [show(c) for c in opens.values() if c["late"] or c["gone"] == "left"][:4]
    if e["kind"] == "state":
        return "state of the processes at the end of the history: %s" % json.dumps(e)
    return show(e)


def judge(ctx, module, files, shard, label):
    whole = ctx.path("%s-%s.ndjson" % (label, module))
    with open(whole, "w") as o:
        for f in files:
            o.write(open(f).read())
    for x in core.validate(module, module, whole, ctx, shard=shard):
        ctx.violation("%s: %s" % (label, explain(x)[:2500]), x)
    with open(whole) as f:
        for i, l in enumerate(f):
            if i % 301 == 7:
                e = json.loads(l)
                if e["kind"] in ("req", "call"):
                    ctx.sample({label: show(e)[:600]})


def sequences(ctx, mode, histories, length, procs, variants=ALL):
    fs = []
    for i in range(procs):
        f = ctx.path("seq-%s-%d.ndjson" % (mode, i))
        fs.append(("netseq", (ctx.seed * 100 + i + {"same": 0, "auth": 20000, "rough": 40000, "stop": 60000, "long": 80000}[mode], histories, length, f, mode, variants), f))
    judge(ctx, "ServedTrace", record(ctx, fs), 250, mode)


def crowds(ctx, specs):
    """specs: [(server, mode, histories, rounds, clients, processes)]"""
    jobs = []
    for kind, mode, h, rounds, clients, procs in specs:
        for i in range(procs):
            f = ctx.path("svc-%s-%s-%d.ndjson" % (kind, mode, i))
            jobs.append(("svc", (ctx.seed * 1000 + i * 7 + {"load": 0, "slow": 300, "stop": 600}[mode], h, rounds, clients, f, kind, mode), f))
    # the slow ones first
    jobs.sort(key=lambda j: j[1][-1] != "slow")
    judge(ctx, "ServiceTrace", record(ctx, jobs, 6), 150, "concurrent")


def c09(ctx):
    ctx.assumptions += ["a client that keeps an idle connection open is outside the property (the servers read one connection at a time without a time limit)",
                        "answers are awaited for 20 s"]
    sequences(ctx, "rough", ctx.q(8, 60), ctx.q(60, 120), 4)
    # the same rough request hundreds of times over
    sequences(ctx, "long", ctx.q(2, 12), 40, 4)


def c12(ctx):
    ctx.assumptions += ["the servers' own authentication service (MockAuthenticator) decides by the Username header"]
    sequences(ctx, "auth", ctx.q(8, 60), ctx.q(60, 150), 4)
    sequences(ctx, "long", ctx.q(1, 6), 40, 2)
    crowds(ctx, [(k, "load", ctx.q(2, 12), ctx.q(4, 6), 5, 1) for k in ("multi", "async", "simple")])


def c13(ctx):
    ctx.assumptions += ["a request is late when its reply took at least 0.99 s at the client", "3.5 s after the last stall nothing is under way any more"]
    crowds(ctx, [("multi", "slow", ctx.q(2, 10), ctx.q(3, 5), 5, ctx.q(4, 6)),
                 ("async", "slow", ctx.q(1, 4), ctx.q(3, 5), 4, 1),
                 ("multi", "load", ctx.q(5, 30), ctx.q(4, 6), 6, 2),
                 ("async", "load", ctx.q(4, 20), ctx.q(4, 6), 5, 1),
                 ("simple", "load", ctx.q(4, 20), 4, 5, 1)])


def c14(ctx):
    ctx.assumptions += ["a stopping process is given 20 to 25 s to end"]
    crowds(ctx, [("multi", "stop", ctx.q(4, 16), 2, 5, ctx.q(3, 5)),
                 ("async", "stop", ctx.q(5, 30), 2, 5, 1),
                 ("simple", "stop", ctx.q(5, 30), 2, 5, 1)])
    sequences(ctx, "stop", ctx.q(5, 40), 12, 4)


def c15(ctx):
    sequences(ctx, "same", ctx.q(8, 60), ctx.q(70, 200), 4)


def wire(ctx):
    """Part of other properties: the same commands through the three servers."""
    sequences(ctx, "same", 3, 50, 2)


CHECKS = {"C09": c09, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
