#!/usr/bin/env python3
"""check.py setup | check.py <property> [--tier quick|thorough]"""
import os, signal, sys, threading, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

MODULES = ["store", "lang", "http", "net", "stages"]


def descendants():
    kids = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                f = open("/proc/%s/stat" % p).read().rsplit(")", 1)[1].split()
                kids.setdefault(int(f[1]), []).append(int(p))
            except (OSError, IndexError):
                pass
    found, todo = [], [os.getpid()]
    while todo:
        for k in kids.get(todo.pop(), []):
            found.append(k)
            todo.append(k)
    return found


def no_longer_than(ctx, grace):
    """Once something is found the check looks for more only for so long."""
    def watch():
        first = None
        while True:
            time.sleep(2)
            if ctx.violations and first is None:
                first = time.monotonic()
            if first is not None and time.monotonic() - first > grace:
                ctx.note("cut short", "violations were found; the rest of the check was left out")
                try:
                    r = ctx.finish()
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    for k in descendants():
                        try:
                            os.kill(k, signal.SIGKILL)
                        except OSError:
                            pass
                    os._exit(r)
    threading.Thread(target=watch, daemon=True).start()


def main():
    what = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mods = [__import__(m) for m in MODULES]
    ctx = None
    try:
        core.build()
        if what == "setup":
            for m in mods:
                if hasattr(m, "setup"):
                    m.setup()
                for g in getattr(m, "GRAPHS", []):
                    core.store_graph(g)
            print("ready")
            return 0
        for m in mods:
            if what in m.CHECKS:
                ctx = core.Ctx(what, tier, seed)
                no_longer_than(ctx, 120 if tier == "quick" else 900)
                for mm in mods:
                    extra = getattr(mm, "EXTRA", {}).get(what)
                    if extra:
                        ctx.note("parts", mm.__name__)
                m.CHECKS[what](ctx)
                for mm in mods:
                    extra = getattr(mm, "EXTRA", {}).get(what)
                    if extra:
                        extra(ctx)
                return ctx.finish()
        print("unknown property", what, file=sys.stderr)
        return 2
    except core.ToolError as e:
        print("ERROR of the check: %s" % e, file=sys.stderr)
        # what was seen before stands
        return ctx.finish() if ctx is not None and ctx.violations else 2
    except Exception:
        traceback.print_exc()
        return ctx.finish() if ctx is not None and ctx.violations else 2


if __name__ == "__main__":
    sys.exit(main())
