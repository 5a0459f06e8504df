"""Building, running and judging: what every check shares."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(BUILD, "target")
BIN = os.path.join(TARGET, "debug")
CTL_SIZE = 24 * 8 + 2 * 4096 * 4


class ToolError(Exception):
    """The machinery failed: neither 'held' nor 'violated'."""


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "LD_PRELOAD", "JAVA_TOOL_OPTIONS"):
        e.pop(k, None)
    return e


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------
# building
# --------------------------------------------------------------------------
def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def files_under(d, exts=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        out += [os.path.join(r, f) for f in fs if exts is None or f.endswith(exts)]
    return out


def build():
    """Shim and harness (with the three servers) from /repo's working tree."""
    os.makedirs(BUILD, exist_ok=True)
    so, src = os.path.join(BUILD, "shim.so"), os.path.join(ROOT, "shim/shim.c")
    st = os.path.join(BUILD, "shim.stamp")
    h = tree_hash([src])
    if not os.path.exists(so) or not os.path.exists(st) or open(st).read() != h:
        r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-Wall", "-o", so, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise ToolError("shim: " + r.stderr)
        open(st, "w").write(h)
    # modification times say nothing reliable here: rebuild when the contents changed
    stamp = os.path.join(BUILD, "repo.stamp")
    h = tree_hash(files_under(os.path.join(REPO, "server")) + [os.path.join(REPO, "Cargo.toml")] + files_under(os.path.join(ROOT, "harness")))
    man = os.path.join(ROOT, "harness/Cargo.toml")
    if not os.path.exists(stamp) or open(stamp).read() != h:
        if os.path.exists(stamp):
            os.unlink(stamp)
        if os.path.isdir(TARGET):
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "server", "-p", "vh"], env=env(), capture_output=True)
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", man], env=env(), capture_output=True, text=True)
    if r.returncode:
        raise ToolError("cargo build failed:\n" + r.stderr[-4000:])
    open(stamp, "w").write(h)


def stages():
    """The part of the harness that takes the multithreaded server apart (vp).  It
    names types of the stages between which requests are passed; where a tree has
    other ones it does not build, and what it adds is left out."""
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "harness/Cargo.toml"), "--features", "stages", "--bin", "vp"], env=env(), capture_output=True, text=True)
    if r.returncode and "error" not in r.stderr:
        raise ToolError("cargo build failed:\n" + r.stderr[-4000:])
    return r.returncode == 0


SPEED = 23  # field of the control page, see shim/shim.c


def vp(*args, timeout=600, speed=1):
    """speed: clocks, sleeps and time limits run that many times faster"""
    e, ctl = env(), None
    if speed > 1:
        ctl = new_ctl()
        with open(ctl, "r+b") as f:
            f.seek(8 * SPEED)
            f.write(speed.to_bytes(8, "little"))
        e["VSHIM_CTL"] = ctl
        e["LD_PRELOAD"] = os.path.join(BUILD, "shim.so")
    try:
        r = subprocess.run([os.path.join(BIN, "vp"), *map(str, args)], env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessStuck("vp %s did not finish in %d s" % (" ".join(map(str, args)), timeout))
    finally:
        if ctl:
            os.unlink(ctl)
    if r.returncode == 0 and r.stdout.strip():
        return json.loads(r.stdout)
    raise HarnessCrash("vp %s: exit %d: %s" % (" ".join(map(str, args)), r.returncode, r.stderr[-2000:].decode("utf8", "replace")))


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0
        self.ok = "Model checking completed. No error has been found" in out


def tlc(module, cfg, extra=(), workers="auto", envs=None, timeout=800, stdout=None, heap="10g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    e = env()
    e["JAVA_TOOL_OPTIONS"] = "-Dfile.encoding=UTF-8 -Xmx%s -Xss400m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s" % (heap, meta)
    e.update(envs or {})
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", os.path.join(SPEC, cfg + ".cfg"), os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        if stdout:
            with open(stdout, "wb") as f:
                r = subprocess.run(cmd, env=e, cwd=meta, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            with open(stdout, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - 20000))
                out = f.read().decode("utf8", "replace")
        else:
            r = subprocess.run(cmd, env=e, cwd=meta, capture_output=True, timeout=timeout)
            out = (r.stdout + r.stderr).decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: %s %s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, r.returncode, time.time() - t0)


def spec_hash(*mods):
    return tree_hash([os.path.join(SPEC, m) for m in mods])[:16]


def design(ctx, module, cfg, must=True, **kw):
    """Model-check a design model; the specification itself has to be right."""
    r = tlc(module, cfg, **kw)
    if not r.ok and must:
        raise ToolError("the specification %s/%s does not satisfy its properties:\n%s" % (module, cfg, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.note("design", {"model": cfg, "distinct_states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)})
    return r


def emitted(module, cfg, deps):
    """The transitions TLC prints for a bounded model (cached by the text of the specification)."""
    d = os.path.join(BUILD, "graphs")
    os.makedirs(d, exist_ok=True)
    h = spec_hash(*(list(deps) + [cfg + ".cfg"]))
    p = os.path.join(d, "%s-%s.out" % (cfg, h))
    if not os.path.exists(p):
        for f in os.listdir(d):
            if f.startswith(cfg + "-"):
                os.unlink(os.path.join(d, f))
        r = tlc(module, cfg, workers=1, stdout=p + ".tmp")
        if not r.ok:
            raise ToolError("the specification %s/%s does not satisfy its properties:\n%s" % (module, cfg, r.out[-3000:]))
        os.rename(p + ".tmp", p)
    return p


def store_graph(name):
    return emitted("StoreGen", "StoreGen_" + name, ["Store.tla", "StoreGen.tla"])


# --------------------------------------------------------------------------
# the harness
# --------------------------------------------------------------------------
def new_ctl():
    d = "/dev/shm" if os.path.isdir("/dev/shm") else BUILD
    fd, p = tempfile.mkstemp(prefix="vctl-", dir=d)
    os.write(fd, b"\0" * CTL_SIZE)
    os.close(fd)
    return p


def vh(*args, timeout=600, envs=None):
    ctl = new_ctl()
    e = env()
    e["VSHIM_CTL"] = ctl
    e["LD_PRELOAD"] = os.path.join(BUILD, "shim.so")
    e.update(envs or {})
    try:
        r = subprocess.run([os.path.join(BIN, "vh"), *map(str, args)], env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise HarnessStuck("vh %s did not finish in %d s" % (" ".join(map(str, args)), timeout))
    finally:
        os.unlink(ctl)
    if r.returncode == 0 and r.stdout.strip():
        return json.loads(r.stdout.decode())
    if r.returncode < 0:
        raise HarnessCrash("vh %s ended by signal %d: %s" % (" ".join(map(str, args)), -r.returncode, r.stderr.decode("utf8", "replace")[-500:]))
    raise ToolError("vh %s: exit %d\n%s" % (" ".join(map(str, args)), r.returncode, r.stderr.decode("utf8", "replace")[-2000:]))


class HarnessStuck(Exception):
    pass


class HarnessCrash(Exception):
    pass


# --------------------------------------------------------------------------
# trace validation
# --------------------------------------------------------------------------
def _validate_one(module, cfg, path, lines, max_rejections, timeout, heap):
    """(rejections, states, transitions) of one trace file."""
    rej, states, trans = [], 0, 0
    cur = lines
    n = 0
    while cur:
        n += 1
        p = "%s.%d" % (path, n)
        open(p, "w").write("\n".join(cur) + "\n")
        r = tlc(module, cfg, workers=1, envs={"TRACE": p}, timeout=timeout, heap=heap)
        os.unlink(p)
        states += r.distinct
        trans += r.generated
        if r.ok:
            break
        if "Postcondition Accepted" not in r.out and "Invariant" not in r.out:
            raise ToolError("trace validation failed to run: %s %s\n%s" % (module, path, r.out[-3000:]))
        if "Invariant" in r.out and "is violated" in r.out:
            m = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
            at = int(m[-1]) - 1 if m else r.depth
        elif re.search(r'<<"REACHED", (\d+)>>', r.out):
            at = int(re.findall(r'<<"REACHED", (\d+)>>', r.out)[-1])
        else:
            at = r.depth
        i = min(at - 1, len(cur) - 1)  # the first event the specification does not allow
        s = i
        while s > 0 and '"kind":"reset"' not in cur[s]:
            s -= 1
        e = i + 1
        while e < len(cur) and '"kind":"reset"' not in cur[e]:
            e += 1
        rej.append({"event": json.loads(cur[i]), "index": i - s, "history": [json.loads(x) for x in cur[s:i + 1]]})
        cur = cur[:s] + cur[e:]
        if len(rej) >= max_rejections:
            break
    return rej, states, trans


def validate(module, cfg, trace, ctx, max_rejections=4, timeout=700, shard=3000):
    """Check a recorded ndjson trace with TLC (in parallel pieces).  Histories are
    separated by {"kind":"reset"} lines; after a rejection the rest is checked too.
    Returns the rejections: {event, index, history}."""
    from concurrent.futures import ThreadPoolExecutor
    lines = open(trace).read().splitlines()
    if not lines:
        raise ToolError("empty trace " + trace)
    n_hist = sum(1 for l in lines if '"kind":"reset"' in l)
    pieces, cur = [], []
    for l in lines:
        if '"kind":"reset"' in l and len(cur) >= shard:
            pieces.append(cur)
            cur = []
        cur.append(l)
    pieces.append(cur)
    with ThreadPoolExecutor(max_workers=5) as ex:
        fs = [ex.submit(_validate_one, module, cfg, "%s.s%d" % (trace, i), p, max_rejections, timeout, "3g" if len(pieces) > 1 else "8g") for i, p in enumerate(pieces)]
        rs = [f.result() for f in fs]
    rej = [x for r in rs for x in r[0]]
    ctx.states += sum(r[1] for r in rs)
    ctx.transitions += sum(r[2] for r in rs)
    ctx.traces += n_hist - len(rej)
    ctx.events += len(lines)
    return rej


# --------------------------------------------------------------------------
# one check
# --------------------------------------------------------------------------
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.notes, self.samples, self.violations, self.known = {}, [], [], []
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix="run-", dir=BUILD)

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def note(self, k, v):
        self.notes.setdefault(k, []).append(v)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def path(self, name):
        return os.path.join(self.tmp, name)

    def violation(self, what, data):
        """A concrete failure of the real code."""
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        json.dump({"property": self.prop, "what": what, "data": data}, open(p, "w"), indent=1, ensure_ascii=True)
        self.violations.append((what, p))
        log("  violation: " + what)

    def finish(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "events_validated": self.events,
            "samples": self.samples or ["none"],
        }
        cov.update(self.notes)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:400])
        if not self.violations:
            print("held: property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.0fs" % (self.prop, self.tier, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0
