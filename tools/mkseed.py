"""Make and confirm a planted bug: mk(id, property, needs, breaks, edits, demo files).
Works in a scratch worktree of /repo under /tmp; keeps it only if it compiles, the
stable tests pass, and the demonstration tells it from the unchanged tree."""
import json, os, re, shutil, subprocess, sys
SEEDED = "/verif/seeded"
W = "/tmp/seedwork"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/seedtarget", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

RUN = r"""#!/bin/bash
# Runs from the repository's root; exit 0: the property held, 1: it did not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$d"' EXIT
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" PATH="/root/.cargo/bin:$PATH"
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
server = { path = "$PWD/server" }
serde_json = "1.0"
tokio = { version = "1.19.2", features = ["full"] }
T
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" 2>"$d/log" || { cat "$d/log"; exit 3; }
cd "$d" && timeout 200 "$d/target/debug/demo" >"$d/out" 2>&1
rc=$?
grep -a '^DEMO' "$d/out"
exit $rc
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def fresh():
    if os.path.isdir(W):
        sh("git", "-C", "/repo", "worktree", "remove", "--force", W)
        shutil.rmtree(W, ignore_errors=True)
    r = sh("git", "-C", "/repo", "worktree", "add", "--detach", W, "HEAD")
    assert r.returncode == 0, r.stderr
    if os.path.exists("/repo/Cargo.lock") and not os.path.exists(W + "/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", W)


def tests():
    r = sh("cargo", "test", "--offline", "--workspace", cwd=W, env=ENV)
    res = dict(re.findall(r"^test (\S+) \.\.\. (ok|FAILED)", r.stdout, re.M))
    return r.returncode, res, r.stdout + r.stderr


def original_lines(d):
    """Every line the patch removes has to stand in the original repository's tree too."""
    added = set()
    for l in sh("git", "-C", "/repo", "diff", "6a3ddf1", "HEAD").stdout.splitlines():
        if l.startswith("+") and not l.startswith("+++"):
            added.add(l[1:].strip())
    return [l for l in d.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip() in added and l[1:].strip()]


def mk(sid, prop, needs, breaks, edits, demo_rs=None, demo_sh=None, extra=None):
    base = {x for x in json.load(open("/opt/vp/BASELINE.json")).get("pass", [])} if os.path.exists("/opt/vp/BASELINE.json") else set()
    fresh()
    out = os.path.join(SEEDED, sid)
    tmp = "/tmp/seedout-" + sid
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    if demo_rs:
        open(tmp + "/demo.rs", "w").write(demo_rs)
    open(tmp + "/demo.sh", "w").write(demo_sh or RUN)
    os.chmod(tmp + "/demo.sh", 0o755)
    for n, t in (extra or {}).items():
        open(os.path.join(tmp, n), "w").write(t)
    r0 = sh("bash", tmp + "/demo.sh", cwd=W)
    if r0.returncode != 0:
        print(sid, "REJECTED: demo fails on the unchanged tree", r0.returncode, r0.stdout[-2000:], r0.stderr[-1000:])
        return False
    _, before, _ = tests()
    for f, a, b in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(a) != 1:
            print(sid, "REJECTED: edit matches %d times in %s: %r" % (s.count(a), f, a))
            return False
        open(p, "w").write(s.replace(a, b))
    d = sh("git", "-C", W, "diff").stdout
    bad = original_lines(d)
    if bad:
        print(sid, "WARNING: changes lines of my own commits?", bad)
    rc, after, o = tests()
    lost = [t for t in before if before[t] == "ok" and after.get(t) != "ok"]
    if lost or not after:
        print(sid, "REJECTED: tests", lost, o[-1500:])
        return False
    r1 = sh("bash", tmp + "/demo.sh", cwd=W)
    if r1.returncode in (0, 3):
        print(sid, "REJECTED: demo with the patch exits", r1.returncode, r1.stdout[-2000:], r1.stderr[-500:])
        return False
    open(tmp + "/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    shutil.move(tmp, out)
    print(sid, "kept; demo with patch:", r1.returncode, r1.stdout.strip()[-300:])
    return True


def done():
    sh("git", "-C", "/repo", "worktree", "remove", "--force", W)
    shutil.rmtree(W, ignore_errors=True)
    sh("git", "-C", "/repo", "worktree", "prune")
