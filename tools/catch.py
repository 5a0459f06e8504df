"""catch.py [-a] ID...: apply each planted bug to /repo, run its property's quick check
(-a: every check), undo it, and say what was caught."""
import json, os, subprocess, sys, time
args = [a for a in sys.argv[1:] if a != "-a"]
every = "-a" in sys.argv
ids = args or sorted(os.listdir("/verif/seeded"))
for i in ids:
    d = "/verif/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == "", "repo not clean"
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for p in (sorted("C%02d" % n for n in range(1, 18)) if every else [prop]):
            t = time.time()
            r = subprocess.run(["python3", "check.py", p], cwd="/verif", capture_output=True, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            m = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("violation:")]
            print("%-34s %s %s rc=%d %.0fs %s" % (i, p, "CAUGHT" if r.returncode == 1 and v else "quiet" if r.returncode == 0 else "BROKEN " + (r.stderr or r.stdout)[-300:], r.returncode, time.time() - t, m[0][:160] if m else ""), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
