"""Runs the quick checks against planted bugs, in a scratch copy of /repo.
Usage: catch.py [--all-checks] [id ...]"""
import glob, json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/catchwt"
allc = "--all-checks" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.path.basename(d) for d in glob.glob(VERIF + "/seeded/*"))
man = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
shutil.rmtree(WT, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", WT], check=True)
for i in ids:
    prop = json.load(open(VERIF + "/seeded/%s/meta.json" % i))["property"]
    r = subprocess.run(["git", "apply", VERIF + "/seeded/%s/patch.diff" % i], cwd=WT)
    if r.returncode:
        print(i, "does not apply"); continue
    for p in (man if allc else [prop]):
        t = time.time()
        r = subprocess.run(["python3", "check.py", p, "--tier", "quick", "--no-model"], cwd=VERIF, env=dict(os.environ, KS_REPO=WT, VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        caught = r.returncode == 1 and "VIOLATION property=%s" % p in out
        if not allc or caught or r.returncode not in (0, 1):
            print("%-26s %s %-7s rc=%d %3.0f s  %s" % (i, p, "caught" if caught else "MISSED", r.returncode, time.time() - t,
                  "" if caught and r.returncode == 1 else out.strip().splitlines()[-1:]), flush=True)
    subprocess.run("git checkout -q -- . && git clean -fdq", shell=True, cwd=WT)
shutil.rmtree(WT, ignore_errors=True)
