PROP = "C09"
NEEDS = "a kill while a file is being written to the staging area (part of it is there)"
BREAKS = "a staged file that is left from an earlier run is not checked against its hash"
EDITS = [("src/fetch.rs", """            if !hash.matches(&existing) {
                warn!(""", """            if existing.is_empty() {
                warn!(""")]
FILES = ["torn.c"]
DEMO = """
from ksd import *
for k in range(1, 40):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2])
    env = dict(LD_PRELOAD=b.shim("torn"), KILL_ROOT=b.work, TORN_AT=str(k))
    rc = b.run(env=env)
    check(rc in (0, -9), "run with kill: %s" % rc)
    check(b.run() == 0, "the run after a kill in the middle of write %d fails: %s" % (k, b.out))
    check(b.intact() and b.notif()["n"] == 2, "published files do not match after a kill in write %d" % k)
    if rc == 0:
        ok("%d kill points" % k)
    shutil.rmtree(b.top)
"""
