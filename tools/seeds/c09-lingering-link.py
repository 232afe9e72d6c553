PROP = "C09"
NEEDS = "a kill between the creation of the temporary link and its renaming to `current`"
BREAKS = "the temporary link that a killed run left is not removed: every later run fails"
EDITS = [("src/rsync.rs", """    if tmp_name.exists() {
        std::fs::remove_file(&tmp_name)""", """    if tmp_name.is_file() {
        std::fs::remove_file(&tmp_name)""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
for k in range(1, 200):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2])
    env = dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.rsync, KILL_AT=str(k))
    rc = b.run(env=env)
    check(rc in (0, -9), "run with kill: %s" % rc)
    check(b.run() == 0, "the run after a kill at operation %d fails: %s" % (k, b.out))
    check(b.run() == 0, "the next one")
    if rc == 0:
        ok("%d kill points" % k)
    shutil.rmtree(b.top)
"""
