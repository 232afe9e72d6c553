PROP = "C04"
NEEDS = "a kill after the notification file was published and before the state was saved, and a source that is back at the saved serial"
BREAKS = "the published serial only counts if there is no saved state: the mirror goes back from serial 3 to 2"
EDITS = [("src/rrdp.rs", """                if let Some((session_id, serial)) = self.published_revision() {
                    if session_id""", """                if let (None, Some((session_id, serial))) = (&self.snapshot, self.published_revision()) {
                    if session_id""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
seen = set()
for k in range(1, 200):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2])
    check(b.run() == 0, "second run")
    b.publish(A, 3, [2, 3])
    env = dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.work, KILL_AT=str(k))
    rc = b.run(env=env)
    check(rc in (0, -9), "run with kill: %s" % rc)
    n = b.notif()["n"]
    seen.add(n)
    b.publish(A, 2, [2])
    b.run()
    check(b.notif()["n"] >= n, "published serial %d after %d (kill at operation %d)" % (b.notif()["n"], n, k))
    if rc == 0:
        ok("%d kill points" % k)
    shutil.rmtree(b.top)
"""
