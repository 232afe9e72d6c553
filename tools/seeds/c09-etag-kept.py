PROP = "C09"
NEEDS = "an HTTPS source with ETags that changes, a run killed between publishing the new notification file and saving the state, and a source that returns to what the state knows"
BREAKS = "the ETag of the saved state is used although a killed run has published something else since, so the 304 answer leaves the killed run's revision published"
EDITS = [("src/rrdp.rs", """        // update snapshot info
        self.snapshot = Some(staged.snapshot);""", """        // update snapshot info
        self.snapshot = Some(staged.snapshot);
        self.notification_source.etag = staged.notification_etag.take();""")]
FILES = ["killer.c", "srv.py"]
DEMO = """
from ksd import *
from srv import Web
b = Box()
w = Web(b, etags=True)
for k in range(1, 200):
    for d in (b.rrdp, b.rsync, b.state):
        shutil.rmtree(d, True)
    b.publish(A, 1)
    check(b.run("--insecure", base="none") == 0, "first run: " + b.out)
    b.publish(B, 1)
    rc = b.run("--insecure", base="none", env=dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.work, KILL_AT=str(k)))
    check(rc in (0, -9), "second run: %s %s" % (rc, b.out))
    if rc == 0:
        ok("%d kill points" % k)
    b.publish(A, 1)
    check(b.run("--insecure", base="none") == 0, "run after kill: " + b.out)
    check(b.notif()["s"] == A and b.intact(), "after a kill at %d the source's session is not published again" % k)
    check(any(v == b"object %s 1" % A.encode() for v in b.current().values()), "rsync content after a kill at %d" % k)
"""
