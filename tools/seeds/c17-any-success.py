PROP = "C17"
NEEDS = "a server (or proxy) that answers with a success status other than 200"
BREAKS = "203, 206 and other success statuses are taken for complete content"
EDITS = [("src/fetch.rs", """                    StatusCode::OK => {
""", """                    status if status.is_success() => {
""")]
FILES = ["srv.py"]
DEMO = """
from ksd import *
from srv import Web
for f in ("notification.xml", A + "/1/snapshot.xml"):
    for st in (200, 203, 206):
        b = Box()
        w = Web(b)
        b.publish(A, 1)
        w.status[f] = st
        rc = b.run("--insecure", base="none")
        check((rc == 0) == (st == 200), "status %d for %s: rc=%s" % (st, f, rc))
ok()
"""
