PROP = "C23"
NEEDS = "a server that accepts the connection and goes silent in the middle of an answer"
BREAKS = "only connecting is limited in time, a request that stalls later is waited for without end"
EDITS = [("src/fetch.rs", """                    .timeout(Duration::from_secs(60))
""", """                    .connect_timeout(Duration::from_secs(60))
                    .timeout(None)
""")]
FILES = ["srv.py"]
DEMO = """
from ksd import *
from srv import Web
b = Box()
w = Web(b)
b.publish(A, 1)
check(b.run("--insecure", base="none") == 0, "first run")
b.publish(A, 2, [2])
w.stall.add(A + "/2/snapshot.xml")
p = b.popen("--insecure", base="none")
t = time.time()
try:
    p.communicate(timeout=150)
except subprocess.TimeoutExpired:
    p.kill()
    check(False, "still waiting after 150 s")
check(p.returncode not in (None, 0), "exit status %s" % p.returncode)
w.stall.clear()
check(b.run("--insecure", base="none") == 0 and b.notif()["n"] == 2, "next run: " + b.out)
ok("%d s" % (time.time() - t))
"""
