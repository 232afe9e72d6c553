PROP = "C03"
NEEDS = "a new session whose serial is higher than that of the old one and whose delta list reaches back to serials of the old session's deltas"
BREAKS = "deltas of the old session stay in the list after the source moved to a new session with a higher serial"
EDITS = [("src/rrdp.rs", """                        // set session reset, ensure that all deltas will be deprecated
                        session_reset = true;""", """                        // set session reset, ensure that all deltas will be deprecated
                        session_reset = notification_file.serial() <= snapshot.serial();""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 2, [2])
check(b.run() == 0, "first run")
b.publish(B, 3, [2, 3])
check(b.run() == 0, "second run")
n = b.notif()
check(n["s"] == B and n["n"] == 3, "revision")
for k, (u, h) in n["deltas"].items():
    check(B in u, "delta %d is of another session: %s" % (k, u))
check(sorted(n["deltas"]) == [2, 3], "deltas %s" % n["deltas"])
ok()
"""
