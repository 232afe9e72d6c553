PROP = "C03"
NEEDS = "a source that stops listing deltas while it stays in its session (delta history dropped), after deltas were published"
BREAKS = "old deltas are kept in the published list although the source does not list any: the chain does not reach the serial, and has gaps later"
EDITS = [("src/rrdp.rs", """                    .unwrap_or_else(|| notification_file.serial());
""", """                    .unwrap_or_default();
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "run 1")
b.publish(A, 3, [2, 3])
check(b.run() == 0, "run 2")
b.publish(A, 5)
check(b.run() == 0, "run 3")
d = b.notif()["deltas"]
check(not d, "deltas %s are still listed" % sorted(d))
b.publish(A, 6, [6])
check(b.run() == 0, "run 4")
check(sorted(b.notif()["deltas"]) == [6], "gap in deltas %s" % sorted(b.notif()["deltas"]))
ok()
"""
