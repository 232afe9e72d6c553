PROP = "C03"
NEEDS = "a published revision without deltas (limit 0, or a source that listed none), followed by one with deltas"
BREAKS = "deltas are not picked up any more once a revision was published without any"
EDITS = [("src/rrdp.rs", """                    .map(|highest| highest.serial() < serial)
                    .unwrap_or(true);
""", """                    .map(|highest| highest.serial())
                    .or_else(|| self.snapshot.as_ref().map(|_| notification.serial()))
                    .map(|known| known < serial)
                    .unwrap_or(true);
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
b.publish(A, 2, [2])
check(b.run() == 0, "second run")
check(sorted(b.notif()["deltas"]) == [2], "deltas %s" % sorted(b.notif()["deltas"]))
b.publish(A, 3, [2, 3])
check(b.run() == 0, "third run")
check(sorted(b.notif()["deltas"]) == [2, 3], "deltas %s" % sorted(b.notif()["deltas"]))
ok()
"""
