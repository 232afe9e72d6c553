PROP = "C13"
NEEDS = "two replaced revisions that expire before the same run"
BREAKS = "only one expired revision is removed, the other one is forgotten and stays for ever"
EDITS = [("src/rsync.rs", """        for old in self
            .old
            .iter()
            .filter(|deprecated| deprecated.since <= clean_before)
        {
""", """        if let Some(old) = self
            .old
            .iter()
            .find(|deprecated| deprecated.since <= clean_before)
        {
""")]
DEMO = """
from ksd import *
b = Box()
for n in (1, 2, 3):
    b.publish(A, n, [n] if n > 1 else [])
    check(b.run(clean=1) == 0, "run %d" % n)
time.sleep(3)
b.publish(A, 4, [4])
check(b.run(clean=1) == 0, "run 4")
left = sorted(x for x in os.listdir(b.rsync) if x.startswith("session_"))
check(left == ["session_%s_serial_%d" % (A, n) for n in (3, 4)], "left: %s" % left)
ok()
"""
