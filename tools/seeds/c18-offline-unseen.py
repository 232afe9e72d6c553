PROP = "C18"
NEEDS = "offline validation with rejection, and a TAL whose tree does not reach this repository"
BREAKS = "an update is published although validation never saw the repository"
EDITS = [("src/rrdp.rs", """            } else if config.tal_reject_invalid {
                Err(anyhow!(""", """            } else if config.tal_reject_invalid && !config.offline_validation {
                Err(anyhow!(""")]
FILES = ["kslib", "kv.py"]


def GEN(d):
    import seedgen
    x = seedgen.x
    far = ("A", 1, 0, "")
    seedgen.hist(d, [x(1, far, 0, tals=1, reject=True), x(2, far, 600, tals=3, reject=True), x(3, far, 1200, tals=3, reject=True, offline=True),
                     x(4, far, 5000, tals=3, offline=True)])


DEMO = """
from kv import *
r, hist = hist_runner()
out, logs = r.history("a", hist)
for k, x in enumerate(out):
    o = x["obs"]
    print(k, o["rc"], o["published"], o["rep"])
    want = not o["rep"]["seen"] and x["reject"]
    check((o["rc"] != 0) == want and (o["published"] == x["own"]["n"]) == (not want), "run %d: %s" % (k, logs[k]))
ok()
"""
