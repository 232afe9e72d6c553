PROP = "C20"
NEEDS = "a delta that withdraws an object with another hash than that of the cached object"
BREAKS = "a withdrawal that does not apply cleanly is skipped rather than leading to the snapshot"
EDITS = [("src/validation/validator.rs", """                                return Err(anyhow!(format!(
                                    "existing object at {uri} does not match withdraw hash"
                                )));""", """                                debug!("existing object at {uri} does not match withdraw hash");
                                continue;""")]
FILES = ["kslib", "kv.py"]


def GEN(d):
    import seedgen
    x = seedgen.x
    seedgen.hist(d, [x(1, ("A", 2, 1, ""), 0)] + [x(k - 1, ("A", k, 1, "deltabase"), 3700 * k) for k in range(3, 7)])


DEMO = """
from kv import *
r, hist = hist_runner()
for how in (0, 1, 2):
    base = vhist.HistRunner.other_base
    r.other_base = lambda old, new, x: base(old, new, how)
    out, logs = r.history("a", hist)
    for k, x in enumerate(out):
        o = x["obs"]
        check(o["rc"] == 0 and o["found"] and o["has"], "run %d: %s" % (k, logs[k]))
        check(dict(s=x["far"]["s"], n=x["far"]["n"]) in o["cached"], "kind %d run %d: the cache is not the snapshot: %s" % (how, k, o["cached"]))
ok()
"""
