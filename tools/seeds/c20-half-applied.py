PROP = "C20"
NEEDS = "a delta that fails half way and a snapshot that cannot be fetched either"
BREAKS = "the data of a repository is kept although deltas were applied to it in part only"
EDITS = [("src/validation/validator.rs", """will remove content. Reason: {e}");
                                            self.data.remove(&notify_uri_string);""",
          """will keep content for now. Reason: {e}");""")]
FILES = ["kslib", "kv.py"]


def GEN(d):
    import seedgen
    x = seedgen.x
    seedgen.hist(d, [x(1, ("A", 2, 1, ""), 0), x(2, ("A", 4, 2, "deltabase"), 3700), x(3, ("A", 4, 2, ""), 8000)])


DEMO = """
from kv import *
r, hist = hist_runner()
for how in ("gone", "ok"):
    serve = valid.Runner.__dict__["serve"] if False else r.serve_far
    def far(h, k, f):
        vhist.HistRunner.serve_far(r, h, k, f)
        if k == 1 and how == "gone":
            for u in [u for u in r.files if u.startswith("https://other.example/") and u.endswith("/4/snapshot.xml")]:
                del r.files[u]
    r.serve_far = far
    for h in ("a", "b", "c", "d"):
        out, logs = r.history(h, hist)
        for k, x in enumerate(out):
            o = x["obs"]
            check(o["rc"] == 0 and o["found"], "run %d: %s" % (k, logs[k]))
            want = not (how == "gone" and k == 1)
            now = dict(s=x["far"]["s"], n=x["far"]["n"])
            check(o["has"] == want and (not o["has"] or now in o["cached"]), "run %d: data kept %s, equal to %s" % (k, o["has"], o["cached"]))
ok()
"""
