PROP = "C05"
NEEDS = "a snapshot or delta URI that starts with the base URI less its slash, like https://host/rrdp-other/..., with such a file at the source"
BREAKS = "a URI that is not under the base URI is accepted"
EDITS = [("src/rrdp.rs", """            .strip_prefix(self.base_uri.as_str())
""", """            .strip_prefix(self.base_uri.as_str().trim_end_matches('/'))
            .map(|relative| relative.trim_start_matches('/'))
"""), ("src/fetch.rs", """        match uri.strip_prefix(base_uri) {
""", """        match uri
            .strip_prefix(base_uri.trim_end_matches('/'))
            .map(|rel| rel.trim_start_matches('/'))
        {
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "run 1")
before = b.tree(b.rrdp)
b.publish(A, 2, uris=dict(snapshot="https://src.example/rrdp-other/%s/2/snapshot.xml" % A))
b.put("-other/%s/2/snapshot.xml" % A, b.snapshot(A, 2))
check(b.run() != 0, "a snapshot from outside the base URI is accepted")
check(b.tree(b.rrdp) == before, "published files changed")
ok()
"""
