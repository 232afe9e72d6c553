PROP = "C18"
NEEDS = "two pre-validation scripts of which an earlier one fails and the last one succeeds, with rejection enabled"
BREAKS = "only the result of the last pre-validation script counts"
EDITS = [("src/process.rs", """                if output.status.success() {
                    info!(""", """                issues = !output.status.success();
                if !issues {
                    info!("""),
         ("src/process.rs", """                } else {
                    issues = true;

                    error!(""", """                } else {
                    error!(""")]
DEMO = """
from ksd import *
b = Box()
for n, c in (("yes", 0), ("no", 1)):
    open(b.top + "/" + n, "w").write("#!/bin/sh\\nexit %d\\n" % c)
    os.chmod(b.top + "/" + n, 0o755)
for combo, want in ((["yes", "yes"], True), (["yes", "no"], False), (["no", "yes"], False), (["no", "no", "yes"], False)):
    b2 = Box()
    b2.publish(A, 1)
    x = []
    for s in combo:
        x += ["--pre-validate", b.top + "/" + s]
    rc = b2.run("--tal-reject-invalid", *x)
    check("Usage" not in b2.out, b2.out)
    pub = os.path.exists(b2.rrdp + "/notification.xml")
    check(pub == want and (rc == 0) == want, "%s: published %s rc %s %s" % (combo, pub, rc, b2.out))
ok()
"""
