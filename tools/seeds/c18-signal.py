PROP = "C18"
NEEDS = "a pre-validation script that is ended by a signal (out of memory, a time limit), with rejection enabled"
BREAKS = "a script without an exit status counts as successful"
EDITS = [("src/process.rs", """                if output.status.success() {
                    info!(""", """                if output.status.code().unwrap_or_default() == 0 {
                    info!(""")]
DEMO = """
from ksd import *
for how, want in (("exit 0", True), ("exit 1", False), ("kill -9 $$", False), ("kill -TERM $$", False)):
    b = Box()
    p = b.top + "/script"
    open(p, "w").write("#!/bin/sh\\n" + how + "\\n")
    os.chmod(p, 0o755)
    b.publish(A, 1)
    rc = b.run("--tal-reject-invalid", "--pre-validate", p)
    pub = os.path.exists(b.rrdp + "/notification.xml")
    check(pub == want and (rc == 0) == want, "%s: published %s rc %s %s" % (how, pub, rc, b.out))
ok()
"""
