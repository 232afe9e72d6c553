PROP = "C22"
NEEDS = "a server whose certificate is trusted but for another host"
BREAKS = "host names in certificates are not checked"
EDITS = [("src/fetch.rs", """                    .danger_accept_invalid_hostnames(mode.accept_insecure())""",
          """                    .danger_accept_invalid_hostnames(matches!(mode, FetchMode::Insecure | FetchMode::Strict))""")]
FILES = ["srv.py"]
DEMO = """
from ksd import *
from srv import Web
for name, want in (("localhost", True), ("other.example", False)):
    b = Box()
    w = Web(b, name=name)
    b.publish(A, 1)
    rc = b.run(base="none", env=dict(SSL_CERT_FILE=w.crt))
    check((rc == 0) == want, "certificate for %s: rc=%s %s" % (name, rc, b.out))
ok()
"""
