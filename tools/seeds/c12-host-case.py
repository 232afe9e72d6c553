PROP = "C12"
NEEDS = "objects below a host name with capital letters and the host option"
BREAKS = "the objects end up below another directory than their URI says"
EDITS = [("src/rsync.rs", """                uri.authority(),
                uri.module_name(),
                uri.path()
""", """                uri.authority().to_ascii_lowercase(),
                uri.module_name(),
                uri.path()
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1, objs={"rsync://RPKI.example/Repo/x.bin": b"1", "rsync://rpki2.example/repo/y.bin": b"2"})
check(b.run("--rsync-include-host") == 0, "run")
check(b.current() == {"RPKI.example/Repo/x.bin": b"1", "rpki2.example/repo/y.bin": b"2"}, "content %s" % sorted(b.current()))
ok()
"""
