PROP = "C14"
NEEDS = "a certificate without a base name, as in rsync://host/repo/x/.cer"
BREAKS = "its file keeps the time of the run, since a hidden file has no extension"
EDITS = [("src/rsync.rs", """    let time = if path_str.ends_with(".cer") {""", """    let time = if path.extension().is_some_and(|ext| ext == "cer") {""")]
DEMO = """
from ksd import *
obj = open("test-resources/validation/good/ta.cer", "rb").read()
b = Box()
b.publish(A, 1, objs={"rsync://rsync.example/repo/ta.cer": obj, "rsync://rsync.example/repo/x/.cer": obj})
check(b.run() == 0, "run")
t1, t2 = (os.stat(b.rsync + "/current/" + p).st_mtime for p in ("ta.cer", "x/.cer"))
check(t1 == t2, "times %s %s" % (t1, t2))
ok()
"""
