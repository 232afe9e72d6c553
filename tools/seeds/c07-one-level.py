PROP = "C07"
NEEDS = "the last file of a session expires, so that its directory's parent is emptied too"
BREAKS = "only the directory of an expired file is removed if empty, not the directories above it"
EDITS = [("src/file_ops.rs", """    if let Some(parent) = path.parent() {
        let _ = remove_file_and_empty_parent_dirs(parent);
    }""", """    if let Some(parent) = path.parent() {
        let _ = std::fs::remove_dir(parent);
    }""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run(clean=0) == 0, "first run")
for n in (1, 2, 3):
    b.publish(B, n)
    check(b.run(clean=0) == 0, "update %d" % n)
    time.sleep(1.1)
check(not os.path.exists(b.rrdp + "/%s/1/snapshot.xml" % A), "the file should be gone")
check(not os.path.exists(b.rrdp + "/" + A), "the emptied directory of the old session is still there")
ok()
"""
