PROP = "C11"
NEEDS = "a kill, or a client, between the removal and the renewal of the link"
BREAKS = "`current` is removed before the new link is put in place"
EDITS = [("src/rsync.rs", """    std::fs::rename(&tmp_name, &current_path).with_context(|| {
""", """    if current_path.is_symlink() {
        let _ = std::fs::remove_file(&current_path);
    }

    std::fs::rename(&tmp_name, &current_path).with_context(|| {
""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
for k in range(1, 200):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2])
    rc = b.run(env=dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.rsync, KILL_AT=str(k)))
    check(rc in (0, -9), "run with kill: %s" % rc)
    check(os.path.isdir(b.rsync + "/current"), "no current directory after a kill at operation %d" % k)
    shutil.rmtree(b.top)
    if rc == 0:
        ok("%d kill points" % k)
"""
