PROP = "C10"
NEEDS = "a disk that is full (or an I/O error) when a small file such as the notification file is written"
BREAKS = "files are written through a buffer whose write errors are dropped: the run reports success and publishes an incomplete file"
EDITS = [("src/file_ops.rs", """    create_file(file_path)?
        .write_all(buf)""", """    std::io::BufWriter::new(create_file(file_path)?)
        .write_all(buf)""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
for k in range(1, 200):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2])
    rc = b.run(env=dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.work, FAIL_AT=str(k), KILL_COUNT=b.top + "/n"))
    os.chmod(b.top, 0o777)
    if rc == 0:
        check(b.notif()["n"] == 2 and b.intact(), "success reported, but not published (operation %d failed)" % k)
        st = b.state + "/rrdp-state.json"
        check(os.path.getsize(st) > 100, "success reported, but the state is incomplete (operation %d failed)" % k)
        check(all(v for v in b.current().values()), "success reported, but an object is incomplete (operation %d failed)" % k)
    shutil.rmtree(b.top)
    if k > 60:
        break
ok()
"""
