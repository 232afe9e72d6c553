PROP = "C10"
NEEDS = "a write that the file system cuts short (disk nearly full)"
BREAKS = "the rest of the data is silently dropped and the run reports success"
EDITS = [("src/file_ops.rs", """    create_file(file_path)?
        .write_all(buf)
        .with_context(|| format!("Cannot write file {}", file_path.display()))?;
""", """    create_file(file_path)?
        .write(buf)
        .with_context(|| format!("Cannot write file {}", file_path.display()))?;
""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
for k in range(1, 200):
    b = Box()
    b.publish(A, 1)
    cnt = b.work + "/n"
    env = dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.work, SHORT_AT=str(k), KILL_COUNT=cnt)
    rc = b.run(env=env)
    n = int(open(cnt).read())
    if rc == 0:
        check(b.intact(), "success, but the RRDP files are damaged (short write %d)" % k)
        check(b.current() == {"a/x1.bin": b"object %s 1" % A.encode(), "same.bin": b"always the same"},
              "success, but the rsync files are damaged (short write %d)" % k)
        check(b.run() == 0, "the next run")
    shutil.rmtree(b.top)
    if k > n:
        ok("%d writes" % k)
"""
