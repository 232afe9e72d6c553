PROP = "C14"
NEEDS = "a kill after an object was written and before its time was set, and a later run for the same revision"
BREAKS = "the object keeps the time at which it was written, for as long as the revision is used"
EDITS = [("src/rsync.rs", """            })?;
        }

        fix_since(&path, &bytes);

        Ok(())""", """            })?;
            fix_since(&path, &bytes);
        }

        Ok(())""")]
FILES = ["killer.c"]
DEMO = """
from ksd import *
obj = open("test-resources/validation/good/ta.cer", "rb").read()
want = None
for k in range(0, 200):
    b = Box()
    b.publish(A, 1)
    check(b.run() == 0, "first run")
    b.publish(A, 2, [2], objs={"rsync://rsync.example/repo/ta.cer": obj})
    rc = b.run(env=dict(LD_PRELOAD=b.shim("killer"), KILL_ROOT=b.rsync, KILL_AT=str(k)) if k else None)
    check(rc in (0, -9), "run: %s" % rc)
    check(b.run() == 0, "the run after it")
    t = os.stat(b.rsync + "/current/ta.cer").st_mtime
    want = want or t
    check(t == want, "killed at %d: time %s, not %s" % (k, t, want))
    if k and rc == 0:
        ok("%d kill points" % k)
    shutil.rmtree(b.top)
"""
