PROP = "C15"
NEEDS = "three instances: one that has opened the lock file but not locked it yet when another one ends, and a third one that starts then"
BREAKS = "the lock file is removed at the end of a run, so two instances can hold locks on different files"
EDITS = [("src/main.rs", """    process(&config)
}""", """    let result = process(&config);
    let _ = std::fs::remove_file(config.lock_file());
    result
}""")]
FILES = ["holder.c"]
DEMO = """
from ksd import *
import signal
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
def held(env):
    f = b.work + "/flag-" + env
    p = b.popen(env={"LD_PRELOAD": b.shim("holder"), env: f, "HOLD_ROOT": b.rrdp})
    for i in range(1000):
        if os.path.exists(f):
            return p
        time.sleep(0.01)
    check(False, "not stopped")
late = held("HOLD_LOCK")           # has opened the lock file
check(b.run() == 0, "a run meanwhile")
b.publish(A, 2, [2])
other = held("HOLD_RENAME")        # in the middle of its update
late.send_signal(signal.SIGCONT)
out = late.communicate(timeout=60)[0].decode()
other.send_signal(signal.SIGCONT)
other.communicate(timeout=60)
check(late.returncode != 0 and other.returncode == 0, "two instances ran at the same time: %s %s %s" % (late.returncode, other.returncode, out))
check(b.run() == 0 and b.intact(), "afterwards")
ok()
"""
