PROP = "C15"
NEEDS = "two runs at the same time"
BREAKS = "the lock is released right after it was taken"
EDITS = [("src/main.rs", """    let _lock_file = lock(&config)?;
""", """    let _ = lock(&config)?;
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
p = b.popen("--rrdp-notify-delay", "6")
for i in range(100):
    if os.path.islink(b.rsync + "/current"):
        break
    time.sleep(0.05)
time.sleep(0.3)
rc = b.run()
check(rc != 0, "a second run during the first one was not refused")
p.communicate()
check(p.returncode == 0, "first run")
check(b.run() == 0, "later run")
ok()
"""
