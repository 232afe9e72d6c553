PROP = "C21"
NEEDS = "only the state directory is given, and rsync is disabled"
BREAKS = "the RRDP directory does not follow the state directory"
EDITS = [("src/config.rs", """    if config.state_dir != Path::new(DEFAULT_STATE_DIR) {
""", """    if config.state_dir != Path::new(DEFAULT_STATE_DIR) && config.rsync_enabled() {
""")]
DEMO = """
from ksd import *
for extra in ([], ["--rsync-disable"], ["--rsync-include-host"]):
    b = Box()
    b.publish(A, 1)
    # an unprivileged user: it cannot write to the system's default directory
    check(b.run(*extra, rrdp=False, rsync=False) == 0, "run with %s: %s" % (extra, b.out))
    check(os.path.exists(b.state + "/rrdp/notification.xml"), "nothing below the state directory with %s" % extra)
ok()
"""
