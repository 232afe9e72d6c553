PROP = "C21"
NEEDS = "--state-dir and --rrdp-dir given, --rsync-dir not"
BREAKS = "the rsync directory does not follow the state directory"
EDITS = [("src/config.rs", """                .replace(DEFAULT_STATE_DIR, &config.state_dir);
        }
        if config.rsync_dir == Path::new(DEFAULT_RSYNC_DIR) {
            config.rsync_dir = config
                .rsync_dir
                .replace(DEFAULT_STATE_DIR, &config.state_dir);
        }
""", """                .replace(DEFAULT_STATE_DIR, &config.state_dir);
            if config.rsync_dir == Path::new(DEFAULT_RSYNC_DIR) {
                config.rsync_dir = config
                    .rsync_dir
                    .replace(DEFAULT_STATE_DIR, &config.state_dir);
            }
        }
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run(rsync=False) == 0, "run without --rsync-dir: " + getattr(b, "out", ""))
check(os.path.islink(b.state + "/rsync/current"), "rsync data is not below the state directory")
ok()
"""
