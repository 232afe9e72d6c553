PROP = "C25"
NEEDS = "the rsync state file is lost while revisions are published, and the next run fails while it writes the new revision"
BREAKS = "without a saved state all revision directories are removed, also the one that `current' leads to"
EDITS = [("src/rsync.rs", """            Ok(RsyncDirState {
                current: None,
                old: vec![],
            })
        }
    }
""", """            // There is no record of what is here: leftovers that nobody will clean up.
            for entry in std::fs::read_dir(&config.rsync_dir).into_iter().flatten().flatten() {
                if entry.file_name().to_string_lossy().starts_with("session_") {
                    std::fs::remove_dir_all(entry.path())?;
                }
            }

            Ok(Self::default())
        }
    }
"""), ("src/rsync.rs", """#[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
struct RsyncDirState {""", """#[derive(Clone, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
struct RsyncDirState {""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
was = b.current()
for f in os.listdir(b.state):
    if os.path.isfile(b.state + "/" + f):
        os.unlink(b.state + "/" + f)
b.publish(A, 2, [2], objs={"rsync://rsync.example/repo/x": b"file", "rsync://rsync.example/repo/x/y": b"below a file"})
b.run()
now = b.current()
check(now == was, "rsync current is gone")
b.publish(A, 3, [3])
check(b.run() == 0, "last run: " + b.out)
check(set(b.current()) == {"a/x3.bin", "same.bin"}, "content")
ok()
"""
