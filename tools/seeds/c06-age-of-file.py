PROP = "C06"
NEEDS = "a snapshot that was published for longer than the clean-up time before it is replaced, and two quick updates after that"
BREAKS = "the grace time of a replaced snapshot is counted from its installation rather than from its replacement"
EDITS = [("src/rrdp.rs", """            self.deprecated_files.push(DeprecatedFile::new(old_path));
        }

        // update snapshot info""", """            let mut deprecated = DeprecatedFile::new(old_path);
            if let Some(old) = &self.snapshot {
                deprecated.since = old.since;
            }
            self.deprecated_files.push(deprecated);
        }

        // update snapshot info""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run(clean=4) == 0, "first run")
time.sleep(5)
for n in (2, 3):
    b.publish(A, n, [n])
    check(b.run(clean=4) == 0, "update %d" % n)
check(os.path.exists(b.rrdp + "/%s/1/snapshot.xml" % A), "snapshot 1 was replaced just now but is gone")
ok()
"""
