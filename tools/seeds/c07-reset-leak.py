PROP = "C07"
NEEDS = "a session reset, and a later update after the clean-up time"
BREAKS = "delta files of the previous session are never removed"
EDITS = [("src/rrdp.rs", """        for delta in &self.deltas {
            let path = self.mappings.path(delta.rel_path());
            self.deprecated_files.push(DeprecatedFile::new(path));
        }

        self.deltas = vec![];
""", """        for delta in self.deltas.drain(..).skip(1) {
            let path = self.mappings.path(delta.rel_path());
            self.deprecated_files.push(DeprecatedFile::new(path));
        }
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run(clean=1) == 0, "run 1")
b.publish(A, 2, [2])
check(b.run(clean=1) == 0, "run 2")
b.publish(B, 1)
check(b.run(clean=1) == 0, "run 3")
time.sleep(3)
b.publish(B, 2, [2])
check(b.run(clean=1) == 0, "run 4")
check(not os.path.exists(b.rrdp + "/" + A), "files of the old session are left: %s" % sorted(b.tree(b.rrdp)))
ok()
"""
