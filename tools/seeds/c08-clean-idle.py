PROP = "C08"
NEEDS = "files that expire while the source does not change"
BREAKS = "a run that finds nothing new removes files from the RRDP directory"
EDITS = [("src/process.rs", """            debug!("No changes in RRDP content found");
            return Ok(());
""", """            debug!("No changes in RRDP content found");
            let expired = rrdp_state.take_expired(config);
            if !expired.is_empty() {
                rrdp_state.clean(expired)?;
                rrdp_state.persist(&config.rrdp_state_path())?;
            }
            return Ok(());
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run(clean=1) == 0, "run 1")
b.publish(A, 2, [2])
check(b.run(clean=1) == 0, "run 2")
before = b.tree(b.rrdp)
time.sleep(3)
check(b.run(clean=1) == 0, "run 3")
check(b.tree(b.rrdp) == before, "a run without an update changed the RRDP directory")
ok()
"""
