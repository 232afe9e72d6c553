PROP = "C25"
NEEDS = "the saved state is damaged while the source cannot be fetched"
BREAKS = "on a state file that cannot be read the published RRDP files are removed before there is anything to replace them"
EDITS = [("src/process.rs", """        RrdpState::recover(&config.rrdp_state_path())?.reconfigure(config)?
    } else {
""", """        match RrdpState::recover(&config.rrdp_state_path()) {
            Ok(state) => state.reconfigure(config)?,
            Err(e) => {
                error!("Saved state is unusable, starting anew: {:#}", e);
                if config.rrdp_dir.exists() {
                    std::fs::remove_dir_all(&config.rrdp_dir)?;
                }
                RrdpState::create(config)?
            }
        }
    } else {
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
for f in os.listdir(b.state):
    p = b.state + "/" + f
    if os.path.isfile(p) and f.endswith(".json"):
        os.truncate(p, os.path.getsize(p) // 2)
os.rename(b.src + "/notification.xml", b.src + "/away")
check(b.run() != 0, "no notification file at the source")
check(os.path.exists(b.rrdp + "/notification.xml") and b.intact(), "what was published is gone")
ok()
"""
