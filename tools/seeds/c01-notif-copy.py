PROP = "C01"
NEEDS = "a reader, or a kill, in the middle of the replacement of the notification file"
BREAKS = "the new notification file is copied over the published one instead of renamed: a reader sees an incomplete file"
EDITS = [("src/rrdp.rs", """        fs::rename(&path_tmp, &path_final).with_context(|| {
            format!(
                "Could not rename {} to {}",
                path_tmp.display(),
                path_final.display()
            )
        })?;
""", """        fs::copy(&path_tmp, &path_final)
            .and_then(|_| fs::remove_file(&path_tmp))
            .with_context(|| {
                format!(
                    "Could not move {} to {}",
                    path_tmp.display(),
                    path_final.display()
                )
            })?;
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
# a client has the notification file open while it is replaced
f = open(b.rrdp + "/notification.xml", "rb")
before = open(b.rrdp + "/notification.xml", "rb").read()
b.publish(A, 2, [2])
check(b.run() == 0, "second run")
check(f.read() == before, "the file that the client had open was modified in place")
check(b.notif()["n"] == 2, "update")
ok()
"""
