PROP = "C21"
NEEDS = "a configuration change of the notification URI in which only the name of the file differs"
BREAKS = "the notification file is still published under its previous name"
EDITS = [("src/rrdp.rs", """        if self.notification_source.uri == config.notification_uri && self.mappings == mappings {
""", """        if self.mappings == mappings {
""")]
DEMO = """
from ksd import *
b = Box()
b.publish(A, 1)
check(b.run() == 0, "first run")
b.publish(A, 2, [2])
os.rename(b.src + "/notification.xml", b.src + "/other.xml")
p = subprocess.run(b.args()[:-1] + ["https://%s/rrdp/other.xml" % b.host], user=65534, group=65534, extra_groups=[],
                   env={"PATH": "/usr/bin:/bin"}, cwd=b.work, capture_output=True)
check(p.returncode == 0, "second run: %s" % p.stderr)
check(os.path.exists(b.rrdp + "/other.xml"), "no notification file under its new name")
os.replace(b.rrdp + "/other.xml", b.rrdp + "/notification.xml")
check(b.notif()["n"] == 2 and b.intact(), "content")
ok()
"""
