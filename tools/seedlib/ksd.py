"""Small helper for the demonstrations: a source of RRDP data and runs of the
krill-sync binary in a scratch directory, as an unprivileged user."""
import base64, hashlib, os, shutil, subprocess, sys, tempfile, time, atexit

BIN = os.environ.get("KS_BIN", os.path.join(os.getcwd(), "target/debug/krill-sync"))
NOBODY = 65534
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
NS = "http://www.ripe.net/rpki/rrdp"
A = "aaaaaaaa-0000-4000-8000-000000000001"
B = "bbbbbbbb-0000-4000-8000-000000000002"


def sha(b):
    return hashlib.sha256(b).hexdigest()


class Box:
    def __init__(self, **opt):
        self.top = tempfile.mkdtemp(prefix="ksd-")
        os.chmod(self.top, 0o755)
        atexit.register(shutil.rmtree, self.top, True)
        self.bin = self.top + "/krill-sync"
        shutil.copy(BIN, self.bin)
        os.chmod(self.bin, 0o755)
        self.src = self.top + "/src"
        self.work = self.top + "/work"
        for d in (self.src, self.work):
            os.makedirs(d)
            os.chown(d, NOBODY, NOBODY)
        self.rrdp = self.work + "/rrdp"
        self.rsync = self.work + "/rsync"
        self.state = self.work + "/state"
        self.host = "src.example"

    # -- the source
    def objects(self, s, n):
        return {"rsync://rsync.example/repo/a/x%d.bin" % n: ("object %s %d" % (s, n)).encode(),
                "rsync://rsync.example/repo/same.bin": b"always the same"}

    def snapshot(self, s, n, objs=None):
        x = '<snapshot xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, s, n)
        for u, d in sorted((objs or self.objects(s, n)).items()):
            x += '<publish uri="%s">%s</publish>' % (u, base64.b64encode(d).decode())
        return (x + "</snapshot>").encode()

    def delta(self, s, n):
        old, new = self.objects(s, n - 1), self.objects(s, n)
        x = '<delta xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, s, n)
        for u in sorted(new):
            if u not in old:
                x += '<publish uri="%s">%s</publish>' % (u, base64.b64encode(new[u]).decode())
        for u in sorted(old):
            if u not in new:
                x += '<withdraw uri="%s" hash="%s"/>' % (u, sha(old[u]))
        return (x + "</delta>").encode()

    def put(self, rel, data):
        p = os.path.join(self.src, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        return sha(data)

    def publish(self, s, n, deltas=(), objs=None, uris=None):
        """The source now serves revision n of session s with these deltas."""
        base = "https://%s/rrdp/" % self.host
        sp = "%s/%d/snapshot.xml" % (s, n)
        h = self.put(sp, self.snapshot(s, n, objs))
        x = '<notification xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, s, n)
        x += '<snapshot uri="%s" hash="%s"/>' % ((uris or {}).get("snapshot", base + sp), h)
        for k in deltas:
            dp = "%s/%d/delta.xml" % (s, k)
            h = self.put(dp, self.delta(s, k))
            x += '<delta serial="%d" uri="%s" hash="%s"/>' % (k, (uris or {}).get(k, base + dp), h)
        self.put("notification.xml", (x + "</notification>").encode())

    # -- runs
    def args(self, *extra, rrdp=True, rsync=True, clean=3600, base=None):
        a = [self.bin, "--state-dir", self.state]
        if rrdp:
            a += ["--rrdp-dir", self.rrdp]
        if rsync:
            a += ["--rsync-dir", self.rsync]
        a += ["--cleanup-after", str(clean)]
        if base != "none":
            a += ["--source-uri-base", base or self.src]
        return a + list(extra) + ["--", "https://%s/rrdp/notification.xml" % self.host]

    def popen(self, *extra, env=None, **kw):
        return subprocess.Popen(self.args(*extra, **kw), user=NOBODY, group=NOBODY, extra_groups=[],
                                env=dict({"PATH": "/usr/bin:/bin", "TZ": "UTC"}, **(env or {})),
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.work)

    def run(self, *extra, **kw):
        p = self.popen(*extra, **kw)
        self.out = p.communicate(timeout=60)[0].decode(errors="replace")
        return p.returncode

    def shim(self, name):
        so = self.top + "/" + name + ".so"
        if not os.path.exists(so):
            subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", so, HERE + "/" + name + ".c", "-ldl"], check=True)
            os.chmod(so, 0o755)
        return so

    def tree(self, top):
        r = {}
        for d, ds, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                r[os.path.relpath(p, top)] = open(p, "rb").read() if not os.path.islink(p) else b"->" + os.readlink(p).encode()
            for x in ds:
                p = os.path.join(d, x)
                if os.path.islink(p):
                    r[os.path.relpath(p, top)] = b"->" + os.readlink(p).encode()
        return r

    def current(self):
        return self.tree(os.path.realpath(self.rsync + "/current"))

    def notif(self):
        import xml.etree.ElementTree as ET
        r = ET.parse(self.rrdp + "/notification.xml").getroot()
        t = "{%s}" % NS
        sn = r.find(t + "snapshot")
        return dict(s=r.get("session_id"), n=int(r.get("serial")), snap=(sn.get("uri"), sn.get("hash")),
                    deltas={int(d.get("serial")): (d.get("uri"), d.get("hash")) for d in r.findall(t + "delta")},
                    count=len(r.findall(t + "delta")))

    def intact(self):
        n = self.notif()
        base = "https://%s/rrdp/" % self.host
        for u, h in [n["snap"]] + list(n["deltas"].values()):
            p = self.rrdp + "/" + u[len(base):]
            if not os.path.isfile(p) or sha(open(p, "rb").read()) != h:
                return False
        return True


def check(cond, what):
    if not cond:
        print("FAILED: " + what)
        sys.exit(1)


def ok(what="ok"):
    print(what)
    sys.exit(0)
