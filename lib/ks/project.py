"""Projection of raw observations to the events of the specification."""
import uuid
import os
import xml.etree.ElementTree as ET

from . import world as W
from .net import FINE

NSQ = "{%s}" % W.NS


def parse_notif(data, base_uri, reg, off=0):
    """Notification bytes -> record of the specification (ok FALSE if broken)."""
    bad = dict(ok=False, s="", n=0, sp="", sc="", ds=[])
    try:
        root = ET.fromstring(data)
        if root.tag != NSQ + "notification" or root.get("version") != "1":
            return bad
        s = W.SESS_OF_UUID.get(root.get("session_id").lower()) or str(uuid.UUID(root.get("session_id")))

        def ser(x):
            # numbers that TLC can deal with
            return max(-10 ** 9, min(10 ** 9, int(x) - off))
        n = ser(root.get("serial"))
        snaps = root.findall(NSQ + "snapshot")
        if len(snaps) != 1 or not s:
            return bad

        uris = [snaps[0].get("uri")] + [d.get("uri") for d in root.findall(NSQ + "delta")]
        if not all(u.lower().startswith("https://") for u in uris):
            return bad

        def rel(u):
            if u.startswith(base_uri) and len(u) > len(base_uri):
                return u[len(base_uri):]
            return "!" + u

        def cid(h):
            return reg.get(h.lower(), "?" + h.lower()[:16])
        ds = []
        for d in root.findall(NSQ + "delta"):
            ds.append(dict(n=ser(d.get("serial")), p=rel(d.get("uri")), c=cid(d.get("hash"))))
        return dict(ok=True, s=s, n=n, sp=rel(snaps[0].get("uri")), sc=cid(snaps[0].get("hash")), ds=ds)
    except Exception:
        return bad


# exit statuses of runs that did not end by themselves, or by a signal
HANG, CRASH = 1000, 1001


class Projector:
    def __init__(self, reg, sandbox, off=0):
        self.regmap = reg
        self.off = off              # of serial numbers
        self.sb = sandbox
        self.ncache = {}

    def reg(self, sha):
        return self.regmap.get(sha, "?" + sha[:16])

    def blob(self, sha):
        if not os.path.exists(os.path.join(self.sb.blobs, sha)):
            return b""
        with open(os.path.join(self.sb.blobs, sha), "rb") as f:
            return f.read()

    def src_event(self, w, src):
        """The abstract source record for a descriptor."""
        files = w.files(src)
        reg = w.reg
        nb = files.get(w.nname)
        nt = parse_notif(nb, w.base_uri(), reg, w.off) if nb is not None else None
        av, junk = [], []
        for p, b in sorted(files.items()):
            c = reg.get(W.sha(b), "?" + W.sha(b)[:16])
            if p != w.nname:
                av.append([p, c])
                if c.startswith("S!") or c.startswith("D!"):
                    if "!hash" not in c:
                        junk.append(c)
        if nt is not None and len(nt["ds"]) > 1000 and src.get("bad"):
            nt = None               # nothing that could be published
        if nt is None:
            nt = dict(ok=False, s=src["sess"], n=src["ser"], sp="", sc="", ds=[])
        v = dict(w=w.wid, ok=nt["ok"], s=nt["s"], n=nt["n"], sp=nt["sp"], sc=nt["sc"], ds=nt["ds"],
                 av=av, junk=sorted(set(junk)),
                 foreign=sorted({p for p in [nt["sp"]] + [d["p"] for d in nt["ds"]]
                                 if p.startswith("!")}),
                 odd=sorted({p for p in [nt["sp"]] + [d["p"] for d in nt["ds"]]
                             if not p.startswith("!") and hostile_path(p)}),
                 net=net_of(w, src),
                 revdirs=["session_%s_serial_%d%s" % (W.UUIDS.get(nt["s"], nt["s"]), nt["n"] + w.off, x)
                          for x in ("", "_host")])
        return dict(t="src", v=v)

    def cfg_event(self, cfg):
        v = {k: cfg[k] for k in ("clean", "delay", "rsync", "host", "rdir", "sdir", "nname", "uhost", "base")}
        v["via"], v["insecure"], v["net"] = cfg["via"], cfg["insecure"], cfg["net"]
        if cfg["via"] == "file":
            v["sbase"] = "file:" + (cfg["sbase"].strip("/") + "/" if cfg["sbase"].strip("/") else "")
            v["shost"] = ""
        elif cfg["via"] == "base":
            v["sbase"] = cfg["sbase"]
            v["shost"] = cfg["sbase"].split("/")[2].split(":")[0]
        else:
            v["sbase"] = ""
            v["shost"] = cfg["uhost"].split(":")[0]
        v["lim"] = -1 if cfg["lim"] is None else cfg["lim"]
        # directories that follow the state directory
        if not v["rdir"]:
            v["rdir"] = "state/rrdp"
        if not v["sdir"]:
            v["sdir"] = "state/rsync"
        return dict(t="cfg", v=v)

    def split(self, path, areas):
        rel = os.path.relpath(path, self.sb.work)
        for a in areas["rrdp"]:
            if rel == a or rel.startswith(a + "/"):
                return a, "", rel[len(a) + 1:]
        for a in areas["rsync"]:
            if rel == a:
                return a, "", ""
            if rel.startswith(a + "/"):
                parts = rel[len(a) + 1:].split("/", 1)
                return a, parts[0], parts[1] if len(parts) > 1 else ""
        parts = rel.split("/", 1)
        return parts[0], "", parts[1] if len(parts) > 1 else ""

    def change(self, path, ent, areas, base_uri):
        """-> (change, notif change or None, link change or None)"""
        a, s, r = self.split(path, areas)
        n = l = None
        if ent is None:
            c = ""
        elif ent["t"] == "d":
            c = "d"
        elif ent["t"] == "l":
            c = "l"
        elif ent["t"] == "f":
            c = self.reg(ent["sum"])
        else:
            c = "x"
        if a in areas["rrdp"] and "/" not in r and r in areas["names"]:
            if ent is None or ent["t"] != "f":
                n = [a, r, dict(ok=False, s="", n=-1, sp="", sc="", ds=[])]
            else:
                k = (ent["sum"], base_uri)
                if k not in self.ncache:
                    self.ncache[k] = parse_notif(self.blob(ent["sum"]), base_uri, self.regmap, self.off)
                n = [a, r, self.ncache[k]]
                c = "N:" + ent["sum"][:16]
        if a in areas["rsync"] and s == "current" and r == "":
            if ent is None:
                l = [a, ""]
            elif ent["t"] == "l":
                t = ent["sum"]
                full = os.path.normpath(os.path.join(self.sb.work, a, t))
                top = os.path.join(self.sb.work, a)
                if os.path.dirname(full) == top:
                    l = [a, os.path.basename(full)]
                else:
                    l = [a, "!" + t]
            else:
                l = [a, "current"]
        return [a, s, r, c], n, l

    def outside(self, rec):
        if rec["op"] == "stat":
            return False
        for p in (rec["p"], rec["q"]):
            if p and not (p == self.sb.work or p.startswith(self.sb.work + "/")):
                return True
        return False

    def closed(self, path, ent, areas, umask):
        """The entry, if it cannot be read by all whom the umask would allow to"""
        if ent is None or ent["t"] not in "fd":
            return None
        need = (0o444 if ent["t"] == "f" else 0o555) & ~umask
        if int(ent["mode"], 8) & need == need:
            return None
        return list(self.split(path, areas))

    def intruder(self, rc, recs, cfg, areas):
        """Another instance, started while a run is paused."""
        cs = []
        base_uri = "https://%s/%s" % (cfg["uhost"], cfg["base"])
        top = os.path.join(self.sb.work, "state")
        for r in recs:
            if r["k"] == "O":
                for p, ent in r["d"]:
                    if not is_lock(p, top):
                        cs.append(self.change(p, ent, areas, base_uri)[0])
        return dict(t="intr", v=rc, c=cs)

    def request_event(self, recs, netlog):
        """What was read of the source, in order; and which hosts were contacted"""
        locs = []
        for r in recs:
            if r["k"] == "R" and r["op"] == "open" and (r["p"] + "/").startswith(self.sb.src + "/"):
                locs.append("file:" + r["p"][len(self.sb.src) + 1:])
        for x in netlog:
            if x[0] == "req":
                locs.append("https://%s%s" % (x[1], x[2]))
        hosts = {x[1] for x in netlog if x[0] == "tls"} | {r["host"] for r in recs if r["k"] == "G"}
        return dict(t="req", v=locs, h=sorted(hosts))

    def events(self, recs, cfg, areas, status, now0, others=(), netlog=None):
        """Raw records of one run -> (events, clock at the end)"""
        base_uri = "https://%s/%s" % (cfg["uhost"], cfg["base"])
        evs = []
        if cfg["net"]:
            evs.append(self.request_event(recs, netlog or []))
        now = now0
        for r in recs:
            if r["k"] == "S":
                evs.append(dict(t="tick", v=r["secs"]))
                now = r["now"]
            elif r["k"] == "O":
                out = self.outside(r)
                if not r["d"] and not out:
                    continue
                cs, ns, ls, ms = [], [], [], []
                for p, ent in r["d"]:
                    m = self.closed(p, ent, areas, cfg.get("umask", 0o022))
                    if m:
                        ms.append(m)
                    c, n, l = self.change(p, ent, areas, base_uri)
                    cs.append(c)
                    if n:
                        ns.append(n)
                    if l:
                        ls.append(l)
                e = dict(t="fs", c=cs)
                if ns:
                    e["n"] = ns
                if ls:
                    e["l"] = ls
                if ms:
                    e["m"] = ms
                if out:
                    e["out"] = 1
                evs.append(e)
            elif r["k"] == "P":
                evs += [self.intruder(*o, areas) for o in others]
        if status == "killed":
            evs.append(dict(t="kill"))
        else:
            rc = status if isinstance(status, int) else HANG if status == "timeout" else CRASH
            evs.append(dict(t="exit", v=rc, empty=self.empties(areas)))
        return evs, now

    def times_event(self, areas):
        """The modification times of all files in rsync revision directories."""
        v = []
        for a in areas["rsync"]:
            top = os.path.join(self.sb.work, a)
            for rev in sorted(os.listdir(top)) if os.path.isdir(top) else ():
                if os.path.islink(os.path.join(top, rev)):
                    continue
                for d, _, fsn in os.walk(os.path.join(top, rev)):
                    for f in fsn:
                        p = os.path.join(d, f)
                        with open(p, "rb") as h:
                            c = self.reg(W.sha(h.read()))
                        v.append([rev, "T:%s:%s" % (c, W.kind_of(p)), str(os.lstat(p).st_mtime_ns), a])
        # only the distinct ones matter; times that are just "now" must not make
        # every execution different
        return dict(t="mt", v=sorted([r, k, m if int(m) % 10 ** 9 == 0 else "now", a] for r, k, m, a in v))

    def empties(self, areas):
        out = []
        for a in areas["rrdp"]:
            top = os.path.join(self.sb.work, a)
            for d, ds, fsn in os.walk(top):
                if not ds and not fsn and d != top:
                    out.append([a, "", os.path.relpath(d, top)])
        return out


def net_of(w, src):
    """How the source's server behaves: its certificate before and after the
    notification file was requested, and the answers that are not 200."""
    n = src.get("net") or {}
    st = []
    for role, code in sorted((n.get("st") or {}).items()):
        if isinstance(code, str) and code[4:] in FINE:
            continue
        st.append([role_path(w, src, role), 0 if isinstance(code, str) else code])
    return dict(tls=n.get("tls", "good"), late=n.get("late", n.get("tls", "good")), st=st)


def role_path(w, src, role):
    if role == "notif":
        return w.nname
    if role == "snap":
        return w.snap_path(src["sess"], src["ser"])
    return w.delta_path(src["sess"], int(role.split(":")[1]))


def is_lock(p, state_dir):
    """Whatever the lock file is called."""
    return os.path.dirname(p) == state_dir and "lock" in os.path.basename(p).lower()


def hostile_path(p):
    """A path that does not name a location below the base."""
    return p.startswith("/") or any(c in ("", ".", "..") for c in p.split("/"))
