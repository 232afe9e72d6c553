"""The source world: sessions, revisions, and how a source descriptor becomes
files.  Everything is a deterministic function of the descriptor, so the same
abstract source always has the same bytes.

A source descriptor is a dict:
  sess : "A" | "B" | ...            session
  ser  : int                        serial of the notification file
  win  : sorted list of serials     deltas listed by the notification file
  bad  : None | dict                defect, see materialise()
"""
import base64
import hashlib
import os
import re

from . import der, raw

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "fixtures", "rpki")

NS = "http://www.ripe.net/rpki/rrdp"
# (they differ only at the beginning or only at the end)
UUIDS = {
    "A": "a0000000-0000-4000-8000-00000000000a",
    "B": "a0000000-0000-4000-8000-00000000000b",
    "C": "c0000000-0000-4000-8000-00000000000a",
    "D": "d0000000-0000-4000-8000-00000000000d",
}
SESS_OF_UUID = {v: k for k, v in UUIDS.items()}


def sha(b):
    return hashlib.sha256(b).hexdigest()


def fixture(name, cache={}):
    if name not in cache:
        with open(os.path.join(FIX, name), "rb") as f:
            cache[name] = f.read()
    return cache[name]


def kind_of(path):
    return "cer" if path.endswith(".cer") else "crl" if path.endswith(".crl") else "obj"


class World:
    """Contents, with a registry from content hash to symbolic content id."""

    def __init__(self, host="src.example", base="rrdp/", nname="notification.xml",
                 rich=True, multihost=False, hostile=None, off=0, style=0, bulk=None, layout=None):
        self.host = host
        self.base = base
        self.nname = nname
        self.rich = rich
        self.multihost = multihost
        self.hostile = hostile or []
        self.off = off              # serial n of the specification is n + off in the files
        self.style = style          # how XML is laid out
        self.layout = layout        # where snapshots and deltas are
        self.bulk = bulk            # [number of further objects, size of one of them]
        self.wid = sha(repr((rich, multihost, self.hostile, bulk)).encode())[:6]
        self.reg = {}
        self.cache = {}

    # -- naming ----------------------------------------------------------
    def base_uri(self):
        return "https://%s/%s" % (self.host, self.base)

    def uri(self, rel):
        return self.base_uri() + rel

    def notif_uri(self):
        return self.uri(self.nname)

    def laid(self, s, n, kind):
        x = "%s%d" % (s, n)
        return dict(
            flat="%s.xml" % x if kind == "snapshot" else "%s.xml.d" % x,
            kinds="%ss/%s.xml" % (kind, x),
            # later revisions are below earlier ones
            nested="%s/%s/%s.xml" % (s, "/".join("%d" % k for k in range(max(1, n - 8), n + 1)), kind),
            odd="x%%41/..%s/.%d/~%%2e%%2E/notification.xml%s" % (s, n, ".tmp" if kind == "snapshot" else ""),
            deep="/".join("abcdefghijklmnopqrstuvw") + "/%s/%d/%s" % (s, n, kind),
            # named like the temporary files of the notification file and the other kind
            temp=self.nname + ".tmp" if kind == "snapshot" and x == "A%d" % (2 + self.off) else "%s.xml%s" % (x, ".tmp" if kind == "delta" else ""),
            long="%s/%s%s-%s" % ("d" * 250, "f" * 200, x, kind),
        )[self.layout]

    def snap_path(self, s, n):
        n += self.off
        if self.layout:
            return self.laid(s, n, "snapshot")
        if s == "C":
            return "snapshot-C-%d.xml" % n
        return "%s/%d/%s/snapshot.xml" % (UUIDS[s], n, "r%d" % n)

    def delta_path(self, s, n):
        n += self.off
        if self.layout:
            return self.laid(s, n, "delta")
        if s == "C":
            return "deltas/C-%d.xml" % n
        return "%s/%d/%s/delta.xml" % (UUIDS[s], n, "r%d" % n)

    # -- objects ---------------------------------------------------------
    def objects(self, s, n):
        """dict uri -> bytes of the objects at revision (s, n)"""
        if s == "C" and n % 3 == 2:
            return {}
        h = "rsync://rsync.example/repo/"
        o = {}
        o[h + "ca/a.bin"] = ("a of %s %d" % (s, n)).encode()
        o[h + "ca/0/same.bin"] = b"the same in every revision"
        o[h + "ca/" + "stable.txt"] = ("stable of %s" % s).encode()
        if n % 2 == 0:
            o[h + "ca/even/e.bin"] = ("even %d" % (n // 4)).encode()
        if n % 3 != 0:
            o[h + "top.bin"] = ("top %d" % (n // 3)).encode()
        if self.rich:
            o[h + "ca/0/junk.cer"] = b"not a certificate"
            o[h + "ca/0/x.mft"] = ("not a manifest %s %d" % (s, n)).encode() * 40
        if self.multihost == "rpki":
            return self.rpki_objects(s, n)
        if self.multihost == "names":
            # unusual but valid names; objects of many sizes
            o["rsync://RSYNC.Example/Repo/ca/UPPER.Bin"] = ("upper %s %d" % (s, n)).encode()
            o[h + "ca/Case/x.bin"] = b"x in Case"
            o[h + "ca/case/x.bin"] = b"x in case"
            o[h + "ca/case/X.BIN"] = b"X in case"
            o[h + "noext"] = b"no extension"
            o[h + "ca/odd~n=a,b+c;d!e$f(g)*h:i'%/k.bin"] = b"odd characters"
            o[h + "ca/per%2fcent%2e%2e.bin"] = b"percent"
            o[h + "ca/.hidden"] = b"hidden"
            o[h + "ca/..dots../...bin"] = b"dots"
            o[h + "ca/x.tmp"] = b"a temporary name"
            o[h + "ca/empty.bin"] = b""
            o["rsync://rsync.example:8873/m-1.x/port.bin"] = b"with a port"
            o["rsync://192.0.2.7/m/v4.bin"] = b"address"
            o[h + "a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/deep.bin"] = b"deep"
            o[h + "long/" + "n" * 200 + ".bin"] = b"long name"
            for k in (1, 2, 3, 4, 57, 58, 4095, 8192, 8193, 70001):
                o[h + "size/%d.bin" % k] = bytes((i * 7 + k + n) % 256 for i in range(k))
        elif self.multihost:
            o["rsync://other.example/repo2/ca/b.bin"] = ("b of %s %d" % (s, n)).encode()
            o["rsync://rsync.example/mod2/deep/er/b.bin"] = ("b2 of %s %d" % (s, n)).encode()
        if self.bulk:
            for i in range(self.bulk[0]):
                o[h + "bulk/%d/%d.bin" % (i % 17, i)] = ("bulk %s %d %d" % (s, i, n if i % 5 == 0 else 0)).encode()
            o[h + "bulk/large.bin"] = hashlib.sha256(("large %s %d" % (s, n)).encode()).digest() * (self.bulk[1] // 32)
        for i, u in enumerate(self.hostile):
            o[u] = ("hostile %d" % i).encode()
        return o

    def rpki_objects(self, s, n):
        """Real RPKI objects, some with changed times."""
        h = "rsync://rsync.example/repo/ca/"
        fx = fixture
        o = {}
        self.timed = getattr(self, "timed", set())

        def add(name, data, ok=True, like=None):
            o[h + name] = data
            if ok:
                self.timed.add((kind_of(name), data, like or data))
        step = 86400 * n + {"A": 0, "B": 400}.get(s, 7)
        for k in ("cer", "crl", "mft", "roa"):
            kind = kind_of("x." + k)
            for i in range(3):
                add("fix/%d.%s" % (i, k), fx("%s%d.%s" % (k[0], i, k)))
            # new versions, with a later and with an earlier time
            add("later/x." + k, der.with_time(kind, fx("%s0.%s" % (k[0], k)), 1600000000 + step))
            add("earlier/x." + k, der.with_time(kind, fx("%s0.%s" % (k[0], k)), 1500000000 - step))
            # unusual times
            for j, u in enumerate((-631152000, -1, 0, 946684799, 2147483648, 2524607999, 2524608000, 4102444800, 253402300799)):
                if (j + n) % 3:
                    add("odd/%d.%s" % (j, k), der.with_time(kind, fx("%s1.%s" % (k[0], k)), u))
        # signed objects: which time counts
        r = fx("r1.roa")
        add("nosign.roa", der.with_time("ee", der.without_signing_time(r), 1234567890 + n))
        add("both.mft", der.with_binary_signing_time(der.with_time("ee", fx("m1.mft"), 1111111111), 1222222222))
        for i, x in enumerate(("asa", "gbr", "unknown", "CER", "cer.roa", "crl2", "xcer", "r.tak")):
            add("kind/%d.%s" % (i, x), der.with_time("obj", r, 1300000000 + i))
        # not in DER
        for j, k in enumerate(("roa", "mft")):
            x = der.with_time("obj", fx("%s2.%s" % (k[0], k)), 1350000000 + j)
            for how in range(3):
                add("ber/%d.%s" % (how, k), der.ber(x, how), like=x)
        add("kind/noext", der.with_time("obj", r, 1310000000))
        add("kind/.cer", fx("c1.cer"))
        add("kind/.crl", fx("c1.crl"))
        add("kind/x.roa.cer", fx("c2.cer"))
        # the same object under two names, and at a place that moves
        add("same1.roa", fx("r2.roa"))
        add("same2.roa", fx("r2.roa"))
        add("at%d/moving.cer" % (n % 2), fx("c2.cer"))
        # no objects of their kind
        for nme, d in (("iscrl.cer", fx("c0.crl")), ("iscer.crl", fx("c0.cer")), ("iscer.roa", fx("c0.cer")),
                       ("isroa.cer", fx("r0.roa")), ("cut.mft", fx("m0.mft")[:-9]), ("junk.crl", b"junk"), ("empty.cer", b"")):
            add("bad/" + nme, d, ok=False)
        if n % 2:
            add("sometimes.crl", der.with_time("crl", fx("c2.crl"), 1400000000))
        return o

    def times(self):
        return {"T:%s:%s" % (self.obj_id(d), k): "%d" % (der.time_of(k, x) * 10 ** 9)
                for k, d, x in getattr(self, "timed", ())}

    def obj_path(self, uri, host):
        rest = uri[len("rsync://"):]
        a, m, p = rest.split("/", 2)
        return rest if host else p

    def obj_id(self, data):
        i = "o:" + sha(data)[:10]
        self.reg[sha(data)] = i
        return i

    def tree(self, s, n, host):
        """rel path -> object content id, as served by rsync"""
        return {self.obj_path(u, host): self.obj_id(d) for u, d in self.objects(s, n).items()}

    # -- files -----------------------------------------------------------
    def lay_out(self, x):
        """The same XML, written in another way."""
        if self.style:
            x = re.sub(r'(<publish [^>]*>)([^<]{60,})(</publish>)',
                       lambda m: m[1] + "\n    " + "\n\t".join(m[2][i:i + 64] for i in range(0, len(m[2]), 64)) + "\n  " + m[3], x)
            x = x.replace("><", ">\n  <").replace("<snapshot uri", "\n<!-- a comment -->\n<snapshot\n\turi")
            x = re.sub(r'hash="([0-9a-f]+)"', lambda m: 'hash="%s"' % m[1].upper(), x)
            x = re.sub(r'<publish uri="([^"]*)" hash="([^"]*)"', r"<publish   hash='\2'   uri='\1'", x)
            x = re.sub(r' version="1" session_id="([^"]*)" serial="([^"]*)">',
                       lambda m: '\n  serial="%s"\n  session_id="%s"\n  version="1"   >' % (m[2], m[1].upper()), x)
            x = '<?xml version="1.0" encoding="UTF-8"?>\n' + x + "\n\n"
        return x.encode()

    def _pub(self, u, d, h=None):
        return '<publish uri="%s"%s>%s</publish>' % (
            u, ' hash="%s"' % h if h else "", base64.b64encode(d).decode())

    def snapshot(self, s, n):
        k = ("S", s, n)
        if k not in self.cache:
            x = '<snapshot xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, UUIDS[s], n + self.off)
            for u, d in sorted(self.objects(s, n).items()):
                x += self._pub(u, d)
            x += "</snapshot>"
            b = self.lay_out(x)
            self.cache[k] = b
            self.reg[sha(b)] = "S:%s:%d" % (s, n)
        return self.cache[k]

    def delta(self, s, n):
        k = ("D", s, n)
        if k not in self.cache:
            old = self.objects(s, n - 1) if n > 1 else {}
            new = self.objects(s, n)
            x = '<delta xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, UUIDS[s], n + self.off)
            for u in sorted(set(old) | set(new)):
                if u not in new:
                    x += '<withdraw uri="%s" hash="%s"/>' % (u, sha(old[u]))
                elif u not in old:
                    x += self._pub(u, new[u])
                elif new[u] != old[u]:
                    x += self._pub(u, new[u], sha(old[u]))
            x += "</delta>"
            b = self.lay_out(x)
            self.cache[k] = b
            self.reg[sha(b)] = "D:%s:%d" % (s, n)
        return self.cache[k]

    def register(self, data, cid):
        self.reg[sha(data)] = cid
        return data

    def notif_xml(self, s, n, snap, deltas):
        """snap = (uri, hash), deltas = [(serial, uri, hash)]"""
        x = '<notification xmlns="%s" version="1" session_id="%s" serial="%d">' % (NS, UUIDS[s], n + self.off)
        x += '<snapshot uri="%s" hash="%s"/>' % snap
        for d in deltas:
            x += '<delta serial="%d" uri="%s" hash="%s"/>' % (d[0] + self.off, d[1], d[2])
        x += "</notification>"
        return self.lay_out(x)

    def decoys(self, f, uri, data):
        """The right content at every place of the source that a careless
        mapping of a foreign URI could lead to."""
        b = self.base_uri()
        rels = {uri[i + 1:] for i, c in enumerate(uri) if c == "/"} | {uri[len(b):], uri[len(b) - 1:]}
        rels |= {r[1:] for r in rels if r.startswith("/")}
        for r in sorted(rels):
            if r and not r.startswith("/") and not r.endswith("/") and ":" not in r \
                    and not any(r == q or r.startswith(q + "/") or q.startswith(r + "/") for q in f):
                f[r] = data

    def files(self, src):
        """rel path -> bytes of everything the source serves"""
        s, n, win, bad = src["sess"], src["ser"], list(src["win"]), src.get("bad")
        f = {}
        kind = bad["kind"] if bad else None
        sp = self.snap_path(s, n)
        f[sp] = self.snapshot(s, n)
        snap = [self.uri(sp), sha(f[sp])]
        dl = []
        for k in win:
            p = self.delta_path(s, k)
            f[p] = self.delta(s, k)
            dl.append([k, self.uri(p), sha(f[p])])
        at = bad.get("at") if bad else None

        def entry(k):
            return [e for e in dl if e[0] == k][0]

        if kind == "gap":
            dl = [e for e in dl if e[0] != at]
        elif kind == "dup":
            dl.append(list(entry(at)))
        elif kind == "snap-missing":
            del f[sp]
        elif kind == "snap-hash":
            f[sp] = self.register(f[sp] + b"\n", "S!hash:%s:%d" % (s, n))
        elif kind == "snap-wrong":          # another revision's snapshot served
            f[sp] = self.snapshot(s, n + 7)
        elif kind in ("snap-garbage", "snap-trunc", "snap-badobj", "snap-delta"):
            b = {"snap-garbage": b"this is not XML",
                 "snap-trunc": f[sp][:len(f[sp]) * 2 // 3],
                 "snap-delta": self.delta(s, n) + b"\n ",
                 "snap-badobj": spoil(f[sp])}[kind]
            f[sp] = self.register(b, "S!%s:%s:%d" % (kind, s, n))
            snap[1] = sha(b)
        elif kind == "snap-foreign":
            snap[0] = bad["uri"]
            self.decoys(f, bad["uri"], f[sp])
        elif kind == "delta-missing":
            del f[self.delta_path(s, at)]
        elif kind == "delta-hash":
            p = self.delta_path(s, at)
            f[p] = self.register(f[p] + b"\n", "D!hash:%s:%d" % (s, at))
        elif kind in ("delta-garbage", "delta-trunc", "delta-badobj", "delta-snap"):
            p = self.delta_path(s, at)
            b = {"delta-garbage": b"neither is this",
                 "delta-trunc": f[p][:len(f[p]) * 2 // 3],
                 "delta-snap": self.snapshot(s, at) + b"\n ",
                 "delta-badobj": spoil(f[p])}[kind]
            f[p] = self.register(b, "D!%s:%s:%d" % (kind, s, at))
            entry(at)[2] = sha(b)
        elif kind == "delta-foreign":
            entry(at)[1] = bad["uri"]
            self.decoys(f, bad["uri"], f[self.delta_path(s, at)])
        elif kind == "paths":               # hostile locations with right content
            if bad.get("snap"):
                snap[0] = self.base_uri() + bad["snap"]
                f[bad["snap"]] = f.pop(sp)
            for k, p in (bad.get("deltas") or {}).items():
                e = entry(int(k))
                e[1] = self.base_uri() + p
                f[p] = f.pop(self.delta_path(s, int(k)))
        elif kind == "raw" and bad["file"] == "snap":
            f[sp] = self.register(raw.apply(bad["how"], f[sp]), "S!raw:%s:%s:%d" % (bad["how"], s, n))
            snap[1] = sha(f[sp])
        elif kind == "raw" and bad["file"] == "delta":
            p = self.delta_path(s, at)
            f[p] = self.register(raw.apply(bad["how"], f[p]), "D!raw:%s:%s:%d" % (bad["how"], s, at))
            entry(at)[2] = sha(f[p])
        elif kind == "unsorted":
            dl = dl[::-1] if len(dl) < 3 else [dl[1], dl[0]] + dl[2:]
        nb = self.notif_xml(s, n, tuple(snap), [tuple(e) for e in dl])
        if kind == "notif-garbage":
            nb = b"no notification here"
        elif kind == "notif-trunc":
            nb = nb[:len(nb) - 20]
        elif kind == "notif-empty":
            nb = b""
        elif kind == "notif-baduuid":
            nb = re.sub(rb'session_id="[^"]*"', b'session_id="not-a-uuid"', nb)
        elif kind == "notif-nosnap":
            nb = re.sub(rb"<snapshot[^>]*/>", b"", nb)
        elif kind == "notif-badhash":
            nb = re.sub(rb'(<snapshot[^>]*hash=")..', rb"\1zz", nb)
        elif kind == "raw" and bad["file"] == "notif":
            nb = raw.apply(bad["how"], nb)
        if kind != "notif-missing":
            f[self.nname] = nb
        return f


def spoil(xml):
    """No longer base64 in the first objects."""
    x = re.sub(rb"(<publish[^>]*>)", rb"\1%%%", xml, count=2)
    return x if x != xml else xml.replace(b'">', b'">%%%', 1)


def write_source(world, src, outdir, prefixes=("",)):
    """Write the source's files below outdir, replacing what was there."""
    files = world.files(src)
    want = {x + r: b for x in prefixes for r, b in files.items()}
    for d, _, names in os.walk(outdir):
        for nme in names:
            p = os.path.join(d, nme)
            if os.path.relpath(p, outdir) not in want:
                os.unlink(p)
    for rel, b in want.items():
        p = os.path.join(outdir, rel)
        if ".." in rel.split("/") or rel.startswith("/") or rel.endswith(("/", "/.")) or rel in ("", "."):
            continue
        if os.path.isdir(p):
            continue
        if os.path.lexists(p):
            with open(p, "rb") as h:
                if h.read() == b:
                    continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(b)
