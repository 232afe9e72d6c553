"""Makes RPKI objects (DER, signed) from the abstract objects of KSVGen.tla."""
import hashlib
import json
import time

from . import der
from .driver import VERIF

EPOCH = 1_900_000_000        # time 0 of the trees
CA_HOST = "rsync://rsync.example/"


def keys(cache={}):
    if not cache:
        for k, v in json.load(open(VERIF + "/fixtures/keys/keys.json")).items():
            cache[k] = {a: bytes.fromhex(b) if a == "spki" else int(b, 16) for a, b in v.items()}
    return cache


# -- DER -------------------------------------------------------------------

def tl(tag, c):
    n = len(c)
    if n < 128:
        return bytes([tag, n]) + c
    lb = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([tag, 0x80 | len(lb)]) + lb + c


def seq(*p):
    return tl(0x30, b"".join(p))


def sset(*p):
    return tl(0x31, b"".join(sorted(p)))


def ctx(n, *p):
    return tl(0xA0 + n, b"".join(p))


def oid(s):
    a = [int(x) for x in s.split(".")]
    out = bytes([a[0] * 40 + a[1]])
    for v in a[2:]:
        e = [v & 0x7f]
        v >>= 7
        while v:
            e.insert(0, 0x80 | (v & 0x7f))
            v >>= 7
        out += bytes(e)
    return tl(6, out)


def integer(v):
    return tl(2, v.to_bytes(v.bit_length() // 8 + 1, "big"))


def octets(b):
    return tl(4, b)


def bits(b, unused=0):
    return tl(3, bytes([unused]) + b)


NULL = b"\x05\x00"
TRUE = b"\x01\x01\xff"


def utc(u):
    s = time.strftime("%Y%m%d%H%M%SZ", time.gmtime(u))
    return tl(0x17, s[2:].encode()) if 1950 <= int(s[:4]) < 2050 else tl(0x18, s.encode())


def gentime(u):
    return tl(0x18, time.strftime("%Y%m%d%H%M%SZ", time.gmtime(u)).encode())


SHA256 = seq(oid("2.16.840.1.101.3.4.2.1"), NULL)
RSASHA256 = seq(oid("1.2.840.113549.1.1.11"), NULL)
RSASHA1 = seq(oid("1.2.840.113549.1.1.5"), NULL)
RSAENC = seq(oid("1.2.840.113549.1.1.1"), NULL)
CT = dict(roa="1.2.840.113549.1.9.16.1.24", mft="1.2.840.113549.1.9.16.1.26", gbr="1.2.840.113549.1.9.16.1.35",
          asa="1.2.840.113549.1.9.16.1.49")


def spki(k):
    key = keys()[k]
    if "spki" in key:
        return key["spki"]
    return seq(RSAENC, bits(seq(integer(key["n"]), integer(key["e"]))))


def ski(k):
    r = der.parse(spki(k))[0][1][1][1]
    return hashlib.sha1(r[1:]).digest()


def sign(k, data, cache={}):
    c = (k, data)
    if c not in cache:
        key = keys()["EE" if k == "R" else k]      # a router cannot sign
        h = bytes.fromhex("3031300d060960864801650304020105000420") + hashlib.sha256(data).digest()
        m = int.from_bytes(b"\x00\x01" + b"\xff" * (256 - 3 - len(h)) + b"\x00" + h, "big")
        a, b = pow(m, key["dp"], key["p"]), pow(m, key["dq"], key["q"])
        cache[c] = (b + (a - b) * key["qi"] % key["p"] * key["q"]).to_bytes(256, "big")
    return cache[c]


def spoil(s):
    return s[:-1] + bytes([s[-1] ^ 1])


def name(k):
    return seq(tl(0x31, seq(oid("2.5.4.3"), tl(0x13, ("key-" + (k or "none")).encode()))))


def ext(o, body, critical=False):
    return seq(oid(o), TRUE if critical else b"", octets(body))


# -- resources -------------------------------------------------------------

def pfx(f, b):
    """block b as a prefix; blocks are never adjacent"""
    if f == 4:
        return bits(bytes([10, 2 * b]))
    return bits(bytes([0x20, 1, 0x0d, 0xb8, 0, 2 * b]))


def asn(b):
    return 64500 + 2 * b


def resources(c):
    out = b""
    fam = b""
    for f, r in ((4, c["v4"]), (6, c["v6"])):
        if r["t"] == "none":
            continue
        afi = octets(b"\x00\x01" if f == 4 else b"\x00\x02")
        fam += seq(afi, NULL if r["t"] == "inherit" else seq(*[pfx(f, b) for b in sorted(r["s"])]))
    n = "28" if c["trim"] else "7"
    if fam:
        out += ext("1.3.6.1.5.5.7.1." + n, seq(fam), True)
    r = c["asn"]
    n = "29" if c["trim"] else "8"
    if r["t"] != "none":
        out += ext("1.3.6.1.5.5.7.1." + n,
                   seq(ctx(0, NULL if r["t"] == "inherit" else seq(*[integer(asn(b)) for b in sorted(r["s"])]))), True)
    return out


# -- certificates ------------------------------------------------------------

def cert(c):
    how = c["how"]
    e = b""
    if c["bc"] != "none":
        e += ext("2.5.29.19", seq(TRUE if c["bc"] == "ca" else b""), True)
    e += ext("2.5.29.14", octets(ski(c["key"]) if c["ski"] else b"\x55" * 20))
    if c["aki"]:
        e += ext("2.5.29.35", seq(tl(0x80, ski(c["aki"]))))
    ku = bits(b"\x06", 1) if c["ku"] == "ca" else bits(b"\x80", 7)
    if how == "badku":
        ku = bits(b"\x86", 1)
    e += ext("2.5.29.15", ku, True)
    if c["eku"]:
        e += ext("2.5.29.37", seq(oid("1.3.6.1.5.5.7.3.30" if c["eku"] == "router" else "1.3.6.1.5.5.7.3.1")))
    if c["crldp"]:
        e += ext("2.5.29.31", seq(seq(ctx(0, ctx(0, tl(0x86, c["crldp"].encode()))))))
    if c["aia"]:
        e += ext("1.3.6.1.5.5.7.1.1", seq(seq(oid("1.3.6.1.5.5.7.48.2"), tl(0x86, (CA_HOST + "aia/issuer.cer").encode()))))
    sia = b""
    for f, o in (("repo", "5"), ("mft", "10"), ("sobjuri", "11"), ("notify", "13")):
        u = c.get(f, "") if f != "sobjuri" else (CA_HOST + "obj/x.obj" if c["sobj"] else "")
        if u:
            sia += seq(oid("1.3.6.1.5.5.7.48." + o), tl(0x86, u.encode()))
    if sia:
        e += ext("1.3.6.1.5.5.7.1.11", seq(sia))
    if how != "nopolicy":
        e += ext("2.5.29.32", seq(seq(oid("1.3.6.1.5.5.7.14." + ("3" if c["trim"] else "2")))), True)
    if how != "nores":
        e += resources(c)
    if how == "critext":
        e += ext("1.3.6.1.5.5.7.1.99", NULL, True)
    if how == "noncritext":
        e += ext("1.3.6.1.5.5.7.1.99", NULL)
    if how == "dupext":
        e += ext("2.5.29.14", octets(ski(c["key"])))
    alg = RSASHA1 if how == "sha1" else RSASHA256
    iss = c["signer"]
    tbs = seq(b"" if how == "v1" else ctx(0, integer(2)), integer(c["sn"]), alg, name(iss),
              seq(utc(EPOCH + c["nb"]), utc(EPOCH + c["na"])), name(c["key"]), spki(c["key"]), ctx(3, seq(e)))
    s = sign(iss, tbs)
    out = seq(tbs, RSASHA1 if how == "sha1out" else alg, bits(s if c["sig"] else spoil(s)))
    return mangle(out, how)


def mangle(out, how):
    if how == "garbage":
        return b"this is not DER"
    if how == "empty":
        return b""
    if how == "trunc":
        return out[:-5]
    if how == "trail":
        return out + b"\x05\x00"
    return out


def crl(o):
    how = o["how"]
    ent = b"".join(seq(integer(s), utc(EPOCH + o["this"])) for s in sorted(o["rev"]))
    e = b""
    if how != "noaki":
        e += ext("2.5.29.35", seq(tl(0x80, ski(o["signer"]))))
    if how != "nonum":
        e += ext("2.5.29.20", integer(7))
    if how == "unkext":
        e += ext("1.3.6.1.5.5.7.1.99", NULL, True)
    alg = RSASHA1 if how == "sha1" else RSASHA256
    tbs = seq(integer(1), alg, name(o["signer"]), utc(EPOCH + o["this"]), utc(EPOCH + o["next"]),
              seq(ent) if ent else b"", ctx(0, seq(e)))
    s = sign(o["signer"], tbs)
    return mangle(seq(tbs, alg, bits(s if o["sig"] else spoil(s))), how)


# -- signed objects ------------------------------------------------------------

def cms(o, kind, content):
    how = o["how"]
    ct = oid(CT["gbr" if how == "ct" else kind])
    md = hashlib.sha256(content).digest()
    if not o["dig"]:
        md = spoil(md)
    ee = o["ee"]
    at = []
    if how != "noct":
        at.append(seq(oid("1.2.840.113549.1.9.3"), sset(oid(CT["mft" if kind != "mft" else "roa"]) if how == "ctattr" else ct)))
    if how != "nodig":
        at.append(seq(oid("1.2.840.113549.1.9.4"), sset(octets(md))))
    if how == "dupattr":
        at.append(seq(oid("1.2.840.113549.1.9.4"), sset(octets(md))))
    if how not in ("nosigntime", "binary"):
        at.append(seq(oid("1.2.840.113549.1.9.5"), sset(utc(EPOCH - 7200))))
    if how == "binary":
        at.append(seq(oid("1.2.840.113549.1.9.16.2.46"), sset(integer(EPOCH - 7200))))
    if how == "unkattr":
        at.append(seq(oid("1.2.840.113549.1.9.99"), sset(integer(1))))
    attrs = b"".join(sorted(at))
    s = sign(ee["key"], tl(0x31, attrs))
    si = seq(integer(3), tl(0x80, ski(ee["key"]) if o["sid"] else b"\x66" * 20), SHA256, tl(0xA0, attrs),
             RSAENC, octets(s if o["sig"] else spoil(s)))
    sd = seq(integer(1 if how == "ver" else 3), tl(0x31, SHA256), seq(ct, ctx(0, octets(content))),
             tl(0xA0, cert(ee)), tl(0x31, si))
    return mangle(seq(oid("1.2.840.113549.1.7.2"), ctx(0, sd)), how)


def ia5(s):
    return tl(0x16, s.encode())


def mft(o, objs, blob):
    """objs: the repository the manifest lists files of"""
    how = o["how"]
    fl = b""
    for e in o["list"]:
        data = blob(objs[e["u"]]) if e["u"] in objs else b"no such object"
        h = hashlib.sha256(data).digest()
        if e["u"] in objs and not objs[e["u"]]["hash"]:
            h = spoil(h)
        fl += seq(ia5(e["u"][len(o["dir"]):]), bits(h))
    if o["bad"]:
        fl += seq(ia5(o["bad"]), bits(b"\x00" * 32))
    c = seq(ctx(0, integer(1)) if how == "mver" else b"", integer(5), gentime(EPOCH + o["this"]), gentime(EPOCH + o["next"]),
            oid("1.3.14.3.2.26" if how == "malg" else "2.16.840.1.101.3.4.2.1"), seq(fl))
    return cms(o, "mft", c)


def roa(o):
    how = o["how"]
    fams = {}
    for p in o["pfx"]:
        fams.setdefault(p["f"], []).append(p)
    out = b""
    for f in sorted(fams):
        adr = b""
        for p in fams[f]:
            ln = 16 if f == 4 else 48
            ml = {"": b"", "max": integer(ln + 4), "same": integer(ln)}[p["m"]]
            if how == "maxlow":
                ml = integer(ln - 1)
            if how == "maxhigh":
                ml = integer(33 if f == 4 else 129)
            pf = pfx(f, p["b"])
            if how == "plen":
                pf = bits(bytes([10, 2 * p["b"]]) + b"\x01" * (20 if f == 6 else 5))
            adr += seq(pf, ml)
        out += seq(octets({4: b"\x00\x01", 6: b"\x00\x02"}[f]), seq(adr))
        if how == "dupfam":
            out += seq(octets({4: b"\x00\x01", 6: b"\x00\x02"}[f]), seq(adr))
    if how == "afi":
        out += seq(octets(b"\x00\x03"), seq(seq(pfx(4, 1))))
    v = ctx(0, integer(0)) if how == "ver0" else ctx(0, integer(1)) if how == "ver1" else b""
    return cms(o, "roa", seq(v, integer(asn(1)), seq(out)))


def aspa(o):
    how = o["how"]
    prov = [integer(asn(b)) for b in (sorted(o["prov"]) if how != "order" else sorted(o["prov"], reverse=True))]
    if how == "dup":
        prov = prov[:1] + prov
    if how == "noprov":
        prov = []
    v = b"" if how == "v0" else ctx(0, integer(1))
    return cms(o, "asa", seq(v, integer(asn(o["cust"])), seq(*prov)))


class Maker:
    """Blobs of abstract objects; the same object always has the same bytes."""

    def __init__(self):
        self.cache = {}

    def blob(self, o, objs):
        k = json.dumps(o, sort_keys=True)
        if o["k"] == "mft":
            k += "".join(sorted(hashlib.sha1(self.blob(objs[e["u"]], objs)).hexdigest() + str(objs[e["u"]]["hash"])
                                for e in o["list"] if e["u"] in objs and objs[e["u"]]["k"] != "mft"))
        if k not in self.cache:
            if o["k"] == "cer":
                b = cert(o["c"])
            elif o["k"] == "crl":
                b = crl(o)
            elif o["k"] == "roa":
                b = roa(o)
            elif o["k"] == "asa":
                b = aspa(o)
            elif o["k"] == "mft":
                b = mft(o, objs, lambda x: b"another manifest" if x["k"] == "mft" else self.blob(x, objs))
            else:
                b = ("%s %s" % (o["k"], o.get("how", ""))).encode()
            self.cache[k] = b
        return self.cache[k]

    def repo(self, objs):
        """URI -> bytes of what the repository publishes"""
        return {u: self.blob(o, objs) for u, o in objs.items() if o["there"]}

    def tal(self, c, key, uri):
        import base64
        b = base64.b64encode(spki(key)).decode()
        return "%s\n\n%s\n" % (uri, "\n".join(b[i:i + 64] for i in range(0, len(b), 64)))
