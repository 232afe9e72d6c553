"""Just enough DER to read and change the times of RPKI objects."""
import calendar
import time

SIGNING_TIME = bytes.fromhex("2a864886f70d010905")
BIN_SIGNING_TIME = bytes.fromhex("2a864886f70d010910022e")


def tlv(b, i=0):
    """-> (tag, content start, end)"""
    t = b[i]
    n = b[i + 1]
    j = i + 2
    if n & 0x80:
        k = n & 0x7f
        n = int.from_bytes(b[j:j + k], "big")
        j += k
    return t, j, j + n


def parse(b):
    """-> list of [tag, bytes or list]"""
    out = []
    i = 0
    while i < len(b):
        t, s, e = tlv(b, i)
        c = b[s:e]
        out.append([t, parse(c) if t & 0x20 else c])
        i = e
    return out


def encode(nodes):
    out = b""
    for t, c in nodes:
        if isinstance(c, list):
            c = encode(c)
        n = len(c)
        if n < 128:
            ln = bytes([n])
        else:
            lb = n.to_bytes((n.bit_length() + 7) // 8, "big")
            ln = bytes([0x80 | len(lb)]) + lb
        out += bytes([t]) + ln + c
    return out


def to_unix(node):
    t, c = node
    s = c.decode()
    if t == 0x17:
        y = int(s[:2])
        s = ("19" if y >= 50 else "20") + s
    return calendar.timegm(time.strptime(s, "%Y%m%d%H%M%SZ"))


def from_unix(u):
    s = time.strftime("%Y%m%d%H%M%SZ", time.gmtime(u))
    return [0x17, s[2:].encode()] if 1950 <= int(s[:4]) < 2050 else [0x18, s.encode()]


def cert_times(root):
    """the validity sequence of a certificate (as parsed)"""
    tbs = root[1][0][1]
    i = 1 if tbs[0][0] == 0xA0 else 0
    return tbs[i + 3][1]


def crl_tbs(root):
    tbs = root[1][0][1]
    i = 1 if tbs[0][0] == 0x02 else 0
    return tbs, i + 2


def cms_parts(root):
    """(EE certificate, signed attributes) of a CMS message"""
    sd = root[1][1][1][0][1]
    certs = [x for x in sd if x[0] == 0xA0][0][1]
    si = sd[-1][1][0][1]
    attrs = [x for x in si if x[0] == 0xA0][-1][1]
    return certs[0], attrs


def signing_time(root):
    _, attrs = cms_parts(root)
    for a in attrs:
        if a[1][0][1] == SIGNING_TIME:
            return a[1][1][1][0]
    return None


def time_of(kind, data):
    """The object's own time as the oracle sees it."""
    root = parse(data)[0]
    if kind == "cer":
        return to_unix(cert_times(root)[0])
    if kind == "crl":
        tbs, i = crl_tbs(root)
        return to_unix(tbs[i])
    st = signing_time(root)
    if st is not None:
        return to_unix(st)
    ee, _ = cms_parts(root)
    return to_unix(cert_times(ee)[0])


def with_time(kind, data, unix):
    root = parse(data)[0]
    if kind == "cer":
        cert_times(root)[0] = from_unix(unix)
    elif kind == "crl":
        tbs, i = crl_tbs(root)
        tbs[i] = from_unix(unix)
    elif kind == "ee":
        ee, _ = cms_parts(root)
        cert_times(ee)[0] = from_unix(unix)
    else:
        _, attrs = cms_parts(root)
        for a in attrs:
            if a[1][0][1] == SIGNING_TIME:
                a[1][1][1][0] = from_unix(unix)
    return encode([root])


def without_signing_time(data):
    root = parse(data)[0]
    _, attrs = cms_parts(root)
    attrs[:] = [a for a in attrs if a[1][0][1] != SIGNING_TIME]
    return encode([root])


def ber(data, how):
    """The same CMS message in BER: with lengths in other forms (0: indefinite,
    all the way down to the signed data; 1: longer than needed; 2: content in parts)"""
    _, s, e = tlv(data)
    body = data[s:e]
    if how == 1:
        return b"\x30\x84" + len(body).to_bytes(4, "big") + body
    if how == 0:
        _, s1, e1 = tlv(body)               # content type
        _, s2, e2 = tlv(body, e1)           # [0]
        _, s3, e3 = tlv(body, s2)           # signed data
        end = b"\0\0"
        return b"\x30\x80" + body[:e1] + b"\xa0\x80\x30\x80" + body[s3:e3] + end + end + end
    root = parse(data)[0]
    enc = root[1][1][1][0][1][2][1]         # encapsulated content
    octets = enc[1][1][0]
    assert octets[0] == 4
    c = octets[1]
    enc[1][1][0] = [0x24, [[4, c[:5]], [4, c[5:]]]]
    return encode([root])


def with_binary_signing_time(data, unix):
    root = parse(data)[0]
    _, attrs = cms_parts(root)
    n = unix.to_bytes((unix.bit_length() + 8) // 8, "big")
    attrs.append([0x30, [[0x06, BIN_SIGNING_TIME], [0x31, [[0x02, n]]]]])
    return encode([root])
