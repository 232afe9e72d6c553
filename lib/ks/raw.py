"""Files of a source as nobody should write them: every entry changes the bytes of a
well-formed file.  No judgement on whether a reader has to take them is made."""
import re

BIG = 10 ** 40


def sub(pat, rep, count=1):
    if isinstance(rep, bytes):
        return lambda b: re.sub(pat, lambda m: m.expand(rep) if b"\\" in rep else rep, b, count=count)
    return lambda b: re.sub(pat, rep, b, count=count)


def attr(name, val):
    return lambda b: re.sub(rb'(\b%s=")[^"]*' % name, lambda m: m[1] + val, b, count=1)


def root_end(b):
    return b.rindex(b"</")


def before_end(x):
    return lambda b: b[:root_end(b)] + x + b[root_end(b):]


def first(x):
    """directly below the root"""
    return lambda b: re.sub(rb"^(.*?<(?:notification|snapshot|delta)\b[^>]*>)", lambda m: m[1] + x, b, count=1, flags=re.S)


def deep(n, tag=b"x"):
    return b"<%s>" % tag * n + b"</%s>" % tag * n


LAUGHS = b'<!DOCTYPE x [<!ENTITY a "aaaaaaaaaa"><!ENTITY b "&a;&a;&a;&a;&a;&a;&a;&a;"><!ENTITY c "&b;&b;&b;&b;&b;&b;&b;&b;">]>'

ALL = {
    "serial-0": attr(b"serial", b"0"), "serial-neg": attr(b"serial", b"-1"), "serial-2^64": attr(b"serial", b"18446744073709551616"),
    "serial-max": attr(b"serial", b"18446744073709551615"), "serial-big": attr(b"serial", b"9" * 5000), "serial-empty": attr(b"serial", b""),
    "serial-plus": attr(b"serial", b"+3"), "serial-hex": attr(b"serial", b"0x3"), "serial-space": attr(b"serial", b" 3 "), "serial-utf": attr(b"serial", "٣".encode()),
    "version-2": attr(b"version", b"2"), "version-none": sub(rb'\s+version="1"', b""), "serial-none": sub(rb'\s+serial="\d+"', b""),
    "session-none": sub(rb'\s+session_id="[^"]*"', b""), "session-empty": attr(b"session_id", b""), "session-brace": attr(b"session_id", b"{a0000000-0000-4000-8000-00000000000a}"),
    "session-urn": attr(b"session_id", b"urn:uuid:a0000000-0000-4000-8000-00000000000a"), "session-simple": attr(b"session_id", b"a000000000004000800000000000000a"),
    "session-long": attr(b"session_id", b"a" * 100000), "session-utf": attr(b"session_id", "é".encode() * 36),
    "twice": lambda b: b + b, "trailing": lambda b: b + b"<x/>", "trailing-text": lambda b: b + b"text", "trailing-nul": lambda b: b + b"\0" * 10,
    "cut-half": lambda b: b[:len(b) // 2], "cut-1": lambda b: b[:-1], "cut-attr": lambda b: b[:b.index(b"serial=") + 8], "one": lambda b: b"<", "space": lambda b: b"  \n ",
    "nul": lambda b: b"\0" * 4096, "bytes": lambda b: bytes(range(256)) * 8, "bom": lambda b: b"\xef\xbb\xbf" + b, "utf16": lambda b: b.decode().encode("utf-16"),
    "utf16-decl": lambda b: b'<?xml version="1.0" encoding="UTF-16"?>' + b, "latin": lambda b: b'<?xml version="1.0" encoding="ISO-8859-1"?>' + b, "xml11": lambda b: b'<?xml version="1.1"?>' + b,
    "decl-late": lambda b: b"\n" + b'<?xml version="1.0"?>' + b, "decl-open": lambda b: b"<?xml" + b, "pi": lambda b: b"<?a b?>" + b, "comment-open": lambda b: b"<!--" + b, "comment": before_end(b"<!-- -- -->"),
    "doctype": lambda b: b"<!DOCTYPE notification>" + b, "doctype-open": lambda b: b"<!DOCTYPE x [" + b, "laughs": lambda b: LAUGHS + first(b"&c;")(b), "entity": first(b"&nothing;"), "charref": first(b"&#0;"),
    "charref-big": first(b"&#x110000;"), "charref-empty": first(b"&#;"), "entity-attr": attr(b"uri", b"&lt;&nothing;"), "entity-external": lambda b: b'<!DOCTYPE x [<!ENTITY a SYSTEM "file:///etc/passwd">]>' + first(b"&a;")(b),
    "cdata": first(b"<![CDATA[ x ]]>"), "cdata-open": first(b"<![CDATA[ x "), "text": first(b"text"), "unknown": before_end(b"<unknown/>"), "unknown-full": before_end(b"<unknown a='b'><c/>d</unknown>"),
    "deep": before_end(deep(20000)), "deep-open": before_end(b"<x>" * 20000), "deep-root": lambda b: b"<a>" * 5000 + b + b"</a>" * 5000, "mismatch": before_end(b"<a></b>"), "close": before_end(b"</a>"), "close-extra": lambda b: b + b"</a>",
    "attr-twice": sub(rb"\bserial=", b'serial="1" serial='), "attr-unknown": sub(rb"\bserial=", b'other="1" serial='), "attr-unquoted": sub(rb'serial="(\d+)"', rb"serial=\1"), "attr-novalue": sub(rb"\bserial=", b"novalue serial="),
    "attr-long": sub(rb"\bserial=", b'other="' + b"x" * 300000 + b'" serial='), "attr-many": sub(rb"\bserial=", b" ".join(b'a%d="1"' % i for i in range(3000)) + b" serial="), "attr-lt": attr(b"session_id", b"<"), "attr-open": attr(b"uri", b'" x="'),
    "name-long": before_end(b"<" + b"n" * 100000 + b"/>"), "ns-none": sub(rb' xmlns="[^"]*"', b""), "ns-other": attr(b"xmlns", b"urn:x"), "ns-empty": attr(b"xmlns", b""), "ns-undefined": before_end(b"<p:x/>"), "name-bad": before_end(b"<1:/>"), "name-empty": before_end(b"< />"),
    "ns-prefix": lambda b: re.sub(rb"(</?)(?=\w)", rb"\1p:", b).replace(b"xmlns=", b"xmlns:p="), "bad-utf8": first(b"\xff\xfe"), "bad-utf8-attr": attr(b"uri", b"https://src.example/rrdp/\xff"), "newlines": lambda b: b.replace(b" ", b"\r\n"), "tabs": lambda b: b.replace(b" ", b"\t" * 1000),
    "spaces": first(b" " * 2000000), "comments": first(b"<!--x-->" * 20000), "upper": lambda b: b.upper(), "other-root": sub(rb"<(notification|snapshot|delta)\b", b"<something"),
    "uri-empty": attr(b"uri", b""), "uri-none": sub(rb'\s+uri="[^"]*"', b""), "uri-scheme": attr(b"uri", b"https:"), "uri-slashes": attr(b"uri", b"https://"), "uri-host": attr(b"uri", b"https://src.example"), "uri-space": attr(b"uri", b"https://src.example/rrdp/a b"),
    "uri-long": attr(b"uri", b"https://src.example/rrdp/" + b"x" * 70000), "uri-deep": attr(b"uri", b"https://src.example/rrdp/" + b"x/" * 3000 + b"y.xml"), "uri-utf": attr(b"uri", "https://src.example/rrdp/é.xml".encode()), "uri-nul": attr(b"uri", b"https://src.example/rrdp/%00.xml"),
    "uri-rsync": attr(b"uri", b"rsync://"), "uri-rsync1": attr(b"uri", b"rsync://h"), "uri-rsync2": attr(b"uri", b"rsync://h/"), "uri-rsync3": attr(b"uri", b"rsync://h/m"), "uri-rsync4": attr(b"uri", b"rsync://h/m/"), "uri-rsync5": attr(b"uri", b"rsync://h/m//x"), "uri-rsync6": attr(b"uri", b"rsync:///m/x"),
    "uri-rsync-long": attr(b"uri", b"rsync://h/m/" + b"x" * 70000), "uri-rsync-deep": attr(b"uri", b"rsync://h/m/" + b"x/" * 3000 + b"y"), "uri-rsync-host": attr(b"uri", b"rsync://" + b"h" * 5000 + b"/m/x"), "uri-rsync-utf": attr(b"uri", "rsync://h/m/é".encode()), "uri-rsync-nul": attr(b"uri", b"rsync://h/m/a%00b"),
    "uri-rsync-port": attr(b"uri", b"rsync://h:99999999999/m/x"), "uri-rsync-ipv6": attr(b"uri", b"rsync://[::1/m/x"),
    "hash-empty": attr(b"hash", b""), "hash-odd": attr(b"hash", b"abc"), "hash-long": attr(b"hash", b"a" * 66), "hash-none": sub(rb'\s+hash="[^"]*"', b""), "hash-utf": attr(b"hash", "é".encode() * 32), "hash-utf63": attr(b"hash", b"a" + "é".encode() * 31 + b"b"), "hash-huge": attr(b"hash", b"a" * 1000000), "hash-other": attr(b"hash", b"0" * 64),
}
OBJ = {
    "b64-pad": sub(rb">([A-Za-z0-9+/]{8})", rb">\1==="), "b64-eq": sub(rb">([A-Za-z0-9+/]{8})[^<]*", rb">="), "b64-1": sub(rb">([A-Za-z0-9+/]{8})[^<]*", b">A"), "b64-url": sub(rb">([A-Za-z0-9+/]{8})[^<]*", b">__--"), "b64-space": sub(rb">([A-Za-z0-9+/]{4})", rb">\n \1 \t "),
    "b64-nul": sub(rb">([A-Za-z0-9+/]{8})", rb">\0\1"), "b64-utf": sub(rb">([A-Za-z0-9+/]{8})", ">é".encode()), "b64-big": sub(rb">([A-Za-z0-9+/]{8})[^<]*", b">" + b"QUFB" * 400000), "b64-bits": sub(rb">([A-Za-z0-9+/]{8})[^<]*", b">QR=="), "b64-ent": sub(rb">([A-Za-z0-9+/]{8})", rb">&#65;\1"), "b64-cdata": sub(rb">([A-Za-z0-9+/]{8})", rb"><![CDATA[QUFB]]>\1"),
    "obj-empty": sub(rb"(<publish[^>]*>)[^<]*</publish>", rb"\1</publish>"), "obj-closed": sub(rb"(<publish[^>]*)>[^<]*</publish>", rb"\1/>"), "obj-child": sub(rb"(<publish[^>]*>)", rb"\1<x/>"), "obj-open": sub(rb"</publish>", b""), "obj-nested": sub(rb"(<publish[^>]*>)", rb"\1\1"),
    "obj-twice": sub(rb"(<publish[^>]*>[^<]*</publish>)", rb"\1\1"), "obj-dir": sub(rb'(<publish uri="rsync://rsync.example/repo/)([^"]*)("[^>]*>[^<]*</publish>)', rb"\1ca\3\1ca/a.bin/x\3"), "withdraw": before_end(b'<withdraw uri="rsync://h/m/x" hash="' + b"0" * 64 + b'"/>'), "withdraw-bad": before_end(b'<withdraw uri="x" hash="0"/>'), "withdraw-none": before_end(b"<withdraw/>"),
    "publish-none": before_end(b"<publish/>"), "many": before_end(b"".join(b'<publish uri="rsync://h/m/%d">QQ==</publish>' % i for i in range(200))), "empty": lambda b: re.sub(rb"(<(?:snapshot|delta)\b[^>]*>).*(</)", rb"\1\2", b, flags=re.S), "self-closed": lambda b: re.sub(rb"(<(?:snapshot|delta)\b[^>]*)>.*", rb"\1/>", b, flags=re.S),
}
NTF = {
    "snap-twice": sub(rb"(<snapshot [^>]*>)", rb"\1\1"), "snap-full": sub(rb"(<snapshot [^>]*)/>", rb"\1><x/></snapshot>"), "snap-open": sub(rb"(<snapshot [^>]*)/>", rb"\1>"), "delta-none": before_end(b"<delta/>"), "delta-bad": before_end(b'<delta serial="x" uri="y" hash="z"/>'),
    "delta-max": sub(rb'(<delta serial=")\d+', rb"\g<1>18446744073709551615"), "delta-2^64": sub(rb'(<delta serial=")\d+', rb"\g<1>18446744073709551616"), "delta-0": sub(rb'(<delta serial=")\d+', rb"\g<1>0"), "delta-neg": sub(rb'(<delta serial=")\d+', rb"\g<1>-1"),
    "delta-wrap": before_end(b"".join(b'<delta serial="%d" uri="https://src.example/rrdp/x" hash="%s"/>' % (k, b"0" * 64) for k in (0, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1))),
    "deltas": before_end(b"".join(b'<delta serial="%d" uri="https://src.example/rrdp/%d" hash="%s"/>' % (k + 9, k, b"0" * 64) for k in range(20000))),
    "deltas-same": before_end(b'<delta serial="3" uri="https://src.example/rrdp/x" hash="%s"/>' % (b"0" * 64) * 20000), "delta-first": first(b'<delta serial="1" uri="https://src.example/rrdp/x" hash="%s"/>' % (b"0" * 64)), "snap-hash-utf": sub(rb'(<snapshot [^>]*hash=")[^"]*', lambda m: m[1] + b"a" + "é".encode() * 31 + b"b"),
}


def names(f):
    return sorted(ALL) + sorted(NTF if f == "notif" else OBJ)


def apply(name, data):
    return (ALL.get(name) or NTF.get(name) or OBJ.get(name))(data)
