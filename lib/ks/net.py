"""A loopback HTTPS server for the sources.  The observer sends every connection
of the program here, whatever host and port it is for.  The certificate is
chosen by what the test says about the source; every request is recorded."""
import hashlib
import os
import select
import socket
import ssl
import threading
import time

from .driver import VERIF

TLS = VERIF + "/fixtures/tls"
CA = TLS + "/trusted.pem"
KINDS = ("good", "untrusted", "selfsigned", "wronghost", "expired", "notyet", "down")
HOLD = 170          # how long a silent server keeps a connection


def contexts(cache={}):
    if not cache:
        for k in KINDS[:-1]:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain("%s/%s.pem" % (TLS, k), TLS + "/leaf.key")
            c.set_alpn_protocols(["http/1.1"])
            cache[k] = c
    return cache


class Server:
    """serve(host, path, headers) -> None or dict(status, body, etag, cut, location);
    kind(host) -> kind of certificate"""

    def __init__(self):
        self.log = []
        self.serve = lambda h, p, hd: None
        self.kind = lambda h: "good"
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.closed = False
        threading.Thread(target=self.loop, daemon=True).start()

    def close(self):
        self.closed = True
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()

    def loop(self):
        while not self.closed:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        c.settimeout(20)
        down = []

        def sni(sslsock, name, ctx):
            name = name or ""
            k = self.kind(name)
            self.log.append(("tls", name, k))
            if k == "down":
                down.append(1)
                return ssl.ALERT_DESCRIPTION_INTERNAL_ERROR
            if k == "stall":
                silence(sslsock)
                return ssl.ALERT_DESCRIPTION_INTERNAL_ERROR
            sslsock.context = contexts()[k]
        try:
            base = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            base.load_cert_chain(TLS + "/good.pem", TLS + "/leaf.key")
            base.set_alpn_protocols(["http/1.1"])
            base.sni_callback = sni
            s = base.wrap_socket(c, server_side=True)
        except (OSError, ssl.SSLError, ValueError):
            c.close()
            return
        try:
            f = s.makefile("rb")
            line = f.readline().decode("latin-1").split()
            if len(line) < 3:
                return
            hd = {}
            while True:
                h = f.readline().decode("latin-1").strip()
                if not h:
                    break
                k, _, v = h.partition(":")
                hd[k.strip().lower()] = v.strip()
            host, path = hd.get("host", ""), line[1]
            r = self.serve(host, path, hd) or dict(status=404, body=b"no such file")
            st = r.get("status", 200)
            etag = r.get("etag")
            if etag and hd.get("if-none-match") == etag and st == 200:
                st = 304
            self.log.append(("req", host, path, st, line[0], hd.get("if-none-match", "")))
            if r.get("odd"):
                odd(s, r["odd"], r.get("body", b""), host, path)
                return
            body = b"" if st in (304, 204) else r.get("body", b"")
            out = "HTTP/1.1 %d X\r\nConnection: close\r\n" % st
            if st not in (304, 204):
                out += "Content-Length: %d\r\n" % len(body)
            if etag:
                out += "ETag: %s\r\n" % etag
            if r.get("location"):
                out += "Location: %s\r\n" % r["location"]
            s.sendall(out.encode("latin-1") + b"\r\n")
            if line[0] != "HEAD":
                s.sendall(body[:len(body) // 2] if r.get("cut") else body)
            try:
                s.unwrap()
            except OSError:
                pass
        except (OSError, ssl.SSLError, ValueError):
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass


def silence(sock):
    """Say nothing until the other side goes away."""
    c = socket.socket(fileno=os.dup(sock.fileno()))
    end = time.time() + HOLD
    try:
        while time.time() < end:
            if select.select([c], [], [], 1)[0] and not c.recv(4096):
                return
    except OSError:
        pass
    finally:
        c.close()


def chunked(body):
    return b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + 100]), body[i:i + 100]) for i in range(0, len(body), 100)) + b"0\r\n\r\n"


OK = b"HTTP/1.1 200 OK\r\n"
CL = b"Content-Length: %d\r\n\r\n"
# answers that a careful server would not give; most of them are in order all the same
ODD = {
    "chunked": lambda b: OK + b"Transfer-Encoding: chunked\r\n\r\n" + chunked(b),
    "chunked-cut": lambda b: OK + b"Transfer-Encoding: chunked\r\n\r\n" + chunked(b)[:-7],
    "chunked-bad": lambda b: OK + b"Transfer-Encoding: chunked\r\n\r\nzz\r\n" + b,
    "chunked-huge": lambda b: OK + b"Transfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n" + b,
    "nolength": lambda b: OK + b"Connection: close\r\n\r\n" + b,
    "http10": lambda b: b"HTTP/1.0 200 OK\r\n\r\n" + b,
    "long": lambda b: OK + CL % (len(b) + 10) + b,
    "short": lambda b: OK + CL % (len(b) - 10) + b,
    "negative": lambda b: OK + CL % -5 + b,
    "hugelength": lambda b: OK + CL % (2 ** 64 - 1) + b,
    "biglength": lambda b: OK + CL % (2 ** 62) + b,
    "twolengths": lambda b: OK + b"Content-Length: 3\r\n" + CL % len(b) + b,
    "etag-bytes": lambda b: OK + b'ETag: "\xff\xfe"\r\n' + CL % len(b) + b,
    "etag-empty": lambda b: OK + b"ETag: \r\n" + CL % len(b) + b,
    "etag-long": lambda b: OK + b'ETag: "' + b"x" * 100000 + b'"\r\n' + CL % len(b) + b,
    "headers": lambda b: OK + b"".join(b"X-%d: y\r\n" % i for i in range(5000)) + CL % len(b) + b,
    "interim": lambda b: b"HTTP/1.1 100 Continue\r\n\r\n" * 50 + OK + CL % len(b) + b,
    "early": lambda b: b"HTTP/1.1 103 Early Hints\r\n\r\n" + OK + CL % len(b) + b,
    "gzip": lambda b: OK + b"Content-Encoding: gzip\r\n" + CL % len(b) + b,
    "text": lambda b: OK + b"Content-Type: text/html; charset=utf-16\r\n" + CL % len(b) + b,
    "none": lambda b: b"",
    "garbage": lambda b: b"what?\r\n\r\n",
    "bytes": lambda b: bytes(range(256)) * 20,
    "status": lambda b: b"HTTP/1.1 999 What\r\n" + CL % len(b) + b,
    "status0": lambda b: b"HTTP/1.1 000 What\r\n" + CL % len(b) + b,
    "statusbig": lambda b: b"HTTP/1.1 200000 What\r\n" + CL % len(b) + b,
    "unknown": lambda b: b"HTTP/3.1 200 OK\r\n" + CL % len(b) + b,
    "switch": lambda b: b"HTTP/1.1 101 Switching\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n" + b,
    "noloc": lambda b: b"HTTP/1.1 302 Found\r\n" + CL % len(b) + b,
    "badloc": lambda b: b"HTTP/1.1 302 Found\r\nLocation: :::/\xff\r\n" + CL % len(b) + b,
    "fileloc": lambda b: b"HTTP/1.1 302 Found\r\nLocation: file:///etc/passwd\r\n" + CL % len(b) + b,
}


# these are complete answers with status 200 by RFC 9112
FINE = {"chunked", "nolength", "http10", "early", "interim", "text", "etag-empty"}
# a client may or may not accept these
EITHER = {"biglength", "etag-bytes", "etag-long", "headers", "gzip", "twolengths", "loop", "negative", "hugelength"}


def odd(s, how, body, host, path):
    if how == "loop":
        s.sendall(("HTTP/1.1 302 Found\r\nLocation: https://%s%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % (host, path)).encode("latin-1"))
    elif how == "stall-head":
        silence(s)
    elif how == "stall-status":
        s.sendall(OK)
        silence(s)
    elif how in ("stall-body", "stall-mid"):
        s.sendall(OK + CL % len(body) + (body[:len(body) // 2] if how == "stall-mid" else b""))
        silence(s)
    elif how == "drip":
        s.sendall(OK + CL % len(body))
        for i in range(min(len(body) - 1, HOLD * 2)):
            s.sendall(body[i:i + 1])
            time.sleep(0.5)
    elif how == "drip-head":
        s.sendall(OK)
        for i in range(HOLD * 2):
            s.sendall(b"X-%d: y\r\n" % i)
            time.sleep(0.5)
    elif how == "interims":
        for i in range(HOLD * 2):
            s.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
            time.sleep(0.5)
    else:
        s.sendall(ODD[how](body))
    if not how.startswith(("stall", "drip")):
        try:
            s.unwrap()
        except OSError:
            pass


def etag_of(body):
    return '"%s"' % hashlib.sha256(body).hexdigest()[:16]
