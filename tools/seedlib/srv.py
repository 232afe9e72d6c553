"""A loopback HTTPS source for the demonstrations: serves a Box's source directory."""
import hashlib, os, socket, ssl, subprocess, threading, time


class Web:
    """Serves b.src below https://localhost:<port>/rrdp/.  status: {file: status},
    etags: whether to send ETags and to honour If-None-Match."""

    def __init__(self, b, name="localhost", etags=False):
        self.b, self.etags, self.status, self.log, self.stall = b, etags, {}, [], set()
        key, crt = b.top + "/srv.key", b.top + "/srv.pem"
        subprocess.run(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", key, "-out", crt, "-days", "2",
                        "-subj", "/CN=" + name, "-addext", "subjectAltName=DNS:" + name], check=True, stderr=subprocess.DEVNULL)
        os.chmod(crt, 0o644)
        self.crt = crt
        self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(crt, key)
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(32)
        b.host = "localhost:%d" % self.sock.getsockname()[1]
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            c.settimeout(20)
            s = self.ctx.wrap_socket(c, server_side=True)
            f = s.makefile("rb")
            path = f.readline().decode().split()[1]
            hd = {}
            while True:
                l = f.readline().decode().strip()
                if not l:
                    break
                k, _, v = l.partition(":")
                hd[k.lower()] = v.strip()
            rel = path[len("/rrdp/"):] if path.startswith("/rrdp/") else "-"
            p = os.path.join(self.b.src, rel)
            st, body, extra = 404, b"", ""
            if os.path.isfile(p):
                body, st = open(p, "rb").read(), self.status.get(rel, 200)
                tag = '"%s"' % hashlib.sha256(body).hexdigest()[:12]
                if self.etags:
                    extra = "ETag: %s\r\n" % tag
                    if hd.get("if-none-match") == tag and st == 200:
                        st, body = 304, b""
            self.log.append((rel, st))
            if rel in self.stall:
                s.sendall(b"HTTP/1.1 200 X\r\nContent-Length: %d\r\n\r\n" % len(body) + body[:10])
                time.sleep(400)
            s.sendall(("HTTP/1.1 %d X\r\nConnection: close\r\n%s%s\r\n" % (
                st, extra, "" if st == 304 else "Content-Length: %d\r\n" % len(body))).encode() + body)
            s.unwrap()
        except (OSError, ValueError, IndexError):
            pass
        finally:
            c.close()
