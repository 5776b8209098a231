"""A real HTTP server on the loopback interface, for what only real sockets show (new and reused connections)."""
import socket, ssl as _ssl, struct, threading, time
from . import env
from . import codec as C


def _cert():
    import datetime, tempfile, os
    from cryptography import x509
    from cryptography.x509.oid import NameOID
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.hazmat.primitives.asymmetric import ec
    k = ec.generate_private_key(ec.SECP256R1())
    n = x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, "localhost")])
    now = datetime.datetime(2020, 1, 1)
    c = x509.CertificateBuilder().subject_name(n).issuer_name(n).public_key(k.public_key()).serial_number(1).not_valid_before(now) \
        .not_valid_after(now + datetime.timedelta(days=20000)).sign(k, hashes.SHA256())
    fd, p = tempfile.mkstemp(suffix=".pem")
    os.write(fd, k.private_bytes(serialization.Encoding.PEM, serialization.PrivateFormat.PKCS8, serialization.NoEncryption()) + c.public_bytes(serialization.Encoding.PEM))
    os.close(fd)
    ctx = _ssl.SSLContext(_ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(p)
    os.unlink(p)
    return ctx


_CTX = []


class Loop:
    """answer(req) -> (status, headers, body) | "reset" (close without a reply) | "silent" (no reply until the client gives up).
    A header Connection: close ends the connection after the reply."""
    def __init__(self, tls=False, pem=None, proxy=False):
        self.proxy = proxy
        if pem:
            self.ctx = _ssl.SSLContext(_ssl.PROTOCOL_TLS_SERVER)
            self.ctx.set_ciphers("DEFAULT@SECLEVEL=0")
            self.ctx.load_cert_chain(pem)
        elif tls:
            if not _CTX: _CTX.append(_cert())
            self.ctx = _CTX[0]
        self.tls = tls
        self.answer = None
        self.accepted = 0
        self.reqs = []
        self.open = {}
        self.lock = threading.Lock()
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(20)
        self.port = self.l.getsockname()[1]
        self.alive = True
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while self.alive:
            try: c, a = self.l.accept()
            except OSError: return
            if not self.alive:
                c.close()
                return
            with self.lock:
                self.accepted += 1
            threading.Thread(target=self.serve, args=(c, a), daemon=True).start()

    def serve(self, c, a):
        try:
            c.settimeout(60)
            if self.tls and not self.proxy: c = self.ctx.wrap_socket(c, server_side=True)
            with self.lock: self.open[a[1]] = c
            f = c.makefile("rb")
            while True:
                line = f.readline()
                if not line: break
                h = {}
                while True:
                    x = f.readline()
                    if x in (b"\r\n", b""): break
                    k, v = x.decode("latin-1").split(":", 1)
                    h[k.strip().lower()] = v.strip()
                if line.startswith(b"CONNECT "):  # as the proxy of itself
                    c.sendall(b"HTTP/1.1 200 ok\r\n\r\n")
                    c = self.ctx.wrap_socket(c, server_side=True)
                    with self.lock: self.open[a[1]] = c
                    f = c.makefile("rb")
                    continue
                body = f.read(int(h.get("content-length", "0")))
                r = C.Req(body, None, h)
                with self.lock: self.reqs.append(r)
                out = self.answer(r)
                if out == "reset": break
                if out == "silent":
                    f.read(1)
                    break
                st, hd, b = out
                part = hd.pop("X-Part", None) if "X-Part" in hd else None   # only half of the reply, then the end or silence
                c.sendall(("HTTP/1.1 %d X\r\n%sContent-Length: %d\r\n\r\n" % (st, "".join("%s: %s\r\n" % kv for kv in hd.items()), len(b))).encode() + (b[:len(b) // 2] if part else b))
                if part == "silent": f.read(1)
                if part: break
                if hd.get("Connection") == "close": break
        except Exception:
            pass
        finally:
            with self.lock: self.open.pop(a[1], None)
            try: c.close()
            except Exception: pass

    def drop(self):
        """Close every idle connection and wait until the client's side has seen it."""
        with self.lock: l = list(self.open.items())
        for p, c in l:
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass
        for p, c in l:
            for _ in range(1000):
                st = client_state(p, self.port)
                if st in (None, "08", "07"): break
                env.REAL_SLEEP(0.002)
        for _ in range(2000):
            with self.lock:
                if not any(p in self.open for p, _ in l): return
            env.REAL_SLEEP(0.002)

    def close(self):
        self.alive = False
        try: socket.create_connection(("127.0.0.1", self.port), 1).close()
        except OSError: pass
        self.l.close()
        for c in list(self.open.values()):
            try: c.shutdown(socket.SHUT_RDWR)
            except OSError: pass


def client_state(lport, rport):
    want = ("0100007F:%04X" % lport, "0100007F:%04X" % rport)
    try:
        with open("/proc/net/tcp") as f:
            for ln in f:
                x = ln.split()
                if x[1:3] == list(want): return x[3]
    except OSError:
        env.REAL_SLEEP(0.05)
    return None
