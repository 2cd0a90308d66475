"""A scripted loopback HTTP server: one per process, every reply is raw bytes."""
import os
import socket
import ssl
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for _v in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "SSL_CERT_FILE", "SSL_CERT_DIR"):
    os.environ.pop(_v, None)
os.environ["no_proxy"] = os.environ["NO_PROXY"] = "*"


def fixture(name):
    return os.path.join(HERE, "fixtures", name)


class Server(object):
    def __init__(self, tls=None):
        self.script = {}
        self.log = []
        self.heads = []
        self.hold = None        # an event: replies wait for it
        self.tls = None
        if tls:
            self.tls = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            self.tls.load_cert_chain(fixture("tls_%s.pem" % tls))
        self.pid = os.getpid()
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.base = "http%s://127.0.0.1:%d" % ("s" if tls else "", self.port)
        # a port nobody listens on: bound, never listening
        self.closed = socket.socket()
        self.closed.bind(("127.0.0.1", 0))
        self.refused = "http://127.0.0.1:%d" % self.closed.getsockname()[1]
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(c,), daemon=True).start()

    def one(self, c):
        try:
            c.settimeout(20)
            if self.tls:
                c = self.tls.wrap_socket(c, server_side=True)
            b = b""
            while b"\r\n\r\n" not in b:
                d = c.recv(4096)
                if not d:
                    return
                b += d
            line = b.split(b"\r\n", 1)[0].decode("latin-1").split(" ")
            self.log.append((line[0], line[1]))
            self.heads.append(b.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")[1:])
            if self.hold:
                self.hold.wait(60)
            out = self.script.get(line[1].split("#")[0])
            if out is None:
                out = b"HTTP/1.1 404 Not Found\r\nContent-Length: 2\r\nConnection: close\r\n\r\nno"
            c.sendall(out)
            if self.tls:
                c.unwrap()
                return
            c.shutdown(socket.SHUT_WR)
            while c.recv(4096):
                pass
        except OSError:
            pass
        finally:
            c.close()


_servers = {}


def server(tls=None):
    s = _servers.get(tls)
    if s is None or s.pid != os.getpid():
        s = _servers[tls] = Server(tls)
    s.script = {}
    s.log = []
    s.heads = []
    s.hold = None
    return s
