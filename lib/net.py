"""Stand-ins for the network: every request is recorded and answered from a
table, nothing leaves the process."""
import socket
from contextlib import contextmanager


class Log(list):
    pass


def response(status, body, ctype="application/json", url=""):
    import requests
    r = requests.Response()
    r.status_code = status
    r._content = body
    r.headers["Content-Type"] = ctype
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    r.url = url
    return r


@contextmanager
def fake(answer):
    """answer(url) -> (status, body, content type) or None (no connection)."""
    import requests
    log = Log()

    def req(self, method, url, *a, **kw):
        log.append(url)
        r = answer(url)
        if r is None:
            raise requests.ConnectionError("no connection to %s" % url)
        return response(*r, url=url)

    def refuse(*a, **kw):
        log.append(repr(a[:3]))
        raise OSError("no network here")
    old = requests.sessions.Session.request
    saved = [(socket, "getaddrinfo", socket.getaddrinfo), (socket.socket, "connect", socket.socket.connect),
             (socket.socket, "connect_ex", socket.socket.connect_ex)]
    requests.sessions.Session.request = req
    for o, n, _ in saved:
        setattr(o, n, refuse)
    try:
        yield log
    finally:
        requests.sessions.Session.request = old
        for o, n, v in saved:
            setattr(o, n, v)
