"""C33: keys are fetched from URLs faithfully and only on success."""
import gzip
import json
import threading

from hypothesis import strategies as st

from lib import gen, httpd, ref, routes, x509
from lib.core import Enum, Search, Violation, attempt, check, lib
from props import c15

ID = "C33"
RULE = ("Case: a loopback HTTP server with up to 5 pages (key sets, certificates, redirects of any kind, other status codes, malformed bodies, broken "
        "connections, several framings and content types) and a history of up to 8 fetches, pages changing in between. Oracle: the page an independent "
        "walk over the redirects ends at, its document compared key by key; every request the server sees is one of the walk's. Trivial: only empty key "
        "sets, no redirect, nothing failing.")

from jwkest.jwk import KEYS, load_jwks_from_url, load_x509_cert  # noqa: E402

CTYPES = ["application/json", "application/jwk-set+json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "text/plain",
          "text/html", "text/plain; charset=utf-8", "application/octet-stream", None, "application/jwk-set+json;charset=\"utf-8\""]
STATUS = [400, 401, 403, 404, 405, 408, 410, 418, 429, 451, 500, 501, 502, 503, 504, 599, 300, 304, 306, 203, 204, 206, 226, 999]
TWO = (201, 202, 203, 206, 226)     # nothing is claimed about these
REDIR = [301, 302, 303, 307, 308]
NOTKEYS = [d for d in c15.BADDOC] + ["<html><body>Not found</body></html>", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n", "\x00\x01",
                                     '{"keys": [{"kty": "oct", "k": "AQID"}, ', '{"kty": "oct", "k": "AQID"}', '[{"kty": "oct", "k": "AQID"}]', '"\\ud800', " "]
FAULTS = ["refused", "closed", "headers", "short", "notype", "chunk", "gzip", "badchunk"]

s_doc = st.fixed_dictionaries({"keys": st.lists(c15.keyspec(), max_size=4), "indent": st.sampled_from([None, None, 1]), "ascii": st.booleans(),
                               "more": st.booleans(), "x5u": st.booleans(), "big": st.sampled_from([0, 0, 0, 0, 1, 2]),
                               "kid": st.sampled_from(["", "", "\u00e5\u00e4\u00f6", "\u0141\u00f3d\u017a", "\u9375", "\U0001f511"])})
s_cert = st.fixed_dictionaries({"key": st.one_of(gen.rsa_spec(), gen.rsa_spec(), gen.ec_spec(["P-256"])), "cert": st.sampled_from([{}, {"v": 1}, {"serial": 2**159}]), "nl": st.sampled_from(["\n", "\n", "\r\n"]),
                                "end": st.sampled_from(["\n", "", "\n\n"])})
s_page = st.one_of(
    *[s_doc.map(lambda d: {"p": "doc", "doc": d})] * 5,
    s_cert.map(lambda d: {"p": "cert", "cert": d}),
    s_doc.map(lambda d: {"p": "doc", "doc": d}), s_doc.map(lambda d: {"p": "doc", "doc": d}),
    s_cert.map(lambda d: {"p": "cert", "cert": d}),
    st.tuples(st.lists(c15.keyspec(), max_size=3), st.sampled_from(c15.BAD), st.lists(c15.keyspec(), max_size=2)).map(
        lambda t: {"p": "badkey", "before": t[0], "bad": t[1], "after": t[2]}),
    st.one_of(st.sampled_from(NOTKEYS), st.text(max_size=12)).map(lambda t: {"p": "junk", "text": t}),
    st.tuples(st.sampled_from(REDIR), st.integers(0, 5), st.sampled_from(["abs", "abs", "rel", "query", "refused", "file", "none", "ftp", "frag"])).map(
        lambda t: {"p": "redirect", "status": t[0], "to": t[1], "how": t[2]}),
    st.tuples(st.sampled_from(REDIR), st.integers(0, 5)).map(lambda t: {"p": "redirect", "status": t[0], "to": t[1], "how": "abs"}),
    st.tuples(st.sampled_from(STATUS), st.one_of(s_doc, s_cert, st.just(None))).map(lambda t: {"p": "status", "status": t[0], "body": t[1]}),
    st.tuples(st.sampled_from(FAULTS), s_doc).map(lambda t: {"p": "fault", "how": t[0], "doc": t[1]}))
s_reply = st.tuples(s_page, st.sampled_from(CTYPES), st.sampled_from(["length", "length", "chunked", "close", "gzip", "http10"])).map(
    lambda t: dict(t[0], ctype=t[1], frame=t[2]))
s_op = st.one_of(
    st.tuples(st.sampled_from(["load", "load", "load-noverify", "load-timeout", "list", "list-noverify", "cert", "cert"]), st.integers(0, 4)).map(
        lambda t: {"op": t[0], "page": t[1]}),
    st.tuples(st.integers(0, 4), s_reply).map(lambda t: {"op": "serve", "page": t[0], "reply": t[1]}))
s_case = st.fixed_dictionaries({"pages": st.lists(s_reply, min_size=1, max_size=5), "ops": st.lists(s_op, min_size=1, max_size=8)})


def docbytes(d, srv, n):
    """(text, records)"""
    specs, recs = [], []
    for i, k in enumerate(d["keys"]):
        s, r = c15.spec_of(k)
        if d.get("x5u") and "odd" not in k:
            s = dict(s, x5u="%s/x5u%d" % (srv.base, i))
        if d.get("kid") and i == 0:
            s = dict(s, kid=d["kid"])
            r = dict(r, jwk=dict(r["jwk"], kid=d["kid"]))
        specs.append(s)
        recs.append(r)
    doc = {"keys": specs}
    if d.get("big"):
        # long documents
        k = {"kty": "oct", "k": ref.b64u(b"x" * (300, 3000, 30000)[d["big"]]), "kid": "big"}
        for i in range((0, 30, 3)[d["big"]]):
            specs.append(dict(k, kid="big%d" % i))
            recs.append({"jwk": dict(k, kid="big%d" % i), "kty": "oct", "kid": "big%d" % i})
    if d.get("more"):
        doc = {"jku": srv.base + "/other", "keys": specs, "y": []}
    return json.dumps(doc, indent=d.get("indent"), ensure_ascii=d.get("ascii", True)).encode("utf-8"), recs


def certbytes(c):
    der = x509.cert(dict(x509.PLAIN, **c["cert"]), gen.rkey(c["key"], False))
    return (x509.pem("CERTIFICATE", der, nl=c["nl"], final=False) + c["end"]).encode("ascii")


def frame(status, body, ctype, how, extra=()):
    h = ["HTTP/1.%d %d X" % (0 if how == "http10" else 1, status), "Connection: close"] + list(extra)
    if ctype is not None:
        h.append("Content-Type: " + ctype)
    if status in (204, 304):
        body = b""
    if how == "gzip" and status not in (204, 304):
        body = gzip.compress(body, mtime=0)
        h.append("Content-Encoding: gzip")
    if how == "chunked" and status not in (204, 304):
        h.append("Transfer-Encoding: chunked")
        out = b""
        for i in range(0, len(body), 37):
            p = body[i:i + 37]
            out += b"%x\r\n%s\r\n" % (len(p), p)
        body = out + b"0\r\n\r\n"
    elif how not in ("close", "http10"):
        h.append("Content-Length: %d" % len(body))
    return "\r\n".join(h).encode("ascii") + b"\r\n\r\n" + body


class Web(object):
    def __init__(self, pages):
        self.srv = httpd.server()
        self.pages = list(pages)
        for i, r in enumerate(pages):
            self.serve(i, r)

    def path(self, i):
        return "/p%d?x=%d" % (i, i) if i % 2 else "/dir/p%d" % i

    def url(self, i):
        r = self.pages[i]
        if r["p"] == "fault" and r["how"] == "refused":
            return self.srv.refused + self.path(i)
        return self.srv.base + self.path(i)

    def serve(self, i, r):
        s = self.srv
        self.pages[i] = r
        if r["p"] == "doc":
            out = frame(200, docbytes(r["doc"], s, i)[0], r["ctype"], r["frame"])
        elif r["p"] == "cert":
            out = frame(200, certbytes(r["cert"]), r["ctype"], r["frame"])
        elif r["p"] == "badkey":
            d = [c15.spec_of(k)[0] for k in r["before"]] + [r["bad"]] + [c15.spec_of(k)[0] for k in r["after"]]
            out = frame(200, json.dumps({"keys": d}).encode(), r["ctype"], r["frame"])
        elif r["p"] == "junk":
            out = frame(200, r["text"].encode("utf-8", "surrogatepass"), r["ctype"], r["frame"])
        elif r["p"] == "redirect":
            j = r["to"] % len(self.pages) if r["to"] < 5 else 99
            loc = {"abs": s.base + self.path(j), "rel": self.path(j), "query": self.path(j), "frag": s.base + self.path(j) + "#frag",
                   "refused": s.refused + "/x", "file": "file:///etc/hostname", "ftp": "ftp://127.0.0.1/x", "none": None}[r["how"]]
            # what the redirecting page says is a key set of its own
            body = b'{"keys": [{"kty": "oct", "k": "AQID", "kid": "redirect"}]}'
            out = frame(r["status"], body, r["ctype"], r["frame"], ["Location: " + loc] if loc else [])
        elif r["p"] == "status":
            b = r["body"]
            body = b"" if b is None else docbytes(b, s, i)[0] if "keys" in b else certbytes(b)
            out = frame(r["status"], body, r["ctype"], r["frame"])
        else:
            d = docbytes(r["doc"], s, i)[0]
            out = {"refused": b"", "closed": b"", "headers": b"HTTP/1.1 200 OK\r\nContent-Type: app", "notype": b"SSH-2.0-x\r\n" + d,
                   "short": b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % (len(d) + 5) + d,
                   "chunk": b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n" % len(d) + d,
                   "badchunk": b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n" + d + b"\r\n0\r\n\r\n",
                   "gzip": b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n" % len(d) + d}[r["how"]]
        s.script[self.path(i)] = out

    def walk(self, i):
        """(page the redirects end at or None, paths asked for, hops)"""
        asked, hops = [], 0
        while True:
            r = self.pages[i]
            if r["p"] == "fault" and r["how"] == "refused" and hops == 0:
                return None, asked, hops
            asked.append(self.path(i))
            if r["p"] != "redirect":
                return r, asked, hops
            if r["how"] == "none":
                return None, asked, hops
            if r["how"] in ("refused", "file", "ftp"):
                return None, asked, hops
            if r["to"] == 5:
                return None, asked + [self.path(99)], hops + 1
            i = r["to"] % len(self.pages)
            hops += 1
            if hops > 12:
                return None, None, hops      # a loop


def content(ks):
    return [lib(k.serialize) for k in ks]


def p_fetch(c):
    web = Web(c["pages"])
    ks = lib(KEYS)
    model = []          # public JWKs in the set
    seen = {}
    certs = {}
    tags = ["trivial"]
    for o in c["ops"]:
        i = o["page"] % len(web.pages)
        if o["op"] == "serve":
            web.serve(i, o["reply"])
            continue
        page, asked, hops = web.walk(i)
        kind = None if page is None else page["p"]
        url = web.url(i)
        del web.srv.log[:]
        what = "%s of %s -> %s" % (o["op"], c["pages"][i]["p"], json.dumps(page)[:300])
        if hops:
            tags.append("redirect")
        if kind not in ("doc", "cert"):
            tags.append("failing:%s" % kind)
        elif kind == "doc" and page["doc"]["keys"]:
            tags.append("keys")
        if o["op"] == "cert":
            keys_before = dict(certs)
            got = lib(load_x509_cert, url, certs)
            if kind == "cert" and page["cert"]["key"]["t"] == "RSA":
                k = gen.RSA_KEYS[page["cert"]["key"]["i"]]
                check(isinstance(got, list) and len(got) == 1 and got[0][0] == "rsa", "%s gives %s", what, got)
                check((got[0][1].n, got[0][1].e) == (k["n"], k["e"]) and not got[0][1].has_private(), "%s gives another key", what)
                tags.append("cert")
            elif kind == "status" and page["status"] in TWO:
                pass
            else:
                check(got == [], "%s gives %s", what, got)
                check(certs == keys_before, "%s: a key is remembered for a failing URL", what)
        else:
            if o["op"] == "load":
                ok, val = attempt(ks.load_from_url, url)
            elif o["op"] == "load-noverify":
                ok, val = attempt(ks.load_from_url, url, verify=False)
            elif o["op"] == "load-timeout":
                ok, val = attempt(ks.load_from_url, url, timeout=30, verify=True)
            elif o["op"] == "list":
                ok, val = attempt(load_jwks_from_url, url)
            else:
                ok, val = attempt(load_jwks_from_url, url, False)
            listing = o["op"].startswith("list")
            if kind == "status" and page["status"] in TWO and page["body"] and "keys" in page["body"]:
                if ok:
                    recs = docbytes(page["body"], web.srv, i)[1]
                    new = [r["jwk"] for r in recs]
                else:
                    new = []
            elif kind == "doc":
                if not ok:
                    raise Violation("%s fails: %r" % (what, val))
                new = [r["jwk"] for r in docbytes(page["doc"], web.srv, i)[1]]
            else:
                check(not ok, "%s succeeds", what)
                new = []
                if kind == "badkey":
                    # as if loaded locally
                    loc = lib(KEYS)
                    spec = [c15.spec_of(k)[0] for k in page["before"]] + [page["bad"]]
                    attempt(loc.load_jwks, json.dumps({"keys": spec}))
                    new = content(loc)
            if listing:
                if ok:
                    check(isinstance(val, list) and gen.same(content(val), new), "%s gives %s, expected %s", what, val, new)
            else:
                model += new
            check(gen.same(content(ks), model), "%s: the set now holds %s, expected %s", what, content(ks), model)
        # every request is one of the walk's, in order, all GET
        log = list(web.srv.log)
        check(all(m == "GET" for m, _ in log), "%s: requests %s", what, log)
        if asked is not None and kind != "fault":
            check([p for _, p in log] == asked, "%s: requests %s, expected %s", what, log, asked)
        else:
            ok = {web.path(j) for j in range(len(web.pages))}
            check({p for _, p in log} <= ok, "%s: requests %s", what, log)
    if len(tags) > 1:
        tags = tags[1:]
    return tags


def many(tier):
    for n in (20, 100, 300) + ((2000,) if tier != "quick" else ()):
        for fr in ("length", "chunked", "gzip", "close"):
            for pad in (0, 1 << 20):
                yield {"n": n, "frame": fr, "pad": pad}


def p_many(c):
    """Long documents arrive whole."""
    specs = [dict(ref.jwk_public(gen.rkey({"t": "oct", "k": "%06x" % i} if i % 5 else {"t": "RSA", "i": i % 21}, False)), kid="k%d" % i) for i in range(c["n"])]
    body = json.dumps({"pad": "x" * c["pad"], "keys": specs}).encode()
    srv = httpd.server()
    srv.script["/many"] = frame(200, body, "application/json", c["frame"])
    ks = lib(KEYS)
    lib(ks.load_from_url, srv.base + "/many")
    check(gen.same(content(ks), specs), "%s keys loaded from a document of %s octets with %s", len(ks), len(body), len(specs))
    lib(ks.load_from_url, srv.base + "/many")
    check(gen.same(content(ks), specs + specs), "%s keys after loading %s twice", len(ks), len(specs))
    check(gen.same(content(lib(load_jwks_from_url, srv.base + "/many")), specs), "listing differs")
    return [c["frame"]]


VERIFY = ["default", "True", "False", "good", "other"]
s_opt = st.fixed_dictionaries({"site": st.sampled_from(["good", "good", "other"]), "op": st.sampled_from(["load", "load", "list", "cert"]),
                               "verify": st.sampled_from(VERIFY), "via": st.sampled_from(["", "", "plain", "tls"]), "frame": st.sampled_from(["length", "chunked", "gzip"]),
                               "keys": st.lists(c15.keyspec(), min_size=1, max_size=2), "rsa": gen.rsa_spec(),
                               "header": st.one_of(st.none(), st.none(), st.text("abcXYZ019-_. ", min_size=1, max_size=12).map(str.strip).filter(bool)),
                               "stall": st.sampled_from([False] * 7 + [True])})


def p_options(c):
    """verify, timeout and other options reach the request: over TLS a key is
    only taken from a site whose certificate is trusted, or when told not to ask."""
    site = httpd.server(c["site"])
    plain = httpd.server()
    if c["op"] == "cert":
        body, want = certbytes({"key": c["rsa"], "cert": {}, "nl": "\n", "end": "\n"}), None
    else:
        body, recs = docbytes({"keys": c["keys"]}, plain, 0)
        want = [r["jwk"] for r in recs]
    site.script["/doc"] = frame(200, body, "application/json", c["frame"])
    url = site.base + "/doc"
    if c["via"]:
        s = plain if c["via"] == "plain" else site
        s.script["/go"] = frame(302, b"", None, "length", ["Location: " + url])
        url = s.base + "/go"
    kw = {}
    if c["verify"] in ("True", "False"):
        kw["verify"] = c["verify"] == "True"
    elif c["verify"] != "default":
        kw["verify"] = httpd.fixture("tls_%s.crt" % c["verify"])
    # only a certificate that names 127.0.0.1 will do
    good = c["verify"] == "False" or c["site"] == c["verify"] == "good"
    what = "%s of a %s site, verify=%s, via %r" % (c["op"], c["site"], c["verify"], c["via"])
    if c["op"] != "list":
        if c["header"]:
            kw["headers"] = {"X-Asked": c["header"]}
        if c["stall"]:
            site.hold = threading.Event()
            kw["timeout"] = 0.2
            good = False
    ks = lib(KEYS)
    seen = {}
    try:
        if c["op"] == "cert":
            ok, val = attempt(load_x509_cert, url, seen, **kw)
        elif c["op"] == "load":
            ok, val = attempt(ks.load_from_url, url, **kw)
        else:
            ok, val = attempt(load_jwks_from_url, url, **kw)
    finally:
        if site.hold:
            site.hold.set()
    if c["op"] == "cert":
        check(ok, "%s fails: %r", what, val)
        if good:
            k = gen.RSA_KEYS[c["rsa"]["i"]]
            check(len(val) == 1 and (val[0][1].n, val[0][1].e) == (k["n"], k["e"]), "%s gives %s", what, val)
        else:
            check(val == [] and seen == {}, "%s gives %s, remembers %s", what, val, seen)
    elif good:
        if not ok:
            raise Violation("%s fails: %r" % (what, val))
        check(gen.same(content(val if c["op"] == "list" else ks), want), "%s: gives %s, expected %s", what, content(ks), want)
    else:
        check(not ok, "%s succeeds", what)
        check(content(ks) == [], "%s adds keys", what)
    if "headers" in kw and good:
        check(all("X-Asked: " + c["header"] in h for h in site.heads), "%s: the header asked for is not sent: %s", what, site.heads)
    if not good and not site.hold:
        check(site.log == [], "%s: the site is asked for %s", what, site.log)
    return ["%s:%s" % (c["op"], "good" if good else "stall" if site.hold else "refused")] + (["redirect"] if c["via"] else [])


SUBTESTS = [
    Search("options", s_opt, p_options, quick=300, thorough=6000),
    Enum("many", many, p_many),
    Search("fetches", s_case, p_fetch, quick=4000, thorough=60000),
]
