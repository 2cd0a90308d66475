"""C32: the command-line tools do what their options say."""
import base64
import contextlib
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from lib import core, gen, jweg, net, ref, x509
from lib.core import Enum, Search, Violation, attempt, check, lib

ID = "C32"
TECHNIQUE = ("property-based testing of the tools' main blocks (run in-process, and a sample as real processes) against an independent "
             "reference and by round trip between tools")
RULE = ("Case: tool pair, algorithm, key and key file format (JWK, JWKS with other keys in it, PEM private/public key, certificate, URL, "
        "shared text), message, and how message and token are passed (argument, file, stdin). Oracle: the message itself; the independent "
        "reference on what a tool wrote; tokens made by the reference. Trivial: empty messages.")


# ------------------------------------------------------------ running tools
class ToolFailed(Exception):
    pass


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="verif-c32-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_inproc(name, argv, stdin, served):
    out, err = io.StringIO(), io.StringIO()
    old, oldin, oldcwd = sys.argv, sys.stdin, os.getcwd()
    sys.argv = [name + ".py"] + argv
    sys.stdin = io.StringIO(stdin or "")
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), net.fake(lambda u: served.get(u)):
            try:
                runpy.run_path(os.path.join(core.REPO, "script", name + ".py"), run_name="__main__")
            except SystemExit as e:
                code = e.code
    finally:
        sys.argv, sys.stdin = old, oldin
        os.chdir(oldcwd)
    return out.getvalue(), err.getvalue(), code or 0


def run_process(name, argv, stdin, served):
    env = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8", PYTHONUTF8="1")
    p = subprocess.run([sys.executable, os.path.join(core.REPO, "script", name + ".py")] + argv, input=(stdin or "").encode("utf-8"), env=env,
                       capture_output=True, timeout=120)
    return p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace"), p.returncode


class World(object):
    def __init__(self, d, process=False):
        self.d, self.served, self.n = d, {}, 0
        self.process = process

    def file(self, data):
        self.n += 1
        p = os.path.join(self.d, "f%d" % self.n)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
        return p

    def url(self, data, ctype):
        self.n += 1
        u = "http://keys.example.com/%d" % self.n
        self.served[u] = (200, data if isinstance(data, bytes) else data.encode("utf-8"), ctype)
        return u

    def run(self, name, argv, stdin=None):
        """What the tool printed; a Violation when it failed."""
        fn = run_process if self.process else run_inproc
        ok, r = attempt(fn, name, argv, stdin, self.served)
        if not ok:
            raise Violation("%s %s failed: %s: %s" % (name, core.show(argv), type(r).__name__, r))
        out, err, code = r
        check(code == 0, "%s %s exits with %s: %s", name, argv, code, err)
        check(out.endswith("\n"), "%s %s printed %s", name, argv, out)
        return out[:-1]

    def token(self, name, argv, stdin=None):
        t = self.run(name, argv, stdin)
        check("\n" not in t and t == t.strip(), "%s %s printed %s instead of one token", name, argv, t)
        return t


def message(w, how, m):
    """(arguments, stdin) that pass text m"""
    if how == "file":
        return ["-f", w.file(m)], None
    if how == "stdin":
        return ["-"], m
    return (["--", m] if m.startswith("-") else [m]), None


# ------------------------------------------------------------ key files
def jwks(spec, private, others, meta):
    keys = []
    for o in others:
        r = gen.rkey(o, private)
        keys.append(ref.jwk_private(r) if private and o["t"] != "oct" else ref.jwk_public(r))
    r = gen.rkey(spec, private)
    d = ref.jwk_private(r) if private and spec["t"] != "oct" else ref.jwk_public(r)
    d.update({k: v for k, v in meta.items() if v})
    keys.append(d)
    return {"keys": keys}


def pem_private(spec):
    return x509.pem("RSA PRIVATE KEY", x509.rsa_private(gen.rkey(spec, True)))


def pem_public(spec):
    r = gen.rkey(spec, False)
    return x509.pem("PUBLIC KEY", x509.spki(r.n, r.e))


def certificate(spec):
    return x509.pem("CERTIFICATE", x509.cert(x509.PLAIN, gen.rkey(spec, True)))


def enc_key_args(w, how, c):
    """Arguments giving jwenc the key."""
    s = c["key"]
    if how == "J":
        return ["-J", w.url(json.dumps(jwks(s, False, c["others"], c["meta"])), "application/json")]
    if how == "j":
        return ["-j", w.file(json.dumps(jwks(s, c["privkeys"], c["others"], c["meta"])))]
    if how == "x":
        return ["-x", w.file(certificate(s))]
    if how == "X":
        return ["-X", w.url(certificate(s), "text/plain; charset=us-ascii")]
    return ["-r", w.file(pem_private(s) if c["privkeys"] else pem_public(s))]


def dec_key_args(w, how, c):
    s = c["key"]
    if how == "J":
        return ["-J", w.url(json.dumps(jwks(s, True, c["others"], c["meta"])), "application/json")]
    if how in ("j", "x", "X") and not (how != "j"):
        return ["-j", w.file(json.dumps(jwks(s, True, c["others"], c["meta"])))]
    return ["-r", w.file(pem_private(s))]


# ------------------------------------------------------------ messages
text = st.one_of(gen.text_payload, st.text(alphabet="ab \n{}\":", max_size=20), st.integers(1, 3000).map(lambda n: "long " * n)).filter(
    lambda t: "\r" not in t and "\x00" not in t)
words = text.filter(lambda t: t != "-")


def others(spec):
    """Keys of other types, so that nothing but the right key fits."""
    return st.lists(gen.any_key.filter(lambda k: k["t"] != spec["t"]), max_size=2)


def s_enc():
    def more(t):
        alg, enc = t
        def for_key(k):
            hows = ["j", "j", "J"] + (["x", "X", "r", "r"] if k["t"] == "RSA" else [])
            dhows = ["j", "J"] + (["r", "r"] if k["t"] == "RSA" else [])
            return st.fixed_dictionaries({
                "alg": st.just(alg), "enc": st.just(enc), "key": st.just(k), "others": others(k), "privkeys": st.booleans(),
                "meta": st.fixed_dictionaries({"kid": st.sampled_from(["", "", "1"]), "use": st.sampled_from(["", "", "enc"])}),
                "khow": st.sampled_from(hows), "dhow": st.sampled_from(dhows), "msg": words, "mhow": st.sampled_from(["arg", "file", "stdin"]),
                "thow": st.sampled_from(["arg", "file"]), "nl": st.sampled_from(["", "\n", "\r\n"]), "mode": st.sampled_from(["tool", "tool", "ref-out", "ref-in"]),
                "seed": st.integers(0, 999), "rng": gen.rng_spec})
        return jweg.km_key(alg, enc).flatmap(for_key)
    return st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC * 5 + jweg.GCM)).flatmap(more)


def kid_ok(c):
    return c


def p_enc(c, process=False):
    with scratch() as d:
        w = World(d, process)
        m = c["msg"]
        if c["mode"] != "ref-in":
            a, stdin = message(w, c["mhow"], m)
            t = w.token("jwenc", ["-a", c["alg"], "-e", c["enc"]] + enc_key_args(w, c["khow"], c) + a, stdin)
            h, pt = ref.jwe_open(t, gen.rkey(c["key"]))[:2]
            check(h["alg"] == c["alg"] and h["enc"] == c["enc"], "header %s", h)
            check(pt == m.encode("utf-8"), "the token holds %s, not the message", pt)
        else:
            from lib import rng
            h = {"alg": c["alg"], "enc": c["enc"]}
            r = rng.fixed_bytes(b"c32-%d" % c["seed"], 900)
            rb = jweg.rnd_bytes(c["alg"], c["key"], "%016x" % c["seed"])
            t = ref.jwe_make(h, m.encode("utf-8"), gen.rkey(c["key"]), r[:ref.ENC_KEYLEN[c["enc"]]], r[100:100 + ref.ivlen(c["enc"])], rb, eph_d=c["seed"] + 3)
        if c["mode"] != "ref-out":
            a = [t] if c["thow"] == "arg" else ["-f", w.file(t + c["nl"])]
            dh = c["dhow"]
            if "kid" in h and dh == "r":
                dh = "j"
            got = w.run("jwdecrypt", dec_key_args(w, dh, c) + a)
            check(got == m, "decrypted to %s", got)
    return [c["alg"], c["mode"], c["khow"] + c["dhow"], c["mhow"]] + ([] if m else ["trivial"])


# ------------------------------------------------------------ jwkutil
SIGN = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "ES256", "ES384", "ES512"]


def hmac_text():
    return st.text(min_size=1, max_size=30).filter(lambda t: "\x00" not in t).map(lambda t: {"t": "oct", "k": t.encode("utf-8").hex(), "text": t})


def ukey(alg):
    if alg[:2] == "HS":
        return st.one_of(gen.key_for(alg), hmac_text())
    return gen.key_for(alg)


def key_args(w, how, spec, private, meta):
    d = jwks(spec, private, [], meta)
    if how == "j":
        return ["-j", w.file(json.dumps(d["keys"][0]))]
    if how == "J":
        return ["-J", w.file(json.dumps(d))]
    if how == "u":
        return ["-u", w.url(json.dumps(d), "application/json")]
    if how == "k":
        return ["-k=" + spec["text"]]
    return ["-r", w.file(pem_private(spec) if private else pem_public(spec))] + (["-i", meta["kid"]] if meta.get("kid") else [])


def key_hows(spec, meta):
    r = ["j", "J", "u"]
    if spec.get("text") is not None and not any(meta.values()):
        r += ["k"] * 4
    if spec["t"] == "RSA" and not meta.get("use"):
        r += ["r"] * 3
    return r


def s_meta(uses):
    return st.fixed_dictionaries({"kid": st.sampled_from(["", "", "1", "k\u00e5"]), "use": st.sampled_from(["", ""] + uses)})


def s_sign():
    def more(alg):
        return st.tuples(ukey(alg), s_meta(["sig"])).flatmap(lambda t: st.fixed_dictionaries({
            "alg": st.just(alg), "key": st.just(t[0]), "meta": st.just(t[1]), "khow": st.sampled_from(key_hows(*t)), "vhow": st.sampled_from(key_hows(*t)),
            "pub": st.booleans(), "msg": words, "mhow": st.sampled_from(["arg", "file", "stdin"]), "thow": st.sampled_from(["arg", "file", "stdin"]),
            "typ": st.sampled_from([None, None, "JWT"]), "nl": st.sampled_from(["", "\n"]), "mode": st.sampled_from(["tool", "tool", "ref-in"]),
            "seed": st.integers(0, 999), "tamper": st.sampled_from([False] * 4 + [True]), "rng": gen.rng_spec}))
    return st.sampled_from(SIGN).flatmap(more)


def shown(payload):
    """The text the tool prints for a payload."""
    return str(ref.payload_value(payload))


def p_sign(c, process=False):
    with scratch() as d:
        w = World(d, process)
        m = c["msg"]
        rk = gen.rkey({k: v for k, v in c["key"].items() if k != "text"})
        want = m.strip("\n") if c["mhow"] == "file" else m
        if c["mode"] == "tool":
            a, stdin = message(w, c["mhow"], m)
            t = w.token("jwkutil", ["-s", "-a", c["alg"]] + key_args(w, c["khow"], c["key"], True, c["meta"]) + (["-t", c["typ"]] if c["typ"] else []) + a, stdin)
            h, payload = ref.jws_open(t, [rk])[:2]
            check(h["alg"] == c["alg"] and h.get("typ") == c["typ"] and h.get("kid", "") == c["meta"]["kid"], "header %s", h)
            check(payload == want.encode("utf-8"), "signed %s instead of the message", payload)
        else:
            from lib import rng
            want = m
            t = ref.jws_sign(json.dumps({"alg": c["alg"]}), m.encode("utf-8"), rk, c["alg"], rng.fixed_bytes(b"c32s%d" % c["seed"], 200))
        bad = c["tamper"]
        if bad:
            p = t.split(".")
            p[1] = ref.b64u(want.encode("utf-8") + b"x")
            t = ".".join(p)
        a, stdin = ([t], None) if c["thow"] == "arg" else (["-f", w.file(t + c["nl"])], None) if c["thow"] == "file" else (["-"], t + c["nl"])
        pub = c["pub"] and c["key"]["t"] != "oct"
        argv = ["-v"] + key_args(w, c["vhow"], c["key"], not pub, c["meta"]) + a
        if bad:
            fn = run_process if process else run_inproc
            ok, r = attempt(fn, "jwkutil", argv, stdin, w.served)
            check(not ok or r[2] != 0 and not r[0].strip(), "jwkutil -v accepts a changed token: %s", r)
            return [c["alg"], "changed"]
        got = w.run("jwkutil", argv, stdin)
        check(got == shown(want.encode("utf-8")), "verified to %s instead of %s", got, want)
    return [c["alg"], c["khow"] + c["vhow"], c["mhow"] + c["thow"]] + ([] if m else ["trivial"])


def s_both():
    """Signed then encrypted, and encrypted only."""
    def more(t):
        sig, alg, enc = t
        return st.tuples(ukey(sig), jweg.km_key(alg, enc)).filter(
            lambda k: k[0]["t"] != k[1]["t"] and k[1].get("text") is None).flatmap(lambda k: st.fixed_dictionaries({
                "sig": st.just(sig), "alg": st.just(alg), "enc": st.just(enc), "sk": st.just(k[0]), "ek": st.just(k[1]),
                "sh": st.sampled_from(key_hows(k[0], {})), "eh": st.sampled_from(key_hows(k[1], {})), "dh": st.sampled_from(key_hows(k[1], {})),
                "vh": st.sampled_from(key_hows(k[0], {})), "order": st.booleans(), "msg": words, "mhow": st.sampled_from(["arg", "file", "stdin"]),
                "thow": st.sampled_from(["arg", "file", "stdin"]), "nl": st.sampled_from(["", "\n"]), "sign": st.sampled_from([True, True, False]), "rng": gen.rng_spec}))
    return st.tuples(st.sampled_from(SIGN), st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC * 5 + jweg.GCM)).filter(
        lambda t: ref.alg_kty(t[0]) != jweg.km_kty(t[1])).flatmap(more)


def two(w, order, a, b):
    """Arguments for two keys, each option once."""
    fa, fb = a, b
    if fa[0] == fb[0] and fa[0] in ("-j", "-J", "-u"):
        return None
    return fa + fb if order else fb + fa


def p_both(c, process=False):
    with scratch() as d:
        w = World(d, process)
        m = c["msg"]
        want = m.strip("\n") if c["mhow"] == "file" else m

        def keys(h1, h2, private):
            if h1 == h2 and h1 in ("j", "J", "u"):
                h1, h2 = "j", "J"
            a = key_args(w, h1, c["sk"], True, {}) if c["sign"] else []
            b = key_args(w, h2, c["ek"], private, {})
            return a + b if c["order"] else b + a
        a, stdin = message(w, c["mhow"], m)
        t = w.token("jwkutil", (["-s", "-a", c["sig"]] if c["sign"] else []) + ["-e", "-A", c["alg"], "-E", c["enc"]] + keys(c["sh"], c["eh"], c["order"]) + a, stdin)
        h, pt = ref.jwe_open(t, gen.rkey(c["ek"]))[:2]
        check(h["alg"] == c["alg"] and h["enc"] == c["enc"], "header %s", h)
        if c["sign"]:
            inner = ref.jws_open(pt.decode("ascii"), [gen.rkey({k: v for k, v in c["sk"].items() if k != "text"})])[1]
            check(inner == want.encode("utf-8"), "the inner token holds %s", inner)
        else:
            check(pt == want.encode("utf-8"), "the token holds %s", pt)
        a, stdin = ([t], None) if c["thow"] == "arg" else (["-f", w.file(t + c["nl"])], None) if c["thow"] == "file" else (["-"], t + c["nl"])
        got = w.run("jwkutil", ["-d"] + (["-v"] if c["sign"] else []) + keys(c["vh"], c["dh"], True) + a, stdin)
        check(got == (shown(want.encode("utf-8")) if c["sign"] else want), "undone to %s", got)
    return [c["alg"]] + ([c["sig"]] if c["sign"] else ["encrypted only"]) + ([] if m else ["trivial"])


# ------------------------------------------------------------ peek
def s_peek():
    jwst = st.tuples(st.sampled_from(SIGN), gen.payload, gen.header_params).flatmap(
        lambda t: gen.key_for(t[0]).map(lambda k: {"kind": "jws", "alg": t[0], "payload": t[1], "hdr": t[2], "key": k}))
    jwet = st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC * 5 + jweg.GCM)).flatmap(
        lambda t: jweg.made(*t)).map(lambda c: dict(c, kind="jwe"))
    none = st.one_of(st.text(max_size=20), st.sampled_from(["a.b.c", "a.b.c.d.e", "", "e30.e30.", "....", "..", "e30.e30.e30.e30.e30"])).filter(lambda t: not t.startswith("{")).map(
        lambda t: {"kind": "none", "text": t})
    return st.one_of(jwst, jwst, jwet, none)


def p_peek(c, process=False):
    if c["kind"] == "jws":
        pl = gen.payload_octets(c["payload"])
        pl = json.dumps(gen.json_of(c["payload"])).encode() if pl is None else pl
        t = ref.jws_sign(json.dumps(dict(c["hdr"], alg=c["alg"])), pl, gen.rkey(c["key"]), c["alg"], b"\7" * 80)
    elif c["kind"] == "jwe":
        t = jweg.make(c)
    else:
        t = c["text"]
    fn = run_process if process else run_inproc
    if c["kind"] == "none":
        ok, r = attempt(fn, "peek", [t], None, {})
        if not ok:
            # only JSON text may be too much for it
            okj, _ = attempt(json.loads, t)
            check(okj, "peek fails on %s: %s", t, r)
            return ["not a token"]
        check(r[0].split("\n")[0] not in ("jws", "jwe"), "peek calls %s a %s", t, r[0])
        return ["not a token"]
    out, err, code = lib(fn, "peek", [t], None, {})
    check(code == 0 and out.split("\n")[0] == c["kind"], "peek says %s for a %s", out, c["kind"])
    return [c["kind"], c["alg"]]


# ------------------------------------------------------------ key making
def s_sym():
    return st.tuples(st.one_of(st.none(), st.integers(1, 200), st.sampled_from([1, 16, 32, 64])), st.one_of(st.none(), gen.kids.filter(lambda k: "\x00" not in k)),
                     gen.rng_spec, st.integers(0, 2**32)).map(lambda t: {"n": t[0], "kid": t[1], "rng": t[2], "seed": t[3]})


def p_sym(c, process=False):
    import random
    random.seed(c["seed"])
    w = World("/nonexistent", process)
    out = w.run("gen_symkey", (["-n", str(c["n"])] if c["n"] is not None else []) + (["--kid=" + c["kid"]] if c["kid"] is not None else []))
    d = json.loads(out)
    check(list(d) == ["keys"] and len(d["keys"]) == 1, "not a key set of one key: %s", out)
    k = d["keys"][0]
    check(k["kty"] == "oct" and k.get("kid", None) == (c["kid"] or None), "key %s", k)
    n = 48 if c["n"] is None else c["n"]
    check(len(ref.unb64u(k["k"])) == n, "key of %s octets, %s asked for", len(ref.unb64u(k["k"])), n)
    from jwkest.jwk import load_jwks
    k2, = lib(load_jwks, out)
    check(len(k2.key) == n, "loads to %s octets", len(k2.key))
    return ["default" if c["n"] is None else "n"]


def s_create():
    nm = st.text(alphabet="abcXYZ09_.-", min_size=1, max_size=10).filter(lambda t: t[0] not in ".-")
    return st.tuples(st.one_of(st.none(), nm), st.sampled_from([None, 1024, 1024, 1032, 1048, 1280]), nm, gen.rng_spec).map(
        lambda t: {"name": t[0], "size": t[1], "ename": t[2], "rng": t[3]})


def nums_of_pem(path):
    """n, e (and d) as openssl reads them, or as our DER reader does."""
    from Cryptodome.Util.asn1 import DerSequence
    t = open(path).read().split("-----")
    der = base64.b64decode("".join(t[2].split()))
    label = t[1][6:]
    s = DerSequence().decode(der)
    if label == "RSA PRIVATE KEY":
        return label, {"n": s[1], "e": s[2], "d": s[3], "p": s[4], "q": s[5]}
    if label == "PUBLIC KEY":
        from Cryptodome.Util.asn1 import DerBitString
        s = DerSequence().decode(DerBitString().decode(s[1]).value)
        return label, {"n": s[0], "e": s[1]}
    raise Violation("a %s was written" % label)


def p_create(c, process=False):
    with scratch() as d:
        w = World(d, process)
        fn = run_process if process else run_inproc
        argv = ["-p", d] + (["-n", c["name"]] if c["name"] else []) + (["-s", str(c["size"])] if c["size"] else [])
        out, err, code = lib(fn, "jwk_create", argv, None, {})
        check(code == 0, "jwk_create exits with %s %s", code, err)
        base = os.path.join(d, c["name"] or "pyoidc")
        check(sorted(os.listdir(d)) == sorted(os.path.basename(base) + x for x in (".key", ".pub", ".jwk")), "files written: %s", os.listdir(d))
        _, key = nums_of_pem(base + ".key")
        _, pub = nums_of_pem(base + ".pub")
        check(len(pub) == 2 and (pub["n"], pub["e"]) == (key["n"], key["e"]), "public key file holds another key")
        check(key["n"].bit_length() == (c["size"] or 1024), "key of %s bits", key["n"].bit_length())
        check(key["p"] * key["q"] == key["n"] and pow(pow(5, key["e"], key["n"]), key["d"], key["n"]) == 5, "not a key pair")
        j = json.load(open(base + ".jwk"))
        if "keys" in j:
            j, = j["keys"]
        check(j["kty"] == "RSA" and ref.b2i(ref.unb64u(j["n"])) == key["n"] and ref.b2i(ref.unb64u(j["e"])) == key["e"], "JWK file holds another key")
        for m in ("d", "p", "q"):
            check(m not in j or ref.b2i(ref.unb64u(j[m])) in (key[m], key["p"] if m == "q" else key["q"] if m == "p" else key[m]), "JWK file holds another %s", m)
        d2 = os.path.join(d, "out")
        os.mkdir(d2)
        out, err, code = lib(fn, "jwk_export", ["-k", base + ".key", "-p", d2, "-n", c["ename"]], None, {})
        check(code == 0, "jwk_export exits with %s %s", code, err)
        check(os.listdir(d2) == [c["ename"] + ".jwk"], "files written: %s", os.listdir(d2))
        j, = json.load(open(os.path.join(d2, c["ename"] + ".jwk")))["keys"]
        check(j["kty"] == "RSA" and ref.b2i(ref.unb64u(j["n"])) == key["n"] and ref.b2i(ref.unb64u(j["e"])) == key["e"], "exported another key")
        check(not {"d", "p", "q", "dp", "dq", "qi", "di"} & set(j), "private members exported: %s", sorted(j))
    return ["%s bits" % c["size"]]


def s_export():
    return st.tuples(gen.rsa_spec(), st.sampled_from(["private", "public", "pkcs8"]), gen.rng_spec).map(lambda t: {"key": t[0], "form": t[1]})


def p_export(c, process=False):
    with scratch() as d:
        w = World(d, process)
        s = c["key"]
        f = w.file({"private": lambda: pem_private(s), "public": lambda: pem_public(s),
                    "pkcs8": lambda: x509.pem("PRIVATE KEY", x509.pkcs8(gen.rkey(s, True)))}[c["form"]]())
        fn = run_process if process else run_inproc
        out, err, code = lib(fn, "jwk_export", ["-k", f, "-p", d], None, {})
        check(code == 0, "jwk_export exits with %s %s", code, err)
        got = json.load(open(os.path.join(d, "pyoidc.jwk")))
        check(gen.same(got, {"keys": [ref.jwk_public(gen.rkey(s, False))]}), "exported %s", got)
    return [c["form"]]


def cap(s):
    """Within what one command-line argument can carry."""
    return s.filter(lambda c: len(c.get("msg", "")) < 8000)


def s_process():
    def noserv(c):
        return not {"J", "X", "u"} & ({c.get(k) for k in ("sh", "eh", "dh", "vh", "khow", "vhow", "dhow")} - ({"J"} if "sh" in c or "vhow" in c else set()))
    return st.one_of(cap(s_enc()).filter(noserv).map(lambda c: dict(c, what="enc")), cap(s_sign()).filter(noserv).map(lambda c: dict(c, what="sign")),
                     cap(s_both()).filter(noserv).map(lambda c: dict(c, what="both")), s_peek().map(lambda c: dict(c, what="peek")).filter(
                         lambda c: "\x00" not in c.get("text", "")), s_sym().map(lambda c: dict(c, what="sym")), s_create().map(lambda c: dict(c, what="create")))


def p_process(c):
    return [c["what"]] + {"enc": p_enc, "sign": p_sign, "both": p_both, "peek": p_peek, "sym": p_sym, "create": p_create}[c["what"]](c, process=True)


SUBTESTS = [
    Search("encrypt", s_enc(), p_enc, quick=400, thorough=8000),
    Search("sign", s_sign(), p_sign, quick=400, thorough=8000),
    Search("sign and encrypt", s_both(), p_both, quick=400, thorough=8000),
    Search("peek", s_peek(), p_peek, quick=400, thorough=8000),
    Search("symmetric key", s_sym(), p_sym, quick=100, thorough=1500),
    Search("create", s_create(), p_create, quick=16, thorough=300),
    Search("export", s_export(), p_export, quick=80, thorough=1500),
    Search("processes", s_process(), p_process, quick=40, thorough=600),
]
