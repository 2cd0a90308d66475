"""C16: certificates and PEM files load to exactly the key they contain."""
import base64
import hashlib
import json
import os
import shutil
import tempfile

from hypothesis import strategies as st

from lib import gen, ref, x509
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C16"
RULE = ("Case: RSA key (21 moduli), container (PKCS#1/PKCS#8/SubjectPublicKeyInfo/PEM-or-DER certificate built field by field with any "
        "names, serial, validity, extensions, versions, so of any length), PEM line width/line ends/trailing newline, loading route; x5c/x5t "
        "JWKs with right and wrong thumbprints. Oracle: the numbers put into the container, hashlib. All cases are non-trivial.")

from jwkest import jwk  # noqa: E402
from jwkest.jwk import KEYS, RSAKey, keyrep  # noqa: E402

TMP = None


def tmp():
    """A scratch directory of this process, removed at exit."""
    global TMP
    if TMP is None or TMP[0] != os.getpid():
        import atexit
        TMP = (os.getpid(), tempfile.mkdtemp(prefix="verif-c16-"))
        atexit.register(shutil.rmtree, TMP[1], True)
    return TMP[1]


def put(data):
    p = os.path.join(tmp(), "f")
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8"))
    return p


def nums_ok(o, spec, private, what):
    k = gen.RSA_KEYS[spec["i"]]
    check((o.n, o.e) == (k["n"], k["e"]), "%s: n, e differ from what the data contains", what)
    check(bool(o.has_private()) == private, "%s: private part %s", what, "missing" if private else "from nowhere")
    if private:
        check((o.d, {o.p, o.q}) == (k["d"], {k["p"], k["q"]}), "%s: private numbers differ", what)


def key_ok(k, spec, private, what, meta=None):
    check(type(k) is RSAKey, "%s: %s", what, type(k))
    nums_ok(k.key, spec, private, what)
    r = gen.rkey(spec, private)
    check((k.n, k.e) == (r.n, r.e), "%s: n, e of the key", what)
    want = dict(ref.jwk_public(r), **{a: b for a, b in (meta or {}).items() if b})
    check(gen.same(lib(k.serialize), want), "%s: exports %s", what, k.serialize())
    priv = lib(k.serialize, True)
    if private:
        n = gen.RSA_KEYS[spec["i"]]
        check({priv["p"], priv["q"]} == {ref.b64u(ref.i2b(n["p"])), ref.b64u(ref.i2b(n["q"]))} and priv["d"] == ref.b64u(ref.i2b(n["d"])),
              "%s: private export", what)
    else:
        check(gen.same(priv, want), "%s: private export of a public key %s", what, priv)


LAYOUT = st.fixed_dictionaries({"width": st.sampled_from([64, 64, 76, 60, 1, 7, 100000]), "nl": st.sampled_from(["\n", "\n", "\r\n"]),
                                "final": st.booleans(), "sp": st.sampled_from(["", "", " ", "\n"]),
                                "end": st.sampled_from(["", "", "", "\n", "\n\n", " ", "\t\n", "\r\n", " \n \n"]), "eol": st.sampled_from(["", "", "", " ", "\t"])})


def pem(label, der, lay):
    return x509.pem(label, der, width=lay["width"], nl=lay.get("eol", "") + lay["nl"], final=lay["final"], after=lay.get("end", ""))


FORMATS = ["pkcs1-private", "pkcs8", "pkcs1-public", "spki", "cert"]
LABEL = {"pkcs1-private": "RSA PRIVATE KEY", "pkcs8": "PRIVATE KEY", "pkcs1-public": "RSA PUBLIC KEY", "spki": "PUBLIC KEY", "cert": "CERTIFICATE"}


def der_of(c):
    f = c["fmt"]
    r = gen.rkey(c["key"], True)
    if f == "pkcs1-private":
        return x509.rsa_private(r)
    if f == "pkcs8":
        return x509.pkcs8(r)
    if f == "pkcs1-public":
        return x509.rsa_public(r.n, r.e)
    if f == "spki":
        return x509.spki(r.n, r.e)
    return x509.cert(c["cert"], r, gen.rkey({"t": "RSA", "i": 0}) if c["cert"]["alg"] != "sha1" else None)


FILE_ROUTES = ["import_file", "rsa_load", "RSAKey.load", "reload"]
TEXT_ROUTES = ["import_rsa_key", "x509_rsa_load", "import-bytes"]
CERT_ROUTES = ["pem_cert2rsa", "der_cert2rsa", "der2rsa", "x5c", "x5c-keyrep", "x5c-keyset", "x5c-object"]


def s_load():
    def routes_for(f):
        r = FILE_ROUTES + TEXT_ROUTES + ["import-der"]
        return r + CERT_ROUTES * 2 if f == "cert" else r
    return st.tuples(st.sampled_from(FORMATS + ["cert"] * 4), gen.rsa_spec(), x509.strategy(), LAYOUT).flatmap(
        lambda t: st.sampled_from(routes_for(t[0])).map(
            lambda r: {"fmt": t[0], "key": t[1], "cert": t[2] if t[0] == "cert" else None, "layout": t[3], "route": r})).map(fix_version)


def fix_version(c):
    # Cryptodome's own loader refuses the (extinct) version 2 certificates
    if c["cert"] and c["cert"]["v"] == 2 and c["route"] not in ("der_cert2rsa", "der2rsa", "x5c", "x5c-keyrep", "x5c-keyset", "x5c-object"):
        c["cert"] = dict(c["cert"], v=3)
    return c


def p_load(c):
    der = der_of(c)
    private = c["fmt"] in ("pkcs1-private", "pkcs8")
    text = pem(LABEL[c["fmt"]], der, c["layout"])
    r, spec = c["route"], c["key"]
    what = "%s through %s" % (c["fmt"], r)
    std = base64.b64encode(der).decode()
    if r == "import_file":
        nums_ok(lib(jwk.import_rsa_key_from_file, put(text)), spec, private, what)
    elif r == "rsa_load":
        nums_ok(lib(jwk.rsa_load, put(text)), spec, private, what)
    elif r == "RSAKey.load":
        k = lib(RSAKey, kid="k", use="sig")
        check(lib(k.load, put(text)) is k, "load() returned something else")
        key_ok(k, spec, private, what, {"kid": "k", "use": "sig"})
    elif r == "reload":
        k = lib(RSAKey, key=gen._rsaobj((spec["i"] + 1) % 21, True))
        lib(hash, k)
        lib(k.load, put(text))
        key_ok(k, spec, private, what)
    elif r == "import_rsa_key":
        nums_ok(lib(jwk.import_rsa_key, text), spec, private, what)
    elif r == "import-bytes":
        nums_ok(lib(jwk.import_rsa_key, text.encode("ascii")), spec, private, what)
    elif r == "import-der":
        nums_ok(lib(jwk.import_rsa_key, der), spec, private, what)
    elif r == "x509_rsa_load":
        l = lib(jwk.x509_rsa_load, text)
        check(isinstance(l, list) and len(l) == 1 and l[0][0] == "rsa", "%s gives %s", what, l)
        nums_ok(l[0][1], spec, private, what)
    elif r == "pem_cert2rsa":
        nums_ok(lib(jwk.pem_cert2rsa, put(text)), spec, False, what)
    elif r == "der_cert2rsa":
        sp = c["layout"]["sp"]
        w = c["layout"]["width"]
        nums_ok(lib(jwk.der_cert2rsa, std if not sp else sp.join(std[i:i + w] for i in range(0, len(std), w))), spec, False, what)
    elif r == "der2rsa":
        nums_ok(lib(jwk.der2rsa, der), spec, False, what)
    elif r == "x5c":
        key_ok(lib(RSAKey, x5c=[std], kid="k"), spec, False, what, {"kid": "k"})
    elif r == "x5c-object":
        k = lib(RSAKey, x5c=[std, std[:8]])
        key_ok(k, spec, False, what)
    elif r == "x5c-keyrep":
        key_ok(lib(keyrep, {"kty": "RSA", "x5c": [std], "kid": "k"}), spec, False, what, {"kid": "k"})
    elif r == "x5c-keyset":
        k, = lib(KEYS().load_jwks, json.dumps({"keys": [{"kty": "RSA", "x5c": [std], "use": "sig"}]}))
        key_ok(k, spec, False, what, {"use": "sig"})
    return [c["fmt"], r, "len%%3=%d" % (len(der) % 3)] + (["v%d" % c["cert"]["v"]] if c["cert"] else [])


# -------------------------------------------------- encrypted key files
def s_pass():
    return st.tuples(gen.rsa_spec(), st.text(alphabet="abcXYZ 09-_!", min_size=1, max_size=12), st.sampled_from(["pkcs1", "pkcs8"]),
                     st.sampled_from(["right", "wrong", "none"]), st.sampled_from(["file", "text"])).map(
        lambda t: {"key": t[0], "pw": t[1], "fmt": t[2], "try": t[3], "how": t[4]})


def p_pass(c):
    o = gen._rsaobj(c["key"]["i"], True)
    if c["fmt"] == "pkcs1":
        text = o.export_key("PEM", passphrase=c["pw"], pkcs=1).decode()
    else:
        text = o.export_key("PEM", passphrase=c["pw"], pkcs=8, protection="PBKDF2WithHMAC-SHA1AndAES128-CBC",
                            prot_params={"iteration_count": 10}).decode()
    fn, arg = (jwk.import_rsa_key, text) if c["how"] == "text" else (jwk.import_rsa_key_from_file, put(text))
    if c["try"] == "right":
        nums_ok(lib(fn, arg, passphrase=c["pw"]), c["key"], True, "encrypted " + c["fmt"])
    elif c["try"] == "wrong":
        must_fail("wrong passphrase", fn, arg, passphrase=c["pw"] + "x")
    else:
        must_fail("no passphrase", fn, arg)
    return [c["fmt"], c["try"]]


# -------------------------------------------------- thumbprints
WRONG = ["flip", "trunc", "extend", "sha256", "other", "key", "hex", "reverse", "std", "nonascii", "garbage", "pemhash", "b64hash", "A", "one",
         "empty-hash"]


def s_x5t():
    return st.tuples(gen.rsa_spec(), x509.strategy(), st.one_of(st.just("right"), st.sampled_from(WRONG)), st.integers(0, 159), st.booleans(),
                     st.sampled_from(["class", "keyrep", "keyset", "class-bytes"]), st.booleans(), st.booleans()).map(
        lambda t: {"key": t[0], "cert": t[1], "x5t": t[2], "bit": t[3], "ne": t[4], "how": t[5], "chain": t[6], "private": t[7]})


def p_x5t(c):
    r = gen.rkey(c["key"], True)
    der = x509.cert(c["cert"], r)
    std = base64.b64encode(der).decode()
    sha1 = hashlib.sha1(der).digest()
    other = x509.cert(dict(c["cert"], serial=c["cert"]["serial"] + 1), r)
    w = c["x5t"]
    b = bytearray(sha1)
    b[c["bit"] // 8] ^= 1 << (c["bit"] % 8)
    x5t = {"right": ref.b64u(sha1), "flip": ref.b64u(bytes(b)), "trunc": ref.b64u(sha1[:c["bit"] // 8]) or "AA", "extend": ref.b64u(sha1 + b"\0"),
           "sha256": ref.b64u(hashlib.sha256(der).digest()), "other": ref.b64u(hashlib.sha1(other).digest()),
           "key": ref.b64u(hashlib.sha1(x509.spki(r.n, r.e)).digest()), "hex": sha1.hex(), "reverse": ref.b64u(sha1[::-1]),
           "std": ref.b64u(bytes(b)) + "=", "nonascii": "\u00e5" * 27, "garbage": "*" * 27,
           "pemhash": ref.b64u(hashlib.sha1(x509.pem("CERTIFICATE", der).encode()).digest()),
           "b64hash": ref.b64u(hashlib.sha1(std.encode()).digest()), "A": "A" * 27, "one": "AA",
           "empty-hash": ref.b64u(hashlib.sha1(b"").digest())}[w]
    d = {"kty": "RSA", "x5c": [std], "x5t": x5t, "kid": "k"}
    if c["chain"]:
        d["x5c"].append(base64.b64encode(other).decode())
    if c["ne"]:
        d.update(ref.jwk_private(r) if c["private"] else ref.jwk_public(r))

    def mk():
        if c["how"] == "class":
            return RSAKey(**d)
        if c["how"] == "class-bytes":
            return RSAKey(**{k: v.encode("utf-8") if isinstance(v, str) else v for k, v in d.items()})
        if c["how"] == "keyrep":
            return keyrep(d)
        ks = KEYS()
        try:
            ks.load_jwks(json.dumps({"keys": [d]}))
        except Exception:
            check(len(ks) == 0, "a key was added by a failing load")
            raise
        k, = ks
        return k
    if w == "right":
        k = lib(mk)
        private = c["ne"] and c["private"]
        key_ok(k, c["key"], private, "JWK with x5c and x5t", {"kid": "k"})
    else:
        must_fail("x5t %s for a certificate with %s" % (x5t, ref.b64u(sha1)), mk)
    return [w, c["how"], "n,e" if c["ne"] else "x5c only"]


# -------------------------------------------------- not RSA certificates
def s_other():
    return st.tuples(gen.ec_spec(), x509.strategy(), LAYOUT, st.sampled_from(["import", "pem", "der", "x5c", "b64"])).map(
        lambda t: {"key": t[0], "cert": t[1], "layout": t[2], "how": t[3]})


def p_other(c):
    der = x509.cert(c["cert"], gen.rkey(c["key"], True))
    std = base64.b64encode(der).decode()
    text = pem("CERTIFICATE", der, c["layout"])
    h = c["how"]
    what = "an RSA key from the certificate of an EC key"
    if h == "import":
        must_fail(what, jwk.import_rsa_key, text)
    elif h == "pem":
        must_fail(what, jwk.pem_cert2rsa, put(text))
    elif h == "der":
        must_fail(what, jwk.der2rsa, der)
    elif h == "b64":
        must_fail(what, jwk.der_cert2rsa, std)
    else:
        must_fail(what, lambda: RSAKey(x5c=[std], x5t=ref.b64u(hashlib.sha1(der).digest())))
    return [h]


def der_lengths(tier):
    """Certificates of every length over some hundred octets, and of lengths
    needing two, three and four octets in DER."""
    for n in list(range(0, 200)) + [255, 256, 257, 1000, 32768, 65000, 65279, 65280, 65535, 65536, 65537, 70000, 1 << 20, (1 << 24) + 3]:
        if n > 1 << 22 and tier == "quick":
            continue
        for fmt in ("x5c-object", "import_rsa_key", "der_cert2rsa", "pem_cert2rsa"):
            if (n > 70000 or n % 4 and n < 200) and fmt != "x5c-object":
                continue
            yield {"fmt": "cert", "key": {"t": "RSA", "i": n % 21}, "route": fmt, "layout": {"width": 64, "nl": "\n", "final": True, "sp": ""},
                   "cert": dict(x509.PLAIN, exts=[{"arc": [1, 2], "crit": False, "val": "ab" * n}])}
    for n in range(6):
        for fmt in ("import_rsa_key", "pem_cert2rsa", "import_file", "rsa_load"):
            for nl in ("\n", "\r\n"):
                for end in ("", "\n", " ", "\t\n", " \n \n", "\t"):
                    for eol in ("", " ", "\t") if n < 3 else ("",):
                        yield {"fmt": "cert", "key": {"t": "RSA", "i": n}, "route": fmt, "layout": {"width": 64, "nl": nl, "final": bool(end), "sp": "", "end": end, "eol": eol},
                               "cert": dict(x509.PLAIN, exts=[{"arc": [1, 2], "crit": False, "val": "ab" * n}])}


def p_der(c):
    n = len(c["cert"]["exts"][0]["val"]) // 2
    p_load(c)
    return ["long" if n > 300 else "short"]


SUBTESTS = [
    Enum("lengths", der_lengths, p_der),
    Search("load", s_load(), p_load, quick=2500, thorough=50000),
    Search("x5t", s_x5t(), p_x5t, quick=1500, thorough=30000),
    Search("passphrase", s_pass(), p_pass, quick=150, thorough=1500),
    Search("other keys", s_other(), p_other, quick=200, thorough=5000),
]
