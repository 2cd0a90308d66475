"""Every way the library has of making a key object out of one key."""
import base64
import functools
import hashlib
import json

from . import core, gen, ref, x509

PRIV = {"RSA": ("d", "p", "q", "dp", "dq", "di", "qi"), "EC": ("d",), "oct": ()}


@functools.lru_cache(None)
def _certs(i):
    der = x509.cert(x509.PLAIN, gen.rkey({"t": "RSA", "i": i}, False))
    return base64.b64encode(der).decode(), ref.b64u(hashlib.sha1(der).digest())


CERTS = [True, True, "x5u", "x5t", "x5c", "X5U", "x5t x5u"]


def certs(spec, which):
    """JWK members about the certificate of an RSA key."""
    std, x5t = _certs(spec["i"])
    if which == "X5U":
        return {"x5u": "https://example.com/CERT%d" % spec["i"]}
    r = {"x5c": [std], "x5t": x5t, "x5u": "https://example.com/cert%d" % spec["i"]}
    return r if which is True else {m: r[m] for m in which.split()}


def expand(spec, meta):
    """Metadata as JWK members."""
    r = {m: v for m, v in meta.items() if v and m != "certs"}
    if meta.get("certs"):
        r.update(certs(spec, meta["certs"]))
    return r


def jwk_dict(spec, private, meta, form="full"):
    r = gen.rkey(spec, private)
    d = ref.jwk_private(r) if private and spec["t"] != "oct" else ref.jwk_public(r)
    if private and spec["t"] == "RSA":
        k = gen.RSA_KEYS[spec["i"]]
        if form == "d":
            del d["p"], d["q"]
        elif form == "crt":
            d["dp"] = ref.b64u(ref.i2b(k["d"] % (k["p"] - 1)))
            d["dq"] = ref.b64u(ref.i2b(k["d"] % (k["q"] - 1)))
            d["qi"] = ref.b64u(ref.i2b(pow(k["q"], -1, k["p"])))
    d.update(expand(spec, meta))
    return d


def b(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def allbytes(d):
    return {k: b(v) for k, v in d.items()}


def cls(spec):
    from jwkest import jwk
    return {"RSA": jwk.RSAKey, "EC": jwk.ECKey, "oct": jwk.SYMKey}[spec["t"]]


def nums(spec, private):
    if spec["t"] == "RSA":
        k = gen.RSA_KEYS[spec["i"]]
        return {m: k[m] for m in (("n", "e", "d", "p", "q") if private else ("n", "e"))}
    if spec["t"] == "EC":
        x, y = gen._ecpub(spec["crv"], spec["d"])
        r = {"crv": spec["crv"], "x": x, "y": y}
        if private:
            r["d"] = int(spec["d"], 16)
        return r
    return {"key": gen.B(spec["k"])}


def texty(spec):
    """Is the secret the UTF-8 form of a text (so it can be given as one)?"""
    try:
        return gen.B(spec["k"]).decode("utf-8")
    except UnicodeDecodeError:
        return None


def routes(spec, private, meta):
    """Names of the routes that can make this key with this metadata."""
    r = ["direct", "jwk-text", "jwk-bytes", "keyrep", "keyrep-bytes", "keyrep-noenc", "keyrep-noenc-bytes", "load_dict", "load_jwks",
         "add", "add-noenc", "mod-load_jwks"]
    m = {k for k, v in meta.items() if v}
    if not m - {"kid"}:
        r.append("from_dict")
    if spec["t"] == "RSA":
        r += ["object", "load_key", "reload"]
        if not m - {"kid", "use"}:
            r += ["wrap", "wrap_add"]
        if not m:
            r.append("items")
    elif spec["t"] == "oct":
        if not m:
            r.append("items")
        if texty(spec):
            r.append("text")
            if not m - {"kid", "use"}:
                r += ["wrap", "wrap_add"]
    if not private and spec["t"] != "oct":
        r += ["public_copy"] + (["re-import"] if "certs" not in m else [])
    return r


def build(route, spec, private, meta, form="full"):
    """Make the key; library exceptions propagate."""
    from jwkest import jwk
    K = cls(spec)
    d = jwk_dict(spec, private, meta, form)
    given, meta = meta, expand(spec, meta)
    if route == "direct":
        return K(**dict(nums(spec, private), **meta))
    if route == "jwk-text":
        return K(**d)
    if route == "jwk-bytes":
        return K(**allbytes(d))
    if route == "keyrep":
        return jwk.keyrep(d)
    if route == "keyrep-noenc":
        return jwk.keyrep(d, enc=None)
    if route in ("keyrep-bytes", "keyrep-noenc-bytes"):
        d = dict(allbytes(d), kty=d["kty"])
        return jwk.keyrep(d, **({"enc": None} if "noenc" in route else {}))
    if route == "from_dict":
        return jwk.key_from_jwk_dict(dict({"kid": ""}, **jwk_dict(spec, private, meta)), private=private)
    if route in ("load_dict", "load_jwks", "add", "add-noenc"):
        ks = jwk.KEYS()
        if route == "load_dict":
            ks.load_dict({"keys": [d]})
        elif route == "load_jwks":
            ks.load_jwks(json.dumps({"keys": [d]}))
        elif route == "add":
            ks.add(d)
        else:
            ks.add(d, enc=None)
        k, = ks
        return k
    if route == "mod-load_jwks":
        k, = jwk.load_jwks(json.dumps({"keys": [d]}))
        return k
    if route in ("wrap", "wrap_add"):
        o = gen._rsaobj(spec["i"], private) if spec["t"] == "RSA" else texty(spec)
        if route == "wrap":
            return jwk.jwk_wrap(o, **meta)
        ks = jwk.KEYS()
        ks.wrap_add(o, **meta)
        k, = ks
        return k
    if route == "items":
        o = gen._rsaobj(spec["i"], private) if spec["t"] == "RSA" else gen.B(spec["k"])
        k, = jwk.keyitems2keyreps({spec["t"]: [o]})
        return k
    if route == "object":
        return K(key=gen._rsaobj(spec["i"], private), **meta)
    if route == "load_key":
        return K(**meta).load_key(gen._rsaobj(spec["i"], private))
    if route == "reload":
        k = K(key=gen._rsaobj((spec["i"] + 1) % len(gen.RSA_KEYS), True), **meta)
        hash(k)
        return k.load_key(gen._rsaobj(spec["i"], private))
    if route == "text":
        return K(key=texty(spec), **meta)
    if route == "public_copy":
        return jwk.make_public_copy(K(**jwk_dict(spec, True, given, form)))
    if route == "re-import":
        return jwk.keyrep(K(**jwk_dict(spec, True, given, form)).serialize())
    raise AssertionError(route)


def forms(spec, route, private):
    if spec["t"] == "RSA" and private and route in ("jwk-text", "jwk-bytes", "keyrep", "keyrep-bytes", "keyrep-noenc", "load_dict", "load_jwks",
                                                    "add", "mod-load_jwks"):
        return ["full", "full", "d", "crt"]
    return ["full"]


def expected(spec, route, private, meta, form="full"):
    """(public JWK, private JWK) the key has to export."""
    # the certificate is not part of what keys export
    meta = {m: v for m, v in meta.items() if v and m != "certs"}
    pub = ref.jwk_public(gen.rkey(spec, private))
    pub.update(meta)
    return pub, jwk_dict(spec, private, meta, form)


def strategy(key=None, alone=True):
    from hypothesis import strategies as st
    key = key if key is not None else gen.any_key
    alg = st.one_of(st.sampled_from(["", "", "RS256", "ES256", "HS256", "A128KW", "ECDH-ES", "none", "\u00e5"]),
                    st.sampled_from(ref.JWS_ALGS + list(ref.KM_ALGS)))
    meta = st.fixed_dictionaries({
        "kid": gen.opt_kid, "use": st.sampled_from(["", "", "sig", "enc", "ver", "dec", "x"]), "alg": alg})
    meta = st.one_of(meta, gen.opt_kid.map(lambda k: {"kid": k, "use": "", "alg": ""}), st.just({"kid": "", "use": "", "alg": ""}))
    def cert(t):
        if t[2]["alg"] and t[0]["t"] != "RSA":
            # more often the algorithms of the key's own type
            own = ["HS256", "HS384", "HS512", "A128KW", "A192KW", "A256KW"] if t[0]["t"] == "oct" else [
                "ES256", "ES384", "ES512", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
            return st.one_of(st.just(t), st.sampled_from(own).map(lambda a: (t[0], t[1], dict(t[2], alg=a))))
        if t[0]["t"] != "RSA":
            return st.just(t)
        return st.sampled_from([{}] * len(CERTS) * 2 + [{"certs": x} for x in CERTS]).map(lambda x: (t[0], t[1], dict(t[2], **x)))
    return st.tuples(key, st.booleans(), meta).flatmap(cert).flatmap(
        lambda t: st.sampled_from(routes(*t)).flatmap(
            lambda r: st.sampled_from(forms(t[0], r, t[1])).map(
                lambda f: {"key": t[0], "private": t[1], "meta": t[2], "route": r, "form": f})))


def make(c):
    """Build the key of a strategy() case; the library must manage."""
    return core.lib(build, c["route"], c["key"], c["private"], c["meta"], c["form"])
