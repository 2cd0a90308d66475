"""C11: JWK import and export are inverse and give usable keys."""
import json

from hypothesis import strategies as st

from lib import gen, ref, routes
from lib.core import Enum, Search, Violation, attempt, check, lib, must_fail

ID = "C11"
RULE = ("Case: key (21 RSA moduli, any EC scalar incl. ones with leading-zero coordinates, any symmetric key), metadata, one of up to 20 "
        "import routes, chains of further imports of the exported JWK, and a use. Oracle: RFC 7518 encoding of the known numbers, and "
        "the independent JWS/JWE reference for cross use. Malformed cases: required member missing/of wrong type/not base64url/not a "
        "point: some stage must refuse and none may give a working key. Trivial: EC scalar < 6.")

from jwkest.jwe import JWE  # noqa: E402
from jwkest.jwk import KEYS, ECKey, RSAKey, SYMKey, keyrep, load_jwks  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

IMPORTS = ["jwk-text", "jwk-bytes", "keyrep", "keyrep-bytes", "keyrep-noenc", "keyrep-noenc-bytes", "load_dict", "load_jwks", "add",
           "add-noenc", "mod-load_jwks", "dump_jwks", "to_dict"]


def reimport(how, k, private):
    """Export k and import what came out."""
    if how == "dump_jwks":
        ks = KEYS()
        ks.append(k)
        k2, = KEYS().load_jwks(ks.dump_jwks())
        return k2
    if how == "to_dict":
        return keyrep(k.to_dict())
    d = k.serialize(private)
    json.dumps(d)
    if how in ("jwk-text", "jwk-bytes"):
        K = {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}[d["kty"]]
        return K(**(d if how == "jwk-text" else routes.allbytes(d)))
    if how.startswith("keyrep"):
        if how.endswith("bytes"):
            d = dict(routes.allbytes(d), kty=d["kty"])
        return keyrep(d, **({"enc": None} if "noenc" in how else {}))
    ks = KEYS()
    if how == "load_dict":
        ks.load_dict({"keys": [d]})
    elif how == "load_jwks":
        ks.load_jwks(json.dumps({"keys": [d]}))
    elif how == "add":
        ks.add(d)
    elif how == "add-noenc":
        ks.add(d, enc=None)
    else:
        ks = load_jwks(json.dumps({"keys": [d]}))
    k2, = ks
    return k2


def verify_state(k, c, private, form, what):
    """Exports and attributes of k against the numbers put in."""
    spec, meta = c["key"], c["meta"]
    pub, priv = routes.expected(spec, None, private, meta, form)
    if spec["t"] == "oct":
        priv = pub
    got = lib(k.serialize) if spec["t"] == "oct" else lib(k.serialize, False)
    check(gen.same(got, pub), "%s: public export %s, expected %s", what, got, pub)
    got = lib(k.serialize, True)
    check(gen.same(got, priv), "%s: private export %s, expected %s", what, got, priv)
    for m in ("kid", "use", "alg"):
        check(gen.same(getattr(k, m), meta.get(m) or ""), "%s: %s is %s", what, m, getattr(k, m))
    check(k.kty == spec["t"], "%s: kty %s", what, k.kty)
    r = gen.rkey(spec, private)
    if spec["t"] == "oct":
        check(bytes(k.key) == r.k, "%s: key octets %s", what, k.key)
    elif spec["t"] == "EC":
        check((k.crv, k.x, k.y) == (r.crv, r.x, r.y), "%s: crv, x, y are %s", what, (k.crv, k.x, k.y))
        check(tuple(lib(k.get_key)) == (r.x, r.y), "%s: public key %s", what, k.get_key())
        if private:
            check(lib(k.get_key, private=True) == r.d == lib(k.decryption_key), "%s: private value", what)
        else:
            must_fail("%s: private value of a public key" % what, k.get_key, private=True)
    else:
        check((k.n, k.e) == (r.n, r.e), "%s: n, e are %s", what, (k.n, k.e))
        check((k.key.n, k.key.e) == (r.n, r.e), "%s: RSA object", what)
        check(bool(k.key.has_private()) == private, "%s: private part", what)
        if private:
            check((k.key.d, {k.key.p, k.key.q}) == (r.d, {r.p, r.q}), "%s: private part of the RSA object", what)


def use(k, spec, private, how, seed):
    """The key works with the reference standing for the other party."""
    r = gen.rkey(spec, True)
    from lib import rng
    rnd = rng.fixed_bytes(b"c11-%d" % seed, 200)
    t = spec["t"]
    k.use = k.alg = ""
    if how == "sign":
        alg = {"RSA": "RS256", "oct": "HS256", "EC": {v[0]: a for a, v in ref.ES.items()}.get(spec.get("crv"))}[t]
        if private or t == "oct":
            tok = lib(JWS("some text", alg=alg).sign_compact, [k])
            ref.jws_open(tok, [r])
        tok = ref.jws_sign('{"alg": "%s"}' % alg, b"payload", r, alg, rnd)
        check(lib(JWS().verify_compact, tok, [k]) == "payload", "wrong payload")
        return
    k.kid = k.alg = ""
    enc = "A128CBC-HS256"
    alg = {"RSA": "RSA-OAEP", "oct": "A128KW", "EC": "ECDH-ES"}[t]
    tok = lib(JWE(b"some text", alg=alg, enc=enc).encrypt, [k])
    check(ref.jwe_open(tok, r)[1] == b"some text", "wrong plaintext")
    tok = ref.jwe_make({"alg": alg, "enc": enc}, b"other", r, rnd[:32], rnd[32:48], rnd[48:], eph_d=12345)
    if private or t == "oct":
        check(lib(JWE().decrypt, tok, [k]) == b"other", "wrong plaintext")
    else:
        must_fail("decryption with a public key", JWE().decrypt, tok, [k])


def p_import(c):
    k = routes.make(c)
    private = c["private"]
    form = c["form"]
    verify_state(k, c, private, form, c["route"])
    for how in c["then"]:
        p2 = private and how["private"]
        if c["key"]["t"] != "oct" and how["how"] == "dump_jwks":
            p2 = False
        if how["how"] == "to_dict":
            p2 = private
        k = lib(reimport, how["how"], k, p2)
        if not p2:
            form = "full"
        private = p2
        verify_state(k, c, private, form, how["how"])
    if c["use"]:
        use(k, c["key"], private, c["use"], c["seed"])
    tags = [c["key"]["t"], c["route"]] + [h["how"] for h in c["then"]]
    if c["key"]["t"] == "EC":
        if int(c["key"]["d"], 16) < 6:
            tags.append("trivial")
        pub = gen.rkey(c["key"], False)
        if min(pub.x, pub.y).bit_length() <= ref.CURVES[c["key"]["crv"]].bits - 8:
            tags.append("leading-zero")
    return tags


def s_import():
    then = st.lists(st.fixed_dictionaries({"how": st.sampled_from(IMPORTS), "private": st.sampled_from([True, True, True, False])}), max_size=3)
    return st.tuples(routes.strategy(), then, st.sampled_from([None, "sign", "encrypt"]), st.integers(0, 2**30)).map(
        lambda t: dict(t[0], then=t[1], use=t[2] if usable(t[0]["key"], t[2]) else None, seed=t[3]))


def usable(spec, how):
    if not how:
        return False
    if spec["t"] == "RSA":
        return True
    return True


# -------------------------------------------------- members it doesn't know
ARGS = ["key", "curve", "self", "mtrl", "kspec", "enc", "extra_args", "longs", "members", "required", "inactive_since", "_hash", "cls", "kwargs", "value",
        "jwk_dict", "class", "oth", "key_ops", "ext", "exp", "iat", "x5t#S256", "Kty", "KID", "__class__", "__dict__", "__init__", "\u00e5", "", "0", "serialize",
        "verify", "thumbprint", "private"]
OTHERS = {"RSA": ["k", "crv", "x", "y"], "EC": ["n", "e", "k", "p", "q", "dp", "oth"], "oct": ["n", "e", "d", "p", "q", "crv", "x", "y"]}


def s_unknown():
    def more(c):
        names = st.one_of(st.sampled_from(ARGS + OTHERS[c["key"]["t"]]), st.sampled_from(ARGS[:4]), st.text(min_size=1, max_size=6))
        names = names.filter(lambda n: n not in ("kty", "use", "alg", "kid", "x5c", "x5t", "x5u", "n", "e", "d", "p", "q", "dp", "dq", "di", "qi", "crv", "x", "y", "k")
                             or n in OTHERS[c["key"]["t"]])
        value = st.one_of(gen.json_value, st.sampled_from(["AQAB", "P-256", 5, [], {}, None, True, [1], {"a": "b"}]))
        return st.tuples(st.dictionaries(names, value, min_size=1, max_size=3), st.sampled_from(["keyrep", "keyrep-noenc", "load_dict", "load_jwks", "add",
                         "mod-load_jwks"]), st.sampled_from([None, "sign", "encrypt"]), st.integers(0, 2**30), st.booleans()).map(
            lambda t: dict(c, extra=t[0], how=t[1], use=t[2], seed=t[3], first=t[4]))
    return routes.strategy().map(lambda c: dict(c, route="keyrep", form="full")).flatmap(more)


def p_unknown(c):
    """Members of a JWK that mean nothing for its type are ignored (RFC 7517
    section 4), whatever their names and values."""
    d = routes.jwk_dict(c["key"], c["private"], c["meta"])
    d = json.loads(json.dumps(dict(c["extra"], **d) if c["first"] else dict(d, **c["extra"])))
    snap = json.dumps(d)
    how = c["how"]
    if how in ("keyrep", "keyrep-noenc"):
        k = lib(keyrep, d, **({"enc": None} if "noenc" in how else {}))
    elif how == "mod-load_jwks":
        k, = lib(load_jwks, json.dumps({"keys": [d]}))
    else:
        ks = KEYS()
        if how == "load_dict":
            lib(ks.load_dict, {"keys": [d]})
        elif how == "load_jwks":
            lib(ks.load_jwks, json.dumps({"keys": [d]}))
        else:
            lib(ks.add, d)
        k, = ks
    check(json.dumps(d) == snap, "importing changed the JWK: %s", d)
    verify_state(k, c, c["private"], "full", how)
    plain = routes.make(c)
    check(lib(lambda: k == plain) and lib(lambda: plain == k) and lib(hash, k) == lib(hash, plain), "a key with further members %s is another key", c["extra"])
    if c["use"]:
        use(k, c["key"], c["private"], c["use"], c["seed"])
    return [c["key"]["t"], how] + sorted(set(c["extra"]) & set(ARGS))


# -------------------------------------------------- lenient spellings
def s_padded():
    return st.tuples(st.one_of(gen.rsa_spec(), gen.ec_spec()), st.booleans(), st.sampled_from(IMPORTS[:11]),
                     st.dictionaries(st.sampled_from(["n", "e", "d", "p", "q", "x", "y"]), st.integers(-3, 3), min_size=1, max_size=3)).map(
        lambda t: {"key": t[0], "private": t[1], "how": t[2], "pad": t[3]})


def p_padded(c):
    """Integers with leading zero octets (or coordinates with fewer octets
    than the curve's): the same key or none."""
    d = routes.jwk_dict(c["key"], c["private"], {})
    for m, n in c["pad"].items():
        if m in d:
            b = ref.unb64u(d[m])
            if n < 0:
                b = b.lstrip(b"\0")
            d[m] = ref.b64u(b"\0" * max(n, 0) + b)
    class Fake(object):
        def serialize(self, private):
            return d
    ok, k = attempt(reimport, c["how"], Fake(), True)
    if not ok:
        return ["trivial"]
    verify_state(k, {"key": c["key"], "meta": {}}, c["private"], "full", "padded")
    return [c["key"]["t"], c["how"]]


# -------------------------------------------------- malformed
BAD = ["", "A", "AAAAA", "+/+/", "a b", "\u00e5", " ", None, True, False, [], {}, ["AQ"], [1, 2, 3], [65] * 16, "AQ.AQ", "AQAB\n", "AQ\u0000AB", {"a": "b"}, 1.5, "=", "AQ==A"]
KEYS_ = [{"t": "RSA", "i": 0}, {"t": "RSA", "i": 3}, {"t": "EC", "crv": "P-256", "d": "1234567"}, {"t": "EC", "crv": "P-384", "d": "1234567"},
         {"t": "EC", "crv": "P-521", "d": "1234567"}, {"t": "oct", "k": "00112233445566778899aabbccddeeff"}]
REQ = {"RSA": ["n", "e"], "EC": ["crv", "x", "y"], "oct": ["k"]}


def malformed(tier):
    for i, spec in enumerate(KEYS_):
        for private in ((True, False) if spec["t"] != "oct" else (False,)):
            for how in ("class", "keyrep", "load_jwks", "add-noenc", "from_dict"):
                base = {"key": spec, "private": private, "how": how}
                ms = REQ[spec["t"]]
                for m in ms:
                    yield dict(base, edit={m: {"del": 1}})
                    for v in BAD:
                        yield dict(base, edit={m: {"set": v}})
                if len(ms) > 1:
                    yield dict(base, edit={m: {"del": 1} for m in ms})
                    yield dict(base, edit={m: {"set": ""} for m in ms})
                    yield dict(base, edit={m: {"set": None} for m in ms})
                if spec["t"] == "EC":
                    for v in ["P-192", "P-224", "p-256", "P256", "secp256k1", "Ed25519", 256, {}, []]:
                        yield dict(base, edit={"crv": {"set": v}})
                    for v in ["P-256", "P-384", "P-521"]:
                        if v != spec["crv"]:
                            yield dict(base, edit={"crv": {"set": v}})
                    yield dict(base, edit={"x": {"set": "AA"}})
                    yield dict(base, edit={"y": {"set": "AA"}})
                    yield dict(base, edit={"x": {"set": "AA"}, "y": {"set": "AA"}})
                    yield dict(base, edit={"x": {"plus": 1}})
                    yield dict(base, edit={"y": {"plus": 1}})
                    yield dict(base, edit={"y": {"plusp": 1}})
                if spec["t"] == "RSA":
                    for v in ["AA", "AQ"]:
                        yield dict(base, edit={"n": {"set": v}})
                        yield dict(base, edit={"e": {"set": v}})
                    if private:
                        for m in "npq":
                            yield dict(base, edit={m: {"plus": 2}})


def p_malformed(c):
    spec = c["key"]
    d = routes.jwk_dict(spec, c["private"], {"kid": "k"})
    if c["how"] == "from_dict" and any(m in ("crv", "n", "e", "k", "x", "y") for m in c["edit"]) is False:
        return ["trivial"]
    for m, e in c["edit"].items():
        if "del" in e:
            d.pop(m, None)
        elif "set" in e:
            d[m] = e["set"]
        else:
            v = ref.b2i(ref.unb64u(d[m])) + (e.get("plus") or ref.CURVES[spec["crv"]].p)
            d[m] = ref.b64u(ref.i2b(v, max((v.bit_length() + 7) // 8, len(ref.unb64u(d[m])))))

    def mk():
        from jwkest.jwk import key_from_jwk_dict
        if c["how"] == "class":
            return {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}[spec["t"]](**d)
        if c["how"] == "keyrep":
            return keyrep(d)
        if c["how"] == "from_dict":
            return key_from_jwk_dict(d, private=c["private"])
        if c["how"] == "load_jwks":
            k, = load_jwks(json.dumps({"keys": [d]}))
            return k
        ks = KEYS()
        ks.add(d, enc=None)
        k, = ks
        return k
    ok, k = attempt(mk)
    if not ok:
        return ["refused by constructor", spec["t"]]
    if c["private"]:
        ok2, r = attempt(k.serialize, True)
    else:
        ok2, r = attempt(k.serialize)
    works = []
    r0 = gen.rkey(spec, True)
    if spec["t"] == "oct":
        alg, ealg = "HS256", "A128KW"
    elif spec["t"] == "RSA":
        alg, ealg = "RS256", "RSA-OAEP"
    else:
        alg, ealg = {v[0]: a for a, v in ref.ES.items()}[spec["crv"]], "ECDH-ES"
    if attempt(JWS("x", alg=alg).sign_compact, [k])[0]:
        works.append("signing")
    if attempt(JWE(b"x", alg=ealg, enc="A128CBC-HS256").encrypt, [k])[0]:
        works.append("encrypting")
    tok = ref.jws_sign('{"alg": "%s"}' % alg, b"payload", r0, alg, b"\1" * 64)
    if attempt(JWS().verify_compact, tok, [k])[0]:
        works.append("verifying")
    check(not (ok2 or works), "key made of %s: %s", d, (["exported %s" % (r,)] if ok2 else []) + works)
    return ["made, unusable", spec["t"]]


def edges(tier):
    for crv in gen.CURVES:
        for i in range(len(ref.CURVES[crv].edges())):
            for how in ("class", "keyrep", "load_jwks", "KEYS", "from_dict"):
                yield {"crv": crv, "i": i, "how": how}


def p_edges(c):
    """Public keys with the smallest and the largest x coordinates."""
    crv = c["crv"]
    cv = ref.CURVES[crv]
    x, y = cv.edges()[c["i"]]
    d = {"kty": "EC", "crv": crv, "x": ref.b64u(ref.i2b(x, cv.size)), "y": ref.b64u(ref.i2b(y, cv.size))}

    def mk():
        if c["how"] == "class":
            return ECKey(**d)
        if c["how"] == "keyrep":
            return keyrep(d)
        if c["how"] == "load_jwks":
            return load_jwks(json.dumps({"keys": [d]}))[0]
        if c["how"] == "KEYS":
            ks = KEYS()
            ks.add(d, enc=None)
            return list(ks)[0]
        from jwkest.jwk import key_from_jwk_dict
        return key_from_jwk_dict(dict(d, kid=""), private=False)
    k = lib(mk)
    check(tuple(lib(k.get_key)) == (x, y), "public key %s", k.get_key())
    check(gen.same(lib(k.serialize), d), "export %s, expected %s", k.serialize(), d)
    check(gen.same(lib(keyrep(lib(k.serialize)).serialize), d), "export of the reimported key")
    e = 0x1234567
    tok = lib(JWE(b"some text", alg="ECDH-ES", enc="A128CBC-HS256", epk=gen.lkey({"t": "EC", "crv": crv, "d": "%x" % e})).encrypt, [k])
    p = [ref.unb64u(x) for x in tok.split(".")]
    h = json.loads(p[0])
    cek = ref.ecdh_key(crv, e, (x, y), b"A128CBC-HS256", ref.unb64u(h.get("apu", "")), ref.unb64u(h.get("apv", "")), 256)
    check(ref.content_decrypt("A128CBC-HS256", cek, p[2], tok.split(".")[0].encode(), p[3], p[4]) == b"some text", "not encrypted for this key")
    return [crv, c["how"]]


SUBTESTS = [
    Search("unknown-members", s_unknown(), p_unknown, 1500, 30000),
    Enum("extreme-points", edges, p_edges, exhaustive=True),
    Enum("malformed", malformed, p_malformed, exhaustive=True),
    Search("import", s_import(), p_import, quick=2500, thorough=60000),
    Search("padded", s_padded(), p_padded, quick=600, thorough=15000),
]
