"""C17: encryption followed by decryption returns the plaintext."""
import hashlib

from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, check, lib, must_fail

ID = "C17"
RULE = ("Case: algorithm pair, key, plaintext, compression, party information, key id, state of the random source (every "
        "first, second or third draw starting with zero octets). Trivial: the empty plaintext.")

from jwkest.jwe import JWE, JWE_EC, JWE_RSA, JWE_SYM, RSAEncrypter, factory  # noqa: E402
from jwkest.jwk import ECKey, SYMKey  # noqa: E402


def strat(pairs=jweg.alg_enc):
    return pairs.flatmap(lambda ae: jweg.km_key(*ae).flatmap(lambda k: st.fixed_dictionaries({
        "alg": st.just(ae[0]), "enc": st.just(ae[1]), "key": st.just(k), "pt": jweg.plaintext, "zip": st.booleans(),
        "apu": jweg.party(), "apv": jweg.party(), "pub": st.booleans(), "kid": gen.opt_kid, "rng": gen.rng_spec,
        "epk": st.one_of(st.none(), st.none(), gen.ec_scalar(k["crv"]).map(lambda d: "%x" % d)) if k["t"] == "EC" else st.none(),
        "epkdict": st.booleans(), "cek": st.booleans(), "typ": st.sampled_from(["", "JWE", "JWT"]), "bytes": st.booleans(),
        "again": st.booleans(), "rest": gen.hexbytes(4, 4)})))


def jwe_for(c):
    kw = {"alg": c["alg"], "enc": c["enc"]}
    if c["zip"]:
        kw["zip"] = "DEF"
    if c["typ"]:
        kw["typ"] = c["typ"]
    if c["alg"].startswith("ECDH"):
        for m in ("apu", "apv"):
            if c[m] is not None:
                kw[m] = c[m]
        if c["epk"]:
            e = gen.lkey({"t": "EC", "crv": c["key"]["crv"], "d": c["epk"]})
            kw["epk"] = e.serialize(private=True) if c["epkdict"] else e
    return lib(JWE, jweg.pt_value(c["pt"]), **kw)


def special(x, b):
    """One time in two or so a value with a peculiar look instead of b."""
    n = len(b)
    return {0: b"\0" * n, 1: b"\xff" * n, 2: b"\0" * (n - 1) + b"\1", 3: b"\1" + b"\0" * (n - 1), 4: b[:n // 2] * 2, 5: b"\0" * (n // 2) + b[n // 2:],
            6: b[:n // 2] + b"\0" * (n - n // 2), 7: b"\x80" + b"\0" * (n - 1), 8: b" " * n, 9: (b"\n" + b)[:n]}.get(int(x[:2] or "0", 16) % 20, b)


def prop(c):
    private = gen.lkey(c["key"], kid=c["kid"])
    public = gen.lkey(c["key"], private=False, kid=c["kid"]) if c["pub"] else private
    want = jweg.pt_octets(c["pt"])
    enc = jwe_for(c)
    kw = {}
    if c["cek"] and c["alg"].endswith("KW") and c["alg"][0] == "A":
        from lib import rng
        kw = {"cek": special(c["rest"], rng.fixed_bytes(gen.B(c["rest"]), ref.ENC_KEYLEN[c["enc"]])),
              "iv": special(c["rest"][2:], rng.fixed_bytes(gen.B(c["rest"]) + b"iv", ref.ivlen(c["enc"])))}
    toks = [lib(enc.encrypt, [public], **kw)]
    if c["again"]:
        toks.append(lib(enc.encrypt, [public], **kw))
    for tok in toks:
        parts = tok.split(".")
        check(len(parts) == 5, "%d parts", len(parts))
        hdr = ref.jwe_parse(tok)[0]
        check(hdr.get("alg") == c["alg"] and hdr.get("enc") == c["enc"], "header %s", hdr)
        if c["kid"]:
            check(hdr.get("kid") == c["kid"], "header %s lacks the key id", hdr)
        t = tok.encode() if c["bytes"] else tok
        got = lib(JWE().decrypt, t, [private])
        check(isinstance(got, bytes) and got == want, "decrypted to %s instead of %s", got, want)
        if c["enc"] in jweg.CBC:
            f = lib(factory, t)
            check(f is not None, "factory does not recognise the token")
            got = lib(f.decrypt, keys=[private])
            check(got == want, "decrypted by the factory's object to %s", got)
            got = lib(f.decrypt, t, [private], alg=c["alg"])
            check(got == want, "decrypted by the factory's object to %s", got)
    return [c["alg"], c["enc"]] + (["zip"] if c["zip"] else []) + (["trivial"] if not want else [])


def every(tier):
    """All pairs of algorithms, each with leading zero octets everywhere."""
    big = [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] >= 1048][0]
    for alg in ref.KM_ALGS:
        for enc in ref.ENCS:
            for z in (False, True):
                key = {"RSA": {"t": "RSA", "i": big}, "oct": {"t": "oct", "k": "00ff00"},
                       "EC": {"t": "EC", "crv": "P-521", "d": "1234567"}}[jweg.km_kty(alg)]
                yield {"alg": alg, "enc": enc, "key": key, "pt": {"t": "caf\u00e9 %s" % alg}, "zip": z, "apu": None, "apv": None,
                       "pub": True, "kid": "", "rng": {"s": 1, "z": 1, "f": False}, "epk": None, "epkdict": False,
                       "cek": False, "typ": "", "bytes": z, "again": False, "rest": "00000000"}


def s_several():
    """Several fitting keys with ids of their own."""
    def one(ae):
        key = st.fixed_dictionaries({"key": jweg.km_key(*ae), "kid": gen.opt_kid})
        return st.fixed_dictionaries({"alg": st.just(ae[0]), "enc": st.just(ae[1]), "keys": st.lists(key, min_size=2, max_size=4),
                                      "zip": st.booleans(), "want": st.integers(-3, 3), "rng": gen.rng_spec, "rot": st.integers(0, 3)})
    return st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC)).flatmap(one)


def p_several(c):
    ks = c["keys"]
    seen = set()
    for i, k in enumerate(ks):      # ids tell the keys apart
        k["kid"] = (k["kid"] or "k") + (str(i) if k["kid"] in seen or not k["kid"] else "")
        seen.add(k["kid"])
    if len({k["kid"] for k in ks}) < len(ks):
        return ["trivial"]
    kw = {"zip": "DEF"} if c["zip"] else {}
    want = ks[c["want"]]["kid"] if 0 <= c["want"] < len(ks) else None
    if want:
        kw["kid"] = want
    pub = [gen.lkey(k["key"], False, kid=k["kid"]) for k in ks]
    tok = lib(JWE(b"for one of you", alg=c["alg"], enc=c["enc"], **kw).encrypt, pub)
    h = ref.jwe_parse(tok)[0]
    named = [k for k in ks if k["kid"] == h.get("kid")]
    check(len(named) == 1 and (not want or h["kid"] == want), "header %s, keys %s", h, sorted(seen))
    check(ref.jwe_open(tok, gen.rkey(named[0]["key"]))[1] == b"for one of you", "the key named in the header gives another plaintext")
    priv = [gen.lkey(k["key"], kid=k["kid"]) for k in ks]
    priv = priv[c["rot"] % len(priv):] + priv[:c["rot"] % len(priv)]
    for what, f in (("all keys", lambda: JWE().decrypt(tok, priv)), ("factory", lambda: factory(tok).decrypt(keys=priv)),
                    ("id", lambda: JWE(kid=h["kid"]).decrypt(tok, priv)),
                    ("the named key", lambda: JWE().decrypt(tok, [gen.lkey(named[0]["key"], kid=h["kid"])]))):
        check(lib(f) == b"for one of you", "%s: other plaintext", what)
    return [c["alg"], "named" if want else "open"]


def long_ones(tier):
    for enc in ref.ENCS:
        for n in (255, 256, 4096, 65535, 65536, 65537) + ((2**20, 2**21 + 3) if tier != "quick" else (2**21 + 3,) if enc in jweg.CBC else ()):
            for z in (False, True):
                yield {"alg": "A128KW" if n % 2 else "ECDH-ES", "enc": enc, "n": n, "zip": z}


def p_long(c):
    key = {"t": "oct", "k": "00ff00"} if c["alg"] == "A128KW" else {"t": "EC", "crv": "P-384", "d": "1234567"}
    want = bytes(i * i % 251 for i in range(1021)) * (c["n"] // 1021 + 1)
    want = want[:c["n"]]
    tok = lib(JWE(want, alg=c["alg"], enc=c["enc"], **({"zip": "DEF"} if c["zip"] else {})).encrypt, [gen.lkey(key, False)])
    check(lib(JWE().decrypt, tok, [gen.lkey(key)]) == want, "other plaintext of %s octets", c["n"])
    check(ref.jwe_open(tok, gen.rkey(key))[1] == want, "the reference decrypts something else")
    return [c["enc"]]


def rsa_cases(tier):
    for i in gen.RSA_SMALL[:4] if tier == "quick" else range(len(gen.RSA_KEYS)):
        for pad in ("pkcs1_padding", "pkcs1_oaep_padding", "pkcs1_oaep_256_padding"):
            for dig in (False, True):
                yield {"i": i, "pad": pad, "digest": dig}


def p_rsa(c):
    """The encrypter class under the RSA algorithms, with every message length."""
    from lib import rng
    k = gen.RSA_KEYS[c["i"]]
    priv, pub = gen._rsaobj(c["i"], True), gen._rsaobj(c["i"], False)
    size = (k["n"].bit_length() + 7) // 8
    top = size - {"pkcs1_padding": 11, "pkcs1_oaep_padding": 42, "pkcs1_oaep_256_padding": 66}[c["pad"]]
    rk = gen.rkey({"t": "RSA", "i": c["i"]}).rsa
    dig = c["digest"] and c["pad"] == "pkcs1_padding"
    for n in range(0, top + 1 - (20 if dig else 0)):
        m = rng.fixed_bytes(b"m%d" % n, n)
        e = RSAEncrypter(c["digest"])
        ct = lib(e.encrypt, m, pub, c["pad"])
        check(len(ct) == size and lib(RSAEncrypter(c["digest"]).decrypt, ct, priv, c["pad"]) == m, "%s octets, %s", n, c["pad"])
        if c["pad"] == "pkcs1_padding":
            want = m + (hashlib.sha1(m).digest() if dig else b"")
            check(ref.rsaes_pkcs1_decrypt(rk, ct) == want, "%s octets: the reference decrypts something else", n)
        else:
            h = hashlib.sha256 if "256" in c["pad"] else hashlib.sha1
            check(ref.oaep_decrypt(rk, h, ct) == m, "%s octets: the reference decrypts something else", n)
    must_fail("unknown padding", RSAEncrypter().encrypt, b"m", pub, "pkcs1")
    must_fail("unknown padding", RSAEncrypter().decrypt, ct, priv, "pkcs1")
    return [c["pad"]]


def s_classes():
    """The classes behind JWE, with keys in their own representation."""
    def one(ae):
        key = gen.hexbytes(ref.kw_bits(ae[0]) // 8, ref.kw_bits(ae[0]) // 8).map(lambda h: {"t": "oct", "k": h}) \
            if jweg.km_kty(ae[0]) == "oct" else jweg.km_key(*ae)
        return key.flatmap(lambda k: st.fixed_dictionaries({
            "alg": st.just(ae[0]), "enc": st.just(ae[1]), "key": st.just(k), "pt": jweg.plaintext, "pt2": jweg.plaintext,
            "zip": st.booleans(), "kid": gen.opt_kid, "sym": st.booleans(), "apu": jweg.party(), "apv": jweg.party(),
            "epk": st.one_of(st.none(), gen.ec_scalar(k["crv"]).map(lambda d: "%x" % d)) if k["t"] == "EC" else st.none(),
            "rng": gen.rng_spec}))
    return jweg.alg_enc.flatmap(one)


def p_classes(c):
    alg, enc, rk = c["alg"], c["enc"], gen.rkey(c["key"])
    want, want2 = jweg.pt_octets(c["pt"]), jweg.pt_octets(c["pt2"])
    kw = {"alg": alg, "enc": enc}
    if c["zip"]:
        kw["zip"] = "DEF"
    ekw = {"kid": c["kid"]} if c["kid"] else {}

    def ref_pt(tok, cek=None):
        hdr, raw, aad = ref.jwe_parse(tok)
        check(hdr.get("alg") == alg and hdr.get("enc") == enc and hdr.get("zip") == kw.get("zip"), "header %s", hdr)
        if cek is None:
            cek = ref.aes_kuw(rk.k, raw[1]) if rk.kty == "oct" else ref.jwe_cek(hdr, raw[1], rk)
        pt = ref.content_decrypt(enc, cek, raw[2], aad, raw[3], raw[4])
        return (ref.inflate(pt) if c["zip"] else pt), cek, hdr

    if rk.kty == "RSA":
        priv, pub = gen._rsaobj(c["key"]["i"], True), gen._rsaobj(c["key"]["i"], False)
        cls, ekey, dkey = JWE_RSA, pub, priv
    elif rk.kty == "oct":
        cls = JWE_SYM
        ekey, dkey = (SYMKey(key=rk.k), SYMKey(key=rk.k)) if c["sym"] else (rk.k, rk.k)
    else:
        local = {"epk": gen.lkey({"t": "EC", "crv": c["key"]["crv"], "d": c["epk"]})} if c["epk"] else {}
        party = {m: c[m] for m in ("apu", "apv") if c[m] is not None}
        e = lib(JWE_EC, jweg.pt_value(c["pt"]), **kw)
        pub = gen.lkey(c["key"], False)
        cek, ek, iv, params, epk = lib(e.enc_setup, jweg.pt_value(c["pt"]), "", key=pub, **dict(local, **party))
        if c["epk"]:
            check(epk.d == int(c["epk"], 16), "another ephemeral key is used")
        tok = lib(e.encrypt, key=pub, params=params, cek=cek, iv=iv, encrypted_key=ek, **ekw)
        pt, rcek, hdr = ref_pt(tok)
        check(pt == want and rcek == cek, "the reference decrypts something else")
        check(all(hdr[m] == party[m] for m in party) and "d" not in hdr["epk"], "header %s", hdr)
        d = JWE_EC()
        priv = gen.lkey(c["key"])
        check(lib(d.dec_setup, factory(tok).jwt, key=priv) == cek, "another content key is derived")
        check(lib(d.decrypt, tok, key=priv) == want, "decrypted to something else")
        return [alg, enc]

    # an object of its own for every message
    e = lib(cls, jweg.pt_value(c["pt"]), **kw)
    tok = lib(e.encrypt, ekey, **ekw)
    pt, cek, hdr = ref_pt(tok)
    check(pt == want, "the reference decrypts something else")
    if rk.kty == "oct" and c["kid"]:
        check(hdr.get("kid") == c["kid"], "header %s lacks the key id", hdr)
    d = cls()
    for t in (tok, factory(tok).jwt):
        got = lib(d.decrypt, t, dkey)
        check(isinstance(got, bytes) and got == want, "decrypted to %s", got)
    if rk.kty == "RSA":
        check(d["cek"] == cek and e["cek"] == cek, "the content key is reported as something else")
    # the content key of the first message used for the second one
    tok2 = lib(lib(cls, jweg.pt_value(c["pt2"]), **kw).encrypt, ekey if rk.kty == "oct" else None, cek=cek)
    check(ref_pt(tok2, cek)[0] == want2, "the reference decrypts something else with the given content key")
    check(lib(cls().decrypt, tok2, None, cek=cek) == want2, "decrypted with the content key to something else")
    check(lib(JWE().decrypt, tok2, [], cek=cek) == want2, "decrypted by JWE with the content key to something else")
    bad = bytes([cek[0] ^ 1]) + cek[1:]
    must_fail("another content key", cls().decrypt, tok2, None, cek=bad)
    return [alg, enc]


SUBTESTS = [
    Search("classes", s_classes(), p_classes, quick=400, thorough=8000),
    Enum("rsa-encrypter", rsa_cases, p_rsa),
    Enum("long", long_ones, p_long),
    Search("several-keys", s_several(), p_several, quick=300, thorough=8000),
    Enum("pairs", every, prop, exhaustive=True),
    Search("roundtrip", strat(), prop, quick=800, thorough=30000),
]
