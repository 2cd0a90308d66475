"""C22: key agreement rejects foreign ephemeral keys."""
import json

from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C22"
RULE = ("Case: recipient key, ephemeral key (genuine with ordinary and special scalars, or off the curve, of small order, on another "
        "curve, with unreduced coordinates, neutral, missing, malformed) and a token whose content key is what an implementation that "
        "skips the validation would derive (naive formulas, which never use the curve's b). Oracle: decrypts iff genuine. All cases "
        "are non-trivial except library-made tokens with scalar < 6.")

from jwkest.jwe import JWE, factory  # noqa: E402
from jwkest.jwk import ECKey  # noqa: E402

ALGS = [a for a in ref.KM_ALGS if a.startswith("ECDH")]


def nadd(p, a, b):
    """Affine formulas with a = -3 over GF(p), whatever the b."""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        s = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, p)
    else:
        s = (b[1] - a[1]) * pow(b[0] - a[0], -1, p)
    x = (s * s - a[0] - b[0]) % p
    return x, (s * (a[0] - x) - a[1]) % p


def nmul(p, k, a):
    r = None
    a = (a[0] % p, a[1] % p)
    for bit in bin(k)[2:]:
        r = nadd(p, r, r)
        if bit == "1":
            r = nadd(p, r, a)
    return r


def kdf(z, algid, apu, apv, bits):
    return ref.concat_kdf(z, bits, ref.lv(algid) + ref.lv(apu) + ref.lv(apv) + bits.to_bytes(4, "big"))


def token(alg, enc, header, z, cek, iv, pt):
    """A token made consistently for shared secret octets z."""
    h = json.dumps(header)
    aad = ref.b64u(h.encode("utf-8")).encode()

    def party(m):
        v = header.get(m)
        return ref.unb64u(v) if isinstance(v, str) else b""
    if alg == "ECDH-ES":
        cek, ek = kdf(z, enc.encode(), party("apu"), party("apv"), 8 * ref.ENC_KEYLEN[enc]), b""
    else:
        ek = ref.aes_kw(kdf(z, alg[8:].encode(), party("apu"), party("apv"), ref.kw_bits(alg)), cek)
    ct, tag = ref.content_encrypt(enc, cek, iv, aad, pt)
    return ".".join([aad.decode(), ref.b64u(ek), ref.b64u(iv), ref.b64u(ct), ref.b64u(tag)])


def s_base():
    return st.tuples(st.sampled_from(ALGS), st.sampled_from(jweg.CBC * 6 + jweg.GCM), gen.ec_spec()).flatmap(
        lambda t: st.fixed_dictionaries({
            "alg": st.just(t[0]), "enc": st.just(t[1]), "key": st.just(t[2]), "seed": st.integers(0, 2**32),
            "apu": jweg.party(), "apv": jweg.party(),
            "eph": st.one_of(gen.ec_scalar(t[2]["crv"]), st.sampled_from(["own", "neg"])).map(
                lambda d: d if isinstance(d, str) else "%x" % d)}))


def eph(c):
    d, n = int(c["key"]["d"], 16), ref.CURVES[c["key"]["crv"]].n
    return d if c["eph"] == "own" else n - d if c["eph"] == "neg" else int(c["eph"], 16)


def jwk(crv, x, y, **kw):
    w = ref.CURVES[crv].size
    w = max(w, (max(x, y).bit_length() + 7) // 8)
    return dict({"kty": "EC", "crv": crv, "x": ref.b64u(ref.i2b(x, w)), "y": ref.b64u(ref.i2b(y, w))}, **kw)


def hdr(c, epk):
    h = {"alg": c["alg"], "enc": c["enc"]}
    if epk is not None:
        h["epk"] = epk
    for m in ("apu", "apv"):
        if c.get(m) is not None:
            h[m] = c[m]
    return h


def mk(c, epk, z):
    from lib import rng
    r = rng.fixed_bytes(b"c22-%d" % c["seed"], 80)
    return token(c["alg"], c["enc"], hdr(c, epk), z, r[:ref.ENC_KEYLEN[c["enc"]]], r[64:64 + ref.ivlen(c["enc"])], b"secret " + r[:9])


def zz(crv, pt):
    cv = ref.CURVES[crv]
    return ref.i2b(pt[0] if pt else 0, cv.size)


def p_genuine(c):
    cv = ref.CURVES[c["key"]["crv"]]
    e = cv.pub(eph(c))
    s = cv.mul(int(c["key"]["d"], 16), e)
    epk = jwk(c["key"]["crv"], *e)
    if c["extra"]:
        epk.update(c["extra"])
    t = mk(c, epk, zz(c["key"]["crv"], s))
    k = gen.lkey(c["key"])
    r = lib(JWE().decrypt, t, [k])
    check(r[:7] == b"secret ", "decrypted to %s", r)
    return [c["alg"], c["key"]["crv"]] + (["special"] if c["eph"] in ("own", "neg") else [])


def s_foreign():
    point = st.one_of(
        st.fixed_dictionaries({"kind": st.just("random"), "x": gen.hexbytes(66, 66), "y": gen.hexbytes(66, 66)}),
        st.fixed_dictionaries({"kind": st.just("shift"), "dx": st.integers(-3, 3), "dy": st.integers(-3, 3)}),
        st.fixed_dictionaries({"kind": st.just("flip"), "bit": st.integers(0, 520), "co": st.sampled_from("xy")}),
        st.fixed_dictionaries({"kind": st.just("order2"), "x": gen.hexbytes(66, 66)}),
        st.fixed_dictionaries({"kind": st.just("order3"), "x": gen.hexbytes(66, 66)}),
        st.fixed_dictionaries({"kind": st.just("small"), "x": st.integers(0, 3), "y": st.integers(0, 3)}),
        st.fixed_dictionaries({"kind": st.just("other"), "crv": st.sampled_from(gen.CURVES), "e": st.integers(1, 2**250),
                               "label": st.sampled_from(["own", "recipient"])}),
        st.fixed_dictionaries({"kind": st.just("swap")}),
        st.fixed_dictionaries({"kind": st.just("unreduced"), "i": st.integers(0, 2), "j": st.integers(0, 2)}),
        st.fixed_dictionaries({"kind": st.just("zero-x"), "y": gen.hexbytes(66, 66)}))
    return st.tuples(s_base(), point, st.booleans(), st.booleans()).map(
        lambda t: dict(t[0], pt=t[1], factory=t[2], more=t[3]))


def p_foreign(c):
    crv = label = c["key"]["crv"]
    cv = ref.CURVES[crv]
    p, d, k = cv.p, int(c["key"]["d"], 16), c["pt"]
    gx, gy = cv.pub(eph(c))
    kind = k["kind"]
    use = cv
    if kind == "random":
        x, y = int(k["x"], 16) % p, int(k["y"], 16) % p
    elif kind == "shift":
        x, y = (gx + k["dx"]) % p, (gy + k["dy"]) % p
    elif kind == "flip":
        b = 1 << (k["bit"] % cv.bits)
        x, y = (gx ^ b, gy) if k["co"] == "x" else (gx, gy ^ b)
    elif kind == "order2":
        x, y = int(k["x"], 16) % p, 0
    elif kind == "order3":
        # (3x^2-3)^2 = 12 x y^2  makes 2P = -P:  y^2 = (3x^2-3)^2 / (12 x)
        x, y = int(k["x"], 16) % p, None
        while y is None:
            x = x % p + 1
            if x % p:
                v = pow(3 * x * x - 3, 2, p) * pow(12 * x, -1, p) % p
                r = pow(v, (p + 1) // 4, p)
                y = r if r * r % p == v else None
    elif kind == "small":
        x, y = k["x"], k["y"]
    elif kind == "swap":
        x, y = gy, gx
    elif kind == "unreduced":
        x, y = gx + k["i"] * p, gy + k["j"] * p
        if not (k["i"] or k["j"]):
            x += p
    elif kind == "zero-x":
        x, y = 0, int(k["y"], 16) % p
    else:
        other = ref.CURVES[k["crv"]]
        if k["crv"] == crv:
            return ["trivial"]
        x, y = other.pub(k["e"] % (other.n - 1) + 1)
        if k["label"] == "own":
            use, label = other, k["crv"]
            p = other.p
    if label == crv and cv.on_curve(x, y):
        return ["trivial"]
    if label == crv and kind != "unreduced" and not (x < cv.p and y < cv.p):
        kind += "-unreduced"
    try:
        s = nmul(p, d, (x, y))
    except ValueError:      # no inverse
        s = None
    t = mk(c, jwk(label, x, y), ref.i2b(s[0] if s else 0, use.size))
    keys = [gen.lkey(c["key"])]
    if c["more"]:
        keys.append(gen.lkey({"t": "EC", "crv": crv, "d": "7"}))
    must_fail("ephemeral key %s" % kind, JWE().decrypt, t, keys)
    if c["factory"]:
        f = lib(factory, t)
        if f is not None:
            must_fail("ephemeral key %s" % kind, f.decrypt, None, keys)
    return [kind, crv]


MIS = [None, "", "x", 5, True, [], ["kty"], {}, {"kty": "EC"}]
NOT_COORD = ["", "A", "AAAAA", "+/+/", "a b", "\u00e5", " ", None, 5, 0, True, [], {}, ["AQ"], "AQ.AQ", "\n"]


def malformed(tier):
    for crv in gen.CURVES:
        for alg in ("ECDH-ES", "ECDH-ES+A128KW"):
            base = {"alg": alg, "enc": "A128CBC-HS256", "key": {"t": "EC", "crv": crv, "d": "123456789abcdef"}, "seed": 1,
                    "apu": None, "apv": None, "eph": "fedcba987654321"}
            for z in ("genuine", "zero"):
                def case(what, **kw):
                    return dict(base, z=z, what=what, **kw)
                yield case("missing")
                for v in MIS:
                    yield case("value", val=v)
                for m in ("crv", "x", "y", "kty"):
                    yield case("without", m=m)
                for m in ("x", "y"):
                    for v in NOT_COORD:
                        yield case("member", m=m, val=v)
                    for how in ("trunc", "double", "b64", "int", "dec"):
                        yield case("respell", m=m, how=how)
                for v in gen.CURVES + ["p-256", "P-192", "P256", "secp256r1", "Ed25519", "", None, 256, [], ["P-256"], {}]:
                    if v != crv:
                        yield case("member", m="crv", val=v)
                for v in ["RSA", "oct", "OKP", "ec", "", None, 5, [], ["EC"]]:
                    yield case("member", m="kty", val=v)
                yield case("neutral")
                yield case("text")


def p_malformed(c):
    crv = c["key"]["crv"]
    cv = ref.CURVES[crv]
    e = cv.pub(eph(c))
    s = cv.mul(int(c["key"]["d"], 16), e)
    epk = jwk(crv, *e)
    w = c["what"]
    if w == "missing":
        epk = None
    elif w == "value":
        epk = c["val"]
    elif w == "without":
        del epk[c["m"]]
    elif w == "member":
        epk[c["m"]] = c["val"]
    elif w == "respell":
        b = ref.unb64u(epk[c["m"]])
        epk[c["m"]] = {"int": ref.b2i(b), "dec": str(ref.b2i(b)), "trunc": ref.b64u(b[:-1]), "double": ref.b64u(b + b), "b64": epk[c["m"]] + "A*"}[c["how"]]
    elif w == "neutral":
        epk = jwk(crv, 0, 0)
    elif w == "text":
        epk = json.dumps(epk)
    h = hdr(c, epk)
    if w == "value" and c["val"] is None:
        h["epk"] = None
    from lib import rng
    r = rng.fixed_bytes(b"c22m", 80)
    z = zz(crv, s) if c["z"] == "genuine" else zz(crv, None)
    t = token(c["alg"], c["enc"], h, z, r[:32], r[64:80], b"secret")
    key = gen.lkey(c["key"])
    must_fail("ephemeral key %s" % (json.dumps(epk),), JWE().decrypt, t, [key])
    return [w]


def s_made():
    return st.tuples(gen.ec_spec(), st.sampled_from(ALGS), st.sampled_from(jweg.CBC * 6 + jweg.GCM), gen.rng_spec, gen.opt_kid,
                     st.booleans(), st.sampled_from([None, None, "key", "dict"]), st.integers(1, 3)).map(
        lambda t: {"key": t[0], "alg": t[1], "enc": t[2], "rng": t[3], "kid": t[4], "private": t[5], "own": t[6], "n": t[7]})


def p_made(c):
    k = gen.lkey(c["key"], private=c["private"], kid=c["kid"])
    crv = c["key"]["crv"]
    cv = ref.CURVES[crv]
    kw = {}
    if c["own"]:
        ep = gen.lkey({"t": "EC", "crv": crv, "d": "abcdef123"})
        kw["epk"] = ep if c["own"] == "key" else ep.serialize(True)
    obj = JWE(b"hello", alg=c["alg"], enc=c["enc"], **kw)
    for i in range(c["n"]):
        t = lib(obj.encrypt, [k])
        h = json.loads(ref.unb64u(t.split(".")[0]))
        epk = h.get("epk")
        check(isinstance(epk, dict), "no ephemeral key in the header: %s", h)
        check(epk.get("kty") == "EC" and epk.get("crv") == crv, "ephemeral key %s for a key on %s", epk, crv)
        check("d" not in epk, "private part in the ephemeral key %s", epk)
        for m in "xy":
            check(isinstance(epk.get(m), str) and len(ref.unb64u(epk[m])) == cv.size, "member %s of the ephemeral key %s", m, epk)
        check(cv.on_curve(*[ref.b2i(ref.unb64u(epk[m])) for m in "xy"]), "ephemeral key %s not on the curve", epk)
        if c["own"]:
            check(epk == ref.jwk_public(gen.rkey({"t": "EC", "crv": crv, "d": "abcdef123"})), "ephemeral key %s not the caller's", epk)
        check(ref.jwe_open(t, gen.rkey(c["key"]))[1] == b"hello", "does not decrypt")
    return [c["alg"], crv] + (["trivial"] if int(c["key"]["d"], 16) < 6 else [])


def s_genuine():
    extra = st.sampled_from([{}, {}, {}, {"kid": "e"}, {"use": "enc"}, {"foo": "bar"}, {"key": "AQAB"}, {"curve": "P-256"}, {"self": 1},
                             {"key": 5, "curve": {}}, {"n": "AQAB", "e": "AQAB"}, {"k": "AQAB"}, {"x5c": ["AQAB"]}, {"alg": "ES256"}])
    return st.tuples(s_base(), extra).map(lambda t: dict(t[0], extra=t[1]))


def every_bit(tier):
    """Every single bit of both coordinates."""
    for crv in gen.CURVES:
        bits = ref.CURVES[crv].p.bit_length()
        for co in "xy":
            for b in range(0, 8 * ref.CURVES[crv].size):
                if tier == "quick" and b % 5 and 8 < b < bits - 8:
                    continue
                yield {"alg": ALGS[b % len(ALGS)], "enc": "A128CBC-HS256", "key": {"t": "EC", "crv": crv, "d": "123456789abcdef"}, "seed": b,
                       "apu": None, "apv": None, "eph": "fedcba987654321", "pt": {"kind": "flip", "bit": b, "co": co}, "factory": b % 7 == 0, "more": False}


def extreme(tier):
    """Ephemeral keys genuinely on the curve with the smallest and largest x."""
    for crv in gen.CURVES:
        for i in range(len(ref.CURVES[crv].edges())):
            for j, alg in enumerate(ALGS):
                if tier != "quick" or (i + j) % 2 == 0:
                    yield {"alg": alg, "enc": "A128CBC-HS256", "key": {"t": "EC", "crv": crv, "d": "123456789abcdef"}, "seed": i,
                           "apu": None, "apv": None, "i": i}


def p_extreme(c):
    crv = c["key"]["crv"]
    cv = ref.CURVES[crv]
    e = cv.edges()[c["i"]]
    t = mk(c, jwk(crv, *e), zz(crv, cv.mul(int(c["key"]["d"], 16), e)))
    r = lib(JWE().decrypt, t, [gen.lkey(c["key"])])
    check(r[:7] == b"secret ", "decrypted to %s", r)
    return [c["alg"], crv]


SUBTESTS = [
    Enum("extreme", extreme, p_extreme),
    Enum("every-bit", every_bit, p_foreign),
    Enum("malformed", malformed, p_malformed, exhaustive=True),
    Search("genuine", s_genuine(), p_genuine, quick=600, thorough=20000),
    Search("foreign", s_foreign(), p_foreign, quick=1600, thorough=60000),
    Search("library-made", s_made(), p_made, quick=400, thorough=12000),
]
