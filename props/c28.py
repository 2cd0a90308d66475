"""C28: key derivation of ECDH-ES (Concat KDF)."""
from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C28"
RULE = ("Case: curve, two key pairs (special scalars giving shared secrets with leading zero octets included), algorithm name, party "
        "information and output length; a second, different set of the latter. Oracle: own Concat KDF over the independently computed "
        "full-width secret. All cases are non-trivial.")

from jwkest.ecc import NISTEllipticCurve  # noqa: E402
from jwkest.extra import concat_sha256, ecdh_derive_key  # noqa: E402
from jwkest.jwe import JWE  # noqa: E402

info = st.fixed_dictionaries({
    "alg": st.one_of(st.sampled_from(ref.ENCS + ["A128KW", "A192KW", "A256KW"]), st.text(alphabet="AB1-+", max_size=30)),
    "apu": st.one_of(gen.hexbytes(0, 40), st.sampled_from(["", "00", "00000001", "416c696365", "61" * 300])),
    "apv": st.one_of(gen.hexbytes(0, 40), st.sampled_from(["", "00", "00000001", "426f62", "62" * 300])),
    "bits": st.one_of(st.sampled_from([128, 192, 256, 384, 512]), st.integers(1, 260).map(lambda n: 8 * n))})


def pairs():
    return st.sampled_from(gen.CURVES).flatmap(lambda c: st.tuples(gen.ec_scalar(c), st.one_of(gen.ec_scalar(c), st.just(1))).map(
        lambda t: {"crv": c, "a": "%x" % t[0], "b": "%x" % t[1]}))


def kdf(z, i):
    a = i["alg"].encode()
    return ref.concat_kdf(z, i["bits"], ref.lv(a) + ref.lv(gen.B(i["apu"])) + ref.lv(gen.B(i["apv"])) + i["bits"].to_bytes(4, "big"))


def p_derive(c):
    crv = c["pair"]["crv"]
    cv = ref.CURVES[crv]
    a, b = int(c["pair"]["a"], 16), int(c["pair"]["b"], 16)
    A, B = gen._ecpub(crv, c["pair"]["a"]), gen._ecpub(crv, c["pair"]["b"])
    z = ref.i2b(cv.mul(a, B)[0], cv.size)
    lc = NISTEllipticCurve.by_name(crv)
    got = {}
    for name in ("i", "j"):
        i = c[name]
        r = lib(ecdh_derive_key, lc, a, B, gen.B(i["apu"]), gen.B(i["apv"]), i["alg"].encode(), i["bits"])
        want = kdf(z, i)
        check(r == want, "derived %s, expected %s (secret %s)", r.hex(), want.hex(), z.hex())
        check(len(r) * 8 == i["bits"], "derived %s octets", len(r))
        got[name] = r
    i = c["i"]
    r = lib(ecdh_derive_key, lc, b, A, gen.B(i["apu"]), gen.B(i["apv"]), i["alg"].encode(), i["bits"])
    check(r == got["i"], "the parties derive different keys %s / %s", got["i"].hex(), r.hex())
    if c["i"] != c["j"]:
        n = min(len(got["i"]), len(got["j"]))
        if n >= 8:
            check(got["i"][:n] != got["j"][:n], "the same key for %s and %s", c["i"], c["j"])
    return [crv, "zero" if z[0] == 0 and crv != "P-521" else "plain", "bits%d" % min(i["bits"] // 256, 3)]


def near(i):
    """A different, easily confused set of ingredients."""
    def mv(t):
        k, s = t
        j = dict(i)
        if k == "move-uv":
            if not i["apu"]:
                return dict(i, apv="00" + i["apv"])
            return dict(i, apu=i["apu"][:-2], apv=i["apu"][-2:] + i["apv"])
        if k == "swap":
            return dict(i, apu=i["apv"], apv=i["apu"]) if i["apu"] != i["apv"] else dict(i, apu=i["apu"] + "00")
        if k == "move-au":
            if not i["alg"]:
                return dict(i, alg="A")
            return dict(i, alg=i["alg"][:-1], apu=i["alg"][-1:].encode().hex() + i["apu"])
        if k == "zero":
            return dict(i, **{s: i[s] + "00"})
        if k == "bits":
            return dict(i, bits=i["bits"] + 8)
        j[s] = ""
        return j if j != i else dict(i, bits=i["bits"] + 256)
    return st.tuples(st.sampled_from(["move-uv", "swap", "move-au", "zero", "bits", "drop"]), st.sampled_from(["apu", "apv"])).map(mv)


s_derive = st.tuples(pairs(), info).flatmap(lambda t: st.fixed_dictionaries(
    {"pair": st.just(t[0]), "i": st.just(t[1]), "j": st.one_of(near(t[1]), near(t[1]), info)}))


def s_concat():
    return st.fixed_dictionaries({"z": gen.hexbytes(0, 70), "bits": st.one_of(st.integers(1, 70).map(lambda n: 8 * n), st.integers(1, 5000).map(lambda n: 8 * n),
                                                                             st.integers(1, 1200)),
                                  "other": gen.hexbytes(0, 100)})


def p_concat(c):
    r = lib(concat_sha256, gen.B(c["z"]), c["bits"], gen.B(c["other"]))
    want = ref.concat_kdf(gen.B(c["z"]), c["bits"], gen.B(c["other"]))
    check(r == want, "%s bits: derived %s, expected %s", c["bits"], r.hex(), want.hex())
    return ["whole" if c["bits"] % 8 == 0 else "part"]


def s_token():
    """What a token's header says goes into the derivation as it is."""
    return st.tuples(st.sampled_from(ref.KM_ALGS[6:]), st.sampled_from(jweg.CBC), gen.ec_spec()).flatmap(lambda t: st.fixed_dictionaries(
        {"alg": st.just(t[0]), "enc": st.just(t[1]), "key": st.just(t[2]), "cek": gen.hexbytes(ref.ENC_KEYLEN[t[1]], ref.ENC_KEYLEN[t[1]]),
         "iv": gen.hexbytes(16, 16), "seed": st.just("00" * 8), "eph": gen.ec_scalar(t[2]["crv"]).map(lambda d: "%x" % d),
         "pt": st.just({"t": "message"}), "zip": st.just(False), "apu": jweg.party(), "apv": jweg.party(), "drop": st.sampled_from(["", "", "apu", "apv"])}))


def p_token(c):
    import json
    tok = jweg.make(c)
    check(lib(JWE().decrypt, tok, [gen.lkey(c["key"])]) == b"message", "does not decrypt")
    # encryption with the caller's party information
    kw = {m: c[m] for m in ("apu", "apv") if c[m] is not None}
    t = lib(JWE("message", alg=c["alg"], enc=c["enc"], **kw).encrypt, [gen.lkey(c["key"], private=False)])
    h = json.loads(ref.unb64u(t.split(".")[0]))
    for m in kw:
        check(h.get(m) == kw[m], "header has %s %s, not the caller's %s", m, h.get(m), kw[m])
    check(ref.jwe_open(t, gen.rkey(c["key"]))[1] == b"message", "a standard implementation gets something else")
    return [c["alg"]]


def longs(tier):
    """Party information and outputs of every length class, with zero octets
    at either end (lengths count octets, not digits or values)."""
    base = {"crv": "P-256", "a": "1234567", "b": "7654321"}
    for n in list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 1000, 65535, 65536, 65537, 1 << 20]:
        for form in ("ff", "zero", "lead", "trail"):
            for m in ("apu", "apv"):
                yield {"pair": base, "n": n, "form": form, "m": m, "bits": 256}
    for n in list(range(1, 70)) + [127, 128, 255, 256, 257, 8160, 8161, 8192, 16384, 65536]:
        yield {"pair": base, "n": 5, "form": "ff", "m": "apu", "bits": 8 * n}
    for n in range(0, 300, 7):
        yield {"pair": base, "n": n, "form": "ff", "m": "alg", "bits": 128}


def p_long(c):
    n = c["n"]
    x = {"ff": b"\xff" * n, "zero": bytes(n), "lead": (b"\0" + b"a" * n)[:n], "trail": (b"a" * n)[1:] + b"\0" * (n > 0)}[c["form"]]
    i = {"alg": "A128KW", "apu": "01", "apv": "02", "bits": c["bits"]}
    if c["m"] == "alg":
        i["alg"] = "A" * n
    else:
        i[c["m"]] = x.hex()
    crv, cv = c["pair"]["crv"], ref.CURVES[c["pair"]["crv"]]
    a = int(c["pair"]["a"], 16)
    B = gen._ecpub(crv, c["pair"]["b"])
    z = ref.i2b(cv.mul(a, B)[0], cv.size)
    r = lib(ecdh_derive_key, NISTEllipticCurve.by_name(crv), a, B, gen.B(i["apu"]), gen.B(i["apv"]), i["alg"].encode(), i["bits"])
    check(r == kdf(z, i), "%s of %s octets (%s), %s bits: derived %s", c["m"], n, c["form"], c["bits"], r.hex())
    # the same information in a token, given by a standard implementation
    if c["m"] != "alg" and c["bits"] == 256 and n:
        m = {"alg": "ECDH-ES+A256KW", "enc": "A128CBC-HS256", "key": {"t": "EC", "crv": crv, "d": c["pair"]["b"]}, "cek": "ab" * 32,
             "iv": "cd" * 16, "seed": "00" * 8, "eph": c["pair"]["a"], "pt": {"t": "message"}, "zip": False, "apu": "AQ", "apv": "Ag"}
        m[c["m"]] = ref.b64u(x)
        check(lib(JWE().decrypt, jweg.make(m), [gen.lkey(m["key"])]) == b"message", "token with %s of %s octets: other plaintext", c["m"], n)
    return [c["m"], c["form"]]


SUBTESTS = [
    Enum("lengths", longs, p_long),
    Search("derive", s_derive, p_derive, quick=800, thorough=25000),
    Search("concat", s_concat(), p_concat, quick=4000, thorough=100000),
    Search("tokens", s_token(), p_token, quick=300, thorough=10000),
]
