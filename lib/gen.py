"""Strategies for case data, and interpreters of case data."""
import functools
import json
import os

from hypothesis import strategies as st

from . import core, ref

HERE = core.HERE
with open(os.path.join(HERE, "fixtures", "rsa_keys.json")) as _f:
    RSA_KEYS = [{k: (int(v, 16) if isinstance(v, str) else v) for k, v in d.items()}
                for d in json.load(_f)]
with open(os.path.join(HERE, "fixtures", "ec_special.json")) as _f:
    EC_SPECIAL = json.load(_f)
CURVES = sorted(ref.CURVES)

# ------------------------------------------------------------- basic data
hexbytes = lambda lo=0, hi=64: st.binary(min_size=lo, max_size=hi).map(bytes.hex)
B = bytes.fromhex

rng_spec = st.fixed_dictionaries({"s": st.integers(0, 2**32), "z": st.sampled_from([0, 0, 1, 2, 3]),
                                  "f": st.sampled_from([False, False, True])})
small_text = st.text(max_size=12)
json_scalar = st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70), st.integers(-5, 5),
                        st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=20))
json_value = st.recursive(json_scalar, lambda c: st.one_of(
    st.lists(c, max_size=4), st.dictionaries(small_text, c, max_size=4)), max_leaves=10)
claims = st.dictionaries(st.one_of(st.sampled_from(["iss", "sub", "aud", "exp", "iat", "nonce"]), small_text),
                         json_value, max_size=6)
TRICKY_TEXT = ['{"a":1}', '123', 'null', '"x"', '[1, 2]', '  {} ', 'true', '1.5', '-0', '1e5', '', ' ', '{', '"',
               '{"a":1} x', '\ufeff{}', '{"a":1,"a":2}', '\n', 'a.b.c', '=', '{"b":"\\u00e5"}', '0' * 70,
               '\u00e5\u00e4\u00f6', '\U0001f511', 'NULL', "{'a':1}", '[[[[[[]]]]]]', '\x00', 'nan', '12a']
# characters that serializations of JSON treat differently
CHARS = ["\ud800", "\udfff", "\udc00\ud800", "a\ud83d", "\U0001f511", "\U0010ffff", "\u2028", "\u2029", "\x00", "\x7f", "\x1f", "\ufeff", "\ufffe", "\uffff", "\\u0041", "\\", "\"", "/",
         "</script>", "\xad", "e\u0301", "\u00e9", "\u200b", "\u202e", "\r\n", "%00", "&amp;"]
text_payload = st.one_of(st.text(max_size=60), st.sampled_from(TRICKY_TEXT),
                         st.text(alphabet="abc{}[]\":,0123", max_size=15),
                         st.integers(0, 400).map(lambda n: "x" * n))
payload = st.one_of(
    text_payload.map(lambda v: {"t": v}),
    claims.map(lambda v: {"j": v}),
    claims.map(lambda v: {"jb": v}),
    st.lists(json_value, max_size=4).map(lambda v: {"j": v}),
    st.one_of(hexbytes(0, 80), text_payload.map(lambda t: t.encode("utf-8").hex())).map(lambda v: {"b": v}))


def payload_value(p):
    """The object handed to the library."""
    if "t" in p:
        return p["t"]
    if "b" in p:
        return B(p["b"])
    if "jb" in p:
        return texts_to_bytes(p["jb"])
    return json.loads(json.dumps(p["j"]))


def texts_to_bytes(v):
    """The same JSON value with byte strings for all texts that are not names."""
    if isinstance(v, str):
        return v.encode("utf-8")
    if isinstance(v, list):
        return [texts_to_bytes(x) for x in v]
    if isinstance(v, dict):
        return {k: texts_to_bytes(x) for k, x in v.items()}
    return v


def json_of(p):
    """The JSON value of a payload that is one."""
    return json.loads(json.dumps(p["jb"] if "jb" in p else p["j"]))


def payload_octets(p):
    if "t" in p:
        return p["t"].encode("utf-8")
    if "b" in p:
        return B(p["b"])
    return None     # JSON: serialization is the library's choice


def same(a, b):
    """Equal values of equal JSON types (1, True and 1.0 differ)."""
    if isinstance(a, bytes) or isinstance(b, bytes):
        return a == b and isinstance(a, bytes) and isinstance(b, bytes)
    if isinstance(a, str) or isinstance(b, str):
        return a == b and isinstance(a, str) and isinstance(b, str)
    try:
        return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)
    except (TypeError, ValueError):
        return a == b


def same_payload(p, got):
    """Is `got` what verification has to return for payload p (no cty)?"""
    if payload_octets(p) is None:
        return same(got, json_of(p))
    o = payload_octets(p)
    want = ref.payload_value(o)
    if same(got, want):
        return True
    if isinstance(want, bytes):
        # not UTF-8: json detects UTF-16/32 text
        try:
            return same(got, json.loads(o))
        except ValueError:
            return False
    return False


RESERVED = {"alg", "kid", "typ", "crit", "jwk", "jku", "x5u", "x5c", "x5t", "cty", "enc", "zip", "epk", "apu",
            "apv", "self"}
header_params = st.dictionaries(
    st.one_of(st.text(max_size=8), st.sampled_from(["foo", "http://example.com/x", "a b", "\u00e5", "Alg", "KID", "msg", "with_digest", "iv", "tag", "p2s", "p2c", "cek",
                                           "b64", "keys", "key", "headers", "payload", "signature", "protected", "jws", "args"]),
              st.sampled_from(CHARS)),
    st.one_of(json_value, json_value, json_value, st.sampled_from(CHARS)), max_size=4).map(lambda d: {k: v for k, v in d.items() if k not in RESERVED})
kids = st.one_of(st.sampled_from(["1", "k1", "a b", "\u00e5\u00df", "kid.with.dots", "0",
                               "NzbLsXh8uDCcd-6MNwXF4W_7noWXFZAfHkxZsRGC9Xs", "https://example.com/keys#1", "2011-04-29", "00" * 32]), st.text(min_size=1, max_size=10))
typs = st.one_of(st.sampled_from(["JWT", "JOSE", "jwt", "Jwt", "at+jwt", "AT+JWT", "kb+jwt", "JOSE+JSON", "jose+json", "application/jose",
                                 "application/jwt", "x", "none", " JWT", "jwt;v=1"]), st.text(min_size=1, max_size=10))
opt_typ = st.one_of(st.just(""), st.just(""), typs)
opt_kid = st.one_of(st.just(""), kids)

# ------------------------------------------------------------- keys
RSA_SMALL = [i for i, k in enumerate(RSA_KEYS) if k["bits"] <= 1280]


def rsa_ok(alg, bits):
    """Can a modulus of that size carry the algorithm?"""
    need = {"RS256": 62 * 8, "RS384": 78 * 8, "RS512": 94 * 8, "PS256": 66 * 8 + 1, "PS384": 98 * 8 + 1,
            "PS512": 130 * 8 - 6}.get(alg, 0)
    if alg == "PS512":
        return (bits - 1 + 7) // 8 >= 130
    return bits >= need


def rsa_spec(ok=lambda bits: True):
    small = [i for i in RSA_SMALL if ok(RSA_KEYS[i]["bits"])]
    every = [i for i in range(len(RSA_KEYS)) if ok(RSA_KEYS[i]["bits"])]
    return st.one_of(st.sampled_from(small), st.sampled_from(small), st.sampled_from(every)).map(lambda i: {"t": "RSA", "i": i})


def ec_scalar(crv):
    n = ref.CURVES[crv].n
    return st.one_of(st.integers(1, n - 1), st.integers(1, n - 1), st.sampled_from(EC_SPECIAL[crv]),
                     st.sampled_from(EC_SPECIAL[crv]).map(lambda d: n - d),
                     st.integers(1, 5), st.integers(1, 5).map(lambda d: n - d),
                     st.integers(0, n.bit_length() - 1).map(lambda b: 1 << b))


def ec_spec(crvs=CURVES):
    return st.sampled_from(list(crvs)).flatmap(
        lambda c: ec_scalar(c).map(lambda d: {"t": "EC", "crv": c, "d": "%x" % d}))


def oct_spec(lo=1, hi=80):
    return st.one_of(hexbytes(lo, hi), st.sampled_from([16, 24, 32, 48, 64, 65, 128, 129]).flatmap(
        lambda n: hexbytes(n, n)), st.integers(max(lo, 1), hi).map(lambda n: "00" * n)).map(lambda k: {"t": "oct", "k": k})


def key_for(alg):
    if alg[:2] == "HS":
        return oct_spec()
    if alg[:2] in ("RS", "PS"):
        return rsa_spec(lambda bits: rsa_ok(alg, bits))
    return ec_spec([ref.ES[alg][0]])


any_key = st.one_of(rsa_spec(), ec_spec(), oct_spec())


@functools.lru_cache(maxsize=4096)
def _ecpub(crv, d):
    return ref.CURVES[crv].pub(int(d, 16))


def rkey(spec, private=True):
    if spec["t"] == "RSA":
        k = RSA_KEYS[spec["i"]]
        if private:
            return ref.RKey("RSA", n=k["n"], e=k["e"], d=k["d"], p=k["p"], q=k["q"])
        return ref.RKey("RSA", n=k["n"], e=k["e"])
    if spec["t"] == "EC":
        x, y = _ecpub(spec["crv"], spec["d"])
        kw = {"d": int(spec["d"], 16)} if private else {}
        return ref.RKey("EC", crv=spec["crv"], x=x, y=y, **kw)
    return ref.RKey("oct", k=B(spec["k"]))


@functools.lru_cache(maxsize=128)
def _rsaobj(i, private):
    from Cryptodome.PublicKey import RSA
    k = RSA_KEYS[i]
    if private:
        return RSA.construct((k["n"], k["e"], k["d"], k["p"], k["q"]))
    return RSA.construct((k["n"], k["e"]))


def lkey(spec, private=True, **meta):
    """A library key built directly from numbers/octets."""
    from jwkest.jwk import ECKey, RSAKey, SYMKey
    meta = {k: v for k, v in meta.items() if v}
    if spec["t"] == "RSA":
        return core.lib(RSAKey, key=_rsaobj(spec["i"], private), **meta)
    if spec["t"] == "EC":
        x, y = _ecpub(spec["crv"], spec["d"])
        kw = {"d": int(spec["d"], 16)} if private else {}
        return core.lib(ECKey, crv=spec["crv"], x=x, y=y, **dict(kw, **meta))
    return core.lib(SYMKey, key=B(spec["k"]), **meta)


def same_key(a, b):
    if a["t"] != b["t"]:
        return False
    if a["t"] == "oct":
        # HMAC zero-pads short keys
        return a["k"] == b["k"] or hmac_block(B(a["k"])) == hmac_block(B(b["k"]))
    return a == b


def same_opener(a, b):
    """Do both keys open the same encrypted tokens?  Opposite private scalars
    give the same shared secret."""
    if a["t"] == b["t"] == "EC" and a["crv"] == b["crv"]:
        from lib import ref
        n = ref.CURVES[a["crv"]].n
        return int(a["d"], 16) in (int(b["d"], 16), n - int(b["d"], 16))
    return a == b


def hmac_block(k):
    return k.rstrip(b"\0")
