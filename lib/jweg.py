"""Strategies and helpers shared by the JWE properties."""
import json

from hypothesis import strategies as st

from . import gen, ref
from .core import lib

GCM = [e for e in ref.ENCS if e.endswith("GCM")]
CBC = [e for e in ref.ENCS if not e.endswith("GCM")]
OVERHEAD = {"RSA1_5": 11, "RSA-OAEP": 42, "RSA-OAEP-256": 66}


def km_ok(alg, enc, bits):
    return (bits + 7) // 8 >= OVERHEAD[alg] + ref.ENC_KEYLEN[enc]


def km_key(alg, enc):
    if alg.startswith("RSA"):
        return gen.rsa_spec(lambda bits: km_ok(alg, enc, bits))
    if alg.startswith("A"):
        return gen.oct_spec()
    return gen.ec_spec()


def km_kty(alg):
    return "RSA" if alg.startswith("RSA") else "oct" if alg.startswith("A") else "EC"


alg_enc = st.one_of(
    st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(CBC)),
    st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(CBC)),
    st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(ref.ENCS)))

plaintext = st.one_of(
    gen.hexbytes(0, 70).map(lambda v: {"b": v}),
    gen.text_payload.map(lambda v: {"t": v}),
    st.sampled_from([0, 1, 15, 16, 17, 31, 32, 33, 64, 255, 256, 1000, 4096]).flatmap(
        lambda n: st.sampled_from([{"n": n, "c": 0}, {"n": n, "c": 255}, {"n": n, "c": 16}, {"n": n, "c": 1}])))


def pt_value(p):
    if "t" in p:
        return p["t"]
    return pt_octets(p)


def pt_octets(p):
    if "t" in p:
        return p["t"].encode("utf-8")
    if "b" in p:
        return gen.B(p["b"])
    return bytes([p["c"]]) * p["n"]


def party():
    """base64url party information, or None"""
    return st.one_of(st.none(), st.none(), gen.hexbytes(1, 40).map(lambda h: ref.b64u(gen.B(h))),
                     st.sampled_from(["", "QWxpY2U", "Qm9i", "AA", "AAAAAA"]))


def rnd_for(alg, enc, key):
    """Random octets the reference key encryption needs."""
    if alg == "RSA1_5":
        k = (gen.RSA_KEYS[key["i"]]["bits"] + 7) // 8
        return st.binary(min_size=k, max_size=k).map(lambda b: bytes(x or 1 for x in b).hex())
    return gen.hexbytes(32, 32)


def lead(n):
    """n octets, often with leading zero octets"""
    return st.one_of(gen.hexbytes(n, n), gen.hexbytes(n, n), gen.hexbytes(n - 1, n - 1).map(lambda h: "00" + h),
                     gen.hexbytes(n - 3, n - 3).map(lambda h: "000000" + h), st.just("00" * n), st.just("ff" * n))


def made(alg, enc):
    """Ingredients of a reference-made token."""
    return km_key(alg, enc).flatmap(lambda k: st.fixed_dictionaries({
        "alg": st.just(alg), "enc": st.just(enc), "key": st.just(k), "cek": lead(ref.ENC_KEYLEN[enc]),
        "iv": lead(ref.ivlen(enc)), "seed": gen.hexbytes(8, 8),
        "eph": gen.ec_scalar(k["crv"]).map(lambda d: "%x" % d) if k["t"] == "EC" else st.just(""),
        "pt": plaintext, "zip": st.sampled_from([False, False, False, True]),
        "apu": party(), "apv": party()}))


def rnd_bytes(alg, key, seed):
    from . import rng
    r = rng.fixed_bytes(b"rnd" + gen.B(seed), 520)
    if alg == "RSA1_5":
        n = (gen.RSA_KEYS[key["i"]]["bits"] + 7) // 8
        return bytes(x or 1 for x in r)[:n]
    return r[:20] if alg == "RSA-OAEP" else r[:32]


def header(c, **extra):
    h = {"alg": c["alg"], "enc": c["enc"]}
    if c.get("zip"):
        h["zip"] = "DEF"
    if c["alg"].startswith("ECDH"):
        for m in ("apu", "apv"):
            if c.get(m) is not None:
                h[m] = c[m]
    h.update(extra)
    return h


def make(c, hdr=None, text=None, **kw):
    """The reference-made token for ingredients c."""
    h = hdr or header(c)
    return ref.jwe_make(h, kw.get("pt", pt_octets(c["pt"])), gen.rkey(c["key"]), gen.B(c["cek"]), gen.B(c["iv"]),
                        rnd_bytes(c["alg"], c["key"], c["seed"]), int(c["eph"], 16) if c["eph"] else None, text)
