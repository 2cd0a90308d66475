"""C03: algorithm pinning and confusion."""
import json

from hypothesis import strategies as st

from lib import gen, oneobj, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C03"
RULE = ("Case: algorithm value in the header, algorithm and key the signature was really made with, per-call pin, object "
        "pin, allow_none, supplied keys with their declared algorithms. Oracle: decision table over the reference "
        "verifier. Trivial: no key of the supplied ones could have made any valid signature and nothing is pinned.")

from jwkest.jws import JWS, factory  # noqa: E402

MISSING = {"missing": True}
NONES = ["none", "None", "NONE", "nOnE", "nonE"]
ODD = ["", " ", "none ", "noneX", "HS256 ", " HS256", "hs256", "Hs256", "RS1", "HS1", "ES256K", "EdDSA", "dir", "A128KW", "RSA-OAEP",
       "ECDH-ES", "ECDH-ES+A128KW", "HS", "RS", "ES", "PS", "foo", "SHA256", "HS256\0", "HS2566", "RS257", "AES", "PSK",
       5, 0, 256, True, False, 1.5, [], ["none"], ["RS256"], {}, {"none": 1}, "\u0274one", "\uff4eone"]


def s_keys(alg):
    return st.lists(st.fixed_dictionaries({
        "key": st.one_of(gen.key_for(alg), gen.key_for(alg), gen.any_key),
        "alg": st.sampled_from(["", "", alg, "HS256", "RS256", "RS512", "PS256", "ES256", "ES384", "RSA-OAEP", "none"])}),
        max_size=3)


def strat():
    def one(real):
        pin = st.sampled_from([None, None, None, real, "HS256", "RS256", "PS256", "ES256", "ES512", "RS384", "none"])
        return st.fixed_dictionaries({
            "real": st.just(real), "key": gen.key_for(real), "rnd": gen.hexbytes(70, 70), "payload": gen.hexbytes(0, 20),
            "halg": st.one_of(st.just(real), st.just(real), st.just(real), st.sampled_from(ref.JWS_ALGS), st.sampled_from(NONES),
                              st.sampled_from(ODD), st.just(None), st.just(MISSING)),
            "emptysig": st.booleans(), "decl": st.sampled_from(["", "", real, real, "HS256", "RS256", "ES256", "PS512", "none", "None", "dir", real.lower(), real[:2], real + "x"]),
            "keys": s_keys(real), "at": st.integers(0, 3), "with": st.sampled_from([True, True, True, False]),
            "sigalg": pin, "objalg": pin, "allow": st.sampled_from([False, False, True])})
    return st.sampled_from(ref.JWS_ALGS).flatmap(one)


def is_none(h):
    return h is None or (isinstance(h, str) and h.lower() == "none")


def build(c):
    h = {} if c["halg"] == MISSING else {"alg": c["halg"]}
    txt = json.dumps(h)
    tok = ref.jws_sign(txt, gen.B(c["payload"]), gen.rkey(c["key"]), c["real"], gen.B(c["rnd"]))
    if is_none(h.get("alg", 0)) and c["emptysig"]:
        tok = tok.rsplit(".", 1)[0] + "."
    return tok


def supplied(c):
    ks = [(k["key"], k["alg"]) for k in c["keys"]]
    if c["with"]:
        ks.insert(min(c["at"], len(ks)), (c["key"], c["decl"]))
    return ks


def model(c, tok, ks):
    """True / False / None (unsecured token allowed although pinned)."""
    h = c["halg"]
    if h == MISSING:
        return False
    if is_none(h):
        if not c["allow"]:
            return False
        return None if (c["sigalg"] not in (None, "none") or c["objalg"] not in (None, "none")) else True
    if not isinstance(h, str) or h not in ref.JWS_ALGS:
        return False
    if c["sigalg"] is not None and c["sigalg"] != h:
        return False
    if c["objalg"] is not None and c["objalg"] != h:
        return False
    si, sig = tok.rsplit(".", 1)
    return any(ref.jws_sig_ok(h, gen.rkey(s), si.encode(), ref.unb64u(sig)) for s, a in ks if a in ("", h))


def prop(c):
    tok = build(c)
    ks = supplied(c)
    want = model(c, tok, ks)
    keys = [gen.lkey(s, private=False, alg=a) for s, a in ks]
    v = JWS(alg=c["objalg"]) if c["objalg"] is not None else JWS()
    ok, r = attempt(v.verify_compact_verbose, tok, keys, c["allow"], c["sigalg"])
    if want is not None:
        check(ok == want, "%s: library %s, model %s (%s)", c["halg"], "accepts" if ok else "rejects",
              "accepts" if want else "rejects", r)
    if ok:
        check(r["msg"] == ref.payload_value(gen.B(c["payload"])), "payload %s", r["msg"])
        if not is_none(c["halg"]):
            check(r["key"].kty == ref.alg_kty(c["halg"]), "verified with a key of type %s", r["key"].kty)
            check(r["key"].alg in ("", c["halg"]), "verified with a key declared for %s", r["key"].alg)
    if c["objalg"] is None:
        okf, f = attempt(factory, tok)
        if okf and f:
            ok2, r2 = attempt(f.verify_compact, tok, keys, c["allow"], c["sigalg"])
            if want is not None:
                check(ok2 == want, "object from factory: %s, model %s (%s)", ok2, want, r2)
        # JSON serialization of the same signature
        p = tok.split(".")
        doc = json.dumps({"protected": p[0], "payload": p[1], "signature": p[2]})
        ok3, r3 = attempt(JWS().verify_json, doc, keys, c["allow"], c["sigalg"])
        if want is False:
            check(not ok3, "JSON form accepted (%s)", r3)
    tags = ["halg-" + ("real" if c["halg"] == c["real"] else "none" if is_none(c["halg"]) else "other"),
            {True: "accept", False: "reject", None: "free"}[want]]
    if want is False and not any(gen.same_key(s, c["key"]) for s, a in ks) and not c["sigalg"] and not c["objalg"] \
            and not is_none(c["halg"]):
        tags.append("trivial")
    return tags


# --- public keys used as HMAC secrets
def s_confuse():
    return st.fixed_dictionaries({
        "hs": st.sampled_from(["HS256", "HS384", "HS512"]), "victim": st.one_of(gen.rsa_spec(), gen.ec_spec()),
        "form": st.sampled_from(["pem", "der", "ssh", "n", "ntext", "jwk", "pemnl", "empty", "x", "hexn"]),
        "decl": st.sampled_from(["", "RS256", "ES256", "HS256"]), "private": st.booleans(),
        "kid": st.sampled_from(["", "k"]), "sigalg": st.sampled_from([None, "HS256", "RS256"]),
        "extra": st.lists(gen.oct_spec(), max_size=1)})


def forms(spec, form):
    r = gen.rkey(spec, private=False)
    if r.kty == "RSA":
        o = gen._rsaobj(spec["i"], False)
        pem, der, ssh = o.export_key("PEM"), o.export_key("DER"), o.export_key("OpenSSH")
        num = r.n
    else:
        from Cryptodome.PublicKey import ECC
        o = ECC.construct(curve=r.crv, point_x=r.x, point_y=r.y)
        pem, der, ssh = o.export_key(format="PEM").encode(), o.export_key(format="DER"), o.export_key(format="OpenSSH").encode()
        num = r.x
    return {"pem": pem, "der": der, "ssh": ssh, "n": ref.i2b(num), "ntext": str(num).encode(), "hexn": b"%x" % num,
            "jwk": ref.compact_json(ref.jwk_public(r)).encode(), "pemnl": pem + b"\n", "empty": b"",
            "x": ref.b64u(ref.i2b(num)).encode()}[form]


def p_confuse(c):
    hdr = {"alg": c["hs"]}
    if c["kid"]:
        hdr["kid"] = c["kid"]
    secret = forms(c["victim"], c["form"])
    tok = ref.jws_sign(json.dumps(hdr), b"{}", ref.RKey("oct", k=secret), c["hs"], b"")
    keys = [gen.lkey(c["victim"], private=c["private"], alg=c["decl"], kid=c["kid"])]
    keys += [gen.lkey(s, kid=c["kid"]) for s in c["extra"] if ref.jws_sig_ok(
        c["hs"], gen.rkey(s), b"", ref.jws_sig(c["hs"], ref.RKey("oct", k=secret), b"", b"")) is False]
    must_fail("HMAC with a public key as secret accepted", JWS().verify_compact, tok, keys, False, c["sigalg"])
    return [c["form"], c["victim"]["t"]]


BIG = [i for i, k in enumerate(gen.RSA_KEYS) if gen.rsa_ok("PS512", k["bits"])][0]


def enum_none(tier):
    key = {"t": "oct", "k": "6b6579"}
    for h in NONES + ODD + [None, MISSING]:
        for allow in (False, True):
            for empty in (False, True):
                for sigalg in (None, "HS256", "none"):
                    yield {"real": "HS256", "key": key, "rnd": "00" * 70, "payload": "7b7d", "halg": h, "emptysig": empty,
                           "decl": "", "keys": [], "at": 0, "with": True, "sigalg": sigalg, "objalg": None, "allow": allow}


def enum_pin(tier):
    """All algorithms against all pins, in both places."""
    for i, real in enumerate(ref.JWS_ALGS):
        key = {"H": {"t": "oct", "k": "6b6579"}, "R": {"t": "RSA", "i": BIG}, "P": {"t": "RSA", "i": BIG},
               "E": {"t": "EC", "crv": ref.ES.get(real, ["P-256"])[0], "d": "123456789"}}[real[0]]
        for p in ref.JWS_ALGS + ["none", "", "foo", real.lower()]:
            for sig, obj in ((p, None), (None, p), (real, p), (p, real)):
                for decl in ("", p):
                    if sig == "" or obj == "":
                        continue
                    yield {"real": real, "key": key, "rnd": "07" * 70, "payload": "7b7d", "halg": real, "emptysig": False,
                           "decl": decl, "keys": [], "at": 0, "with": True, "sigalg": sig, "objalg": obj, "allow": False}


SUBTESTS = [
    Enum("none-values", enum_none, prop, exhaustive=True),
    Enum("pins", enum_pin, prop, exhaustive=True),
    Search("mixed", strat(), prop, quick=2400, thorough=80000),
    Search("one-object", oneobj.strategy(st.integers(0, 3)), oneobj.run, quick=1500, thorough=60000),
    Search("confusion", s_confuse(), p_confuse, quick=800, thorough=10000),
]
