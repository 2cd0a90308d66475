"""C07: a token cannot bring its own trust."""
import base64
import hashlib
import json

from hypothesis import strategies as st

from lib import gen, jweg, net, ref, x509
from lib.core import Enum, Search, attempt, check, lib

ID = "C07"
RULE = ("Case: a token (compact JWS, JSON JWS, JWE) whose header carries any subset of embedded key (public or private), key-set URL, "
        "certificate URL, certificate chain and thumbprint of the attacker or the owner, made with the attacker's or the owner's key; "
        "the caller supplies keys (right, wrong, not fitting) or none; the URLs would deliver the attacker's keys. Or a good token with "
        "critical extensions. Oracle: decided by the supplied keys alone; any network access is recorded. All cases are non-trivial.")

from jwkest import jwe, jws  # noqa: E402
from jwkest.jwe import JWE  # noqa: E402
from jwkest.jwk import KEYS  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

SMALL = [i for i in gen.RSA_SMALL if gen.rsa_ok("PS512", gen.RSA_KEYS[i]["bits"])][:3]
JKU = ["https://attacker.example/jwks", "http://127.0.0.1/keys", "https://owner.example/jwks.json"]
X5U = ["https://attacker.example/cert.pem", "http://localhost:8080/c"]


def pair(kty, crv=None):
    """(attacker, owner): different keys of one type."""
    pool = {"RSA": [{"t": "RSA", "i": i} for i in SMALL], "oct": [{"t": "oct", "k": "%02x" % (97 + i) * 16} for i in range(3)],
            "EC": [{"t": "EC", "crv": crv, "d": d} for d in ("1", "abcdef", "17")]}[kty]
    return st.permutations(range(3)).map(lambda p: [pool[p[0]], pool[p[1]]])


refs = st.fixed_dictionaries({}, optional={
    "jwk": st.tuples(st.sampled_from(["attacker", "attacker", "owner"]), st.booleans(), st.sampled_from(["", "kid", "alg", "use"])),
    "jku": st.sampled_from(JKU), "x5u": st.sampled_from(X5U),
    "x5c": st.sampled_from(["attacker", "attacker", "owner"]), "x5t": st.sampled_from(["attacker", "owner"])})


def jwk_of(spec, private, extra, alg):
    d = ref.jwk_private(gen.rkey(spec)) if private else ref.jwk_public(gen.rkey(spec))
    if extra:
        d[extra] = {"kid": "att", "alg": alg, "use": "sig" if alg in ref.JWS_ALGS else "enc"}[extra]
    return d


def cert_of(spec, rsa):
    k = gen.rkey(spec if spec["t"] == "RSA" else {"t": "RSA", "i": rsa})
    return x509.cert(x509.PLAIN, k, None)


def members(c, att, own, alg):
    """The header members of case c."""
    r, who, out = c["refs"], {"attacker": att, "owner": own}, {}
    if "jwk" in r:
        w, private, extra = r["jwk"]
        out["jwk"] = jwk_of(who[w], private or who[w]["t"] == "oct", extra, alg)
    for m in ("jku", "x5u"):
        if m in r:
            out[m] = r[m]
    if "x5c" in r:
        out["x5c"] = [base64.b64encode(cert_of(who[r["x5c"]], SMALL[0])).decode()]
    if "x5t" in r:
        out["x5t"] = ref.b64u(hashlib.sha1(cert_of(who[r["x5t"]], SMALL[0])).digest())
    return out


def answers(att, alg):
    """What the attacker's server would deliver."""
    d = dict(ref.jwk_private(gen.rkey(att)))
    jw = json.dumps({"keys": [d, dict(d, alg=alg), dict(d, use="sig" if alg in ref.JWS_ALGS else "enc", kid="att")]}).encode()
    pem = x509.pem("CERTIFICATE", cert_of(att, SMALL[0])).encode()
    return lambda url: (200, pem, "text/plain") if url in X5U else (200, jw, "application/json")


def supplied(c, att, own, alg):
    """The caller's keys: list, or a falsy value."""
    k = c["keys"]
    other = {"RSA": {"t": "oct", "k": "7a" * 16}, "oct": {"t": "RSA", "i": SMALL[2]}, "EC": {"t": "RSA", "i": SMALL[2]}}[own["t"]]
    r = {"own": [own], "own+other": [other, own], "wrong-type": [other], "other-alg": [own], "other-kid": [own], "none": [], "None": [],
         "KEYS": []}[k]
    priv = alg not in ref.JWS_ALGS
    kw = {"alg": "XX"} if k == "other-alg" else {"kid": "nope"} if k == "other-kid" else {}
    objs = [gen.lkey(s, priv, **kw) for s in r]
    if k == "None":
        return None
    if k == "KEYS":
        return KEYS()
    return objs


def usable(c):
    return c["keys"] in ("own", "own+other") or (c["keys"] == "other-kid" and not c.get("tokkid"))


KEYCHOICE = ["own", "own", "own+other", "wrong-type", "other-alg", "other-kid", "none", "None", "KEYS"]
s_jws = st.sampled_from(ref.JWS_ALGS).flatmap(lambda a: st.fixed_dictionaries({
    "alg": st.just(a), "pair": pair(ref.alg_kty(a), ref.ES[a][0] if a in ref.ES else None), "refs": refs,
    "by": st.sampled_from(["attacker", "attacker", "owner"]), "keys": st.sampled_from(KEYCHOICE), "tokkid": st.sampled_from(["", "", "att"]),
    "form": st.sampled_from(["compact", "compact", "verbose", "factory", "flat", "general", "unprotected", "mixed"]),
    "sigalg": st.booleans(), "bytes": st.booleans()}))


def p_jws(c):
    alg, (att, own) = c["alg"], c["pair"]
    json_ = c["form"] in ("flat", "general", "unprotected", "mixed")
    mem = members(c, att, own, alg)
    signer = att if c["by"] == "attacker" else own
    rnd = bytes(range(3, 73))
    hdr = {"alg": alg}
    if c["tokkid"] and c["by"] == "attacker":
        hdr["kid"] = c["tokkid"]
    full = dict(hdr, **mem) if c["form"] != "unprotected" else hdr
    tok = ref.jws_sign(json.dumps(full), b"claims", gen.rkey(signer), alg, rnd)
    good = c["by"] == "owner" and usable(dict(c, tokkid=""))
    if json_:
        if c["keys"] in ("none", "None", "KEYS"):
            # without keys the JSON form uses the embedded key by design
            c = dict(c, keys="wrong-type")
            good = False
        h, p, s = tok.split(".")
        e = {"protected": h, "signature": s}
        if c["form"] == "unprotected":
            e["header"] = mem
        if c["form"] == "flat":
            tok = json.dumps(dict(e, payload=p))
        elif c["form"] == "mixed":
            # a good signature of the owner comes first
            t2 = ref.jws_sign(json.dumps({"alg": alg}), b"claims", gen.rkey(own), alg, rnd).split(".")
            tok = json.dumps({"payload": p, "signatures": [{"protected": t2[0], "signature": t2[2]}, e]})
        else:
            tok = json.dumps({"payload": p, "signatures": [e]})
    keys = supplied(c, att, own, alg)
    kw = {"sigalg": alg} if c["sigalg"] else {}
    with net.fake(answers(att, alg)) as log:
        if json_:
            ok, got = attempt(JWS().verify_json, tok, keys, **kw)
        else:
            arg = tok.encode() if c["bytes"] else tok
            o = lib(jws.factory, arg) if c["form"] == "factory" else JWS()
            if c["form"] == "verbose":
                ok, got = attempt(o.verify_compact_verbose, arg, keys, **kw)
                got = got["msg"] if ok else got
            else:
                ok, got = attempt(o.verify_compact, arg, keys, **kw)
    check(not log, "network access while verifying: %s", list(log))
    if good:
        check(ok, "signed by the supplied key, but: %s (header %s)", got, full)
        check(gen.same(got, "claims"), "payload %s", got)
    else:
        check(not ok, "accepted %s with keys %s: signed by %s, header members %s", got, c["keys"], c["by"], sorted(mem))
    return [c["form"], "good" if good else "forged", "keys" if c["keys"] not in ("none", "None", "KEYS") else "nokeys"]


s_jwe = jweg.alg_enc.map(lambda t: (t[0], "A128CBC-HS256")).flatmap(lambda t: st.fixed_dictionaries({
    "alg": st.just(t[0]), "enc": st.just(t[1]), "pair": pair(jweg.km_kty(t[0]), "P-256"), "refs": refs,
    "by": st.sampled_from(["attacker", "attacker", "owner"]), "keys": st.sampled_from(KEYCHOICE), "tokkid": st.sampled_from(["", "", "att"]),
    "form": st.sampled_from(["plain", "factory", "pin"]), "bytes": st.booleans()}))


def p_jwe(c):
    alg, (att, own) = c["alg"], c["pair"]
    mem = members(c, att, own, alg)
    m = {"alg": alg, "enc": c["enc"], "key": att if c["by"] == "attacker" else own, "cek": "07" * ref.ENC_KEYLEN[c["enc"]],
         "iv": "05" * ref.ivlen(c["enc"]), "seed": "0102030405060708", "eph": "1234567" if alg.startswith("ECDH") else "",
         "pt": {"t": "claims"}, "zip": False}
    extra = dict(mem)
    if c["tokkid"] and c["by"] == "attacker":
        extra["kid"] = c["tokkid"]
    tok = jweg.make(m, jweg.header(m, **extra))
    keys = supplied(c, att, own, alg)
    good = c["by"] == "owner" and usable(dict(c, tokkid=""))
    arg = tok.encode() if c["bytes"] else tok
    with net.fake(answers(att, alg)) as log:
        if c["form"] == "factory":
            f = lib(jwe.factory, arg)
            ok, got = attempt(f.decrypt, keys=keys)
        elif c["form"] == "pin":
            ok, got = attempt(JWE().decrypt, arg, keys, alg=alg)
        else:
            ok, got = attempt(JWE().decrypt, arg, keys)
    check(not log, "network access while decrypting: %s", list(log))
    if good:
        check(ok, "encrypted for the supplied key, but: %s (header members %s)", got, sorted(mem))
        check(got == b"claims", "plaintext %s", got)
    else:
        check(not ok, "decrypted %s with keys %s: encrypted for %s, header members %s", got, c["keys"], c["by"], sorted(mem))
    return [c["form"], "good" if good else "forged", "keys" if c["keys"] not in ("none", "None", "KEYS") else "nokeys"]


# ------------------------------------------------------------- malformed references
s_odd = st.tuples(st.sampled_from(["HS256", "RS256", "ES256"]), st.sampled_from(["A128KW", "RSA-OAEP", "ECDH-ES"])).flatmap(
    lambda t: st.fixed_dictionaries({"alg": st.sampled_from(t), "odd": st.dictionaries(
        st.sampled_from(["jwk", "jku", "x5u", "x5c", "x5t", "x5t#S256"]), st.one_of(gen.json_value, st.sampled_from(
            [{"kty": "RSA"}, {"kty": "oct", "k": ""}, {}, [], {"keys": []}, [{"kty": "EC", "crv": "P-256"}], "https://attacker.example/"])),
        min_size=1, max_size=3), "keys": st.booleans()}))


def p_odd(c):
    """Members of any shape: ignored when keys are supplied (compact form),
    and never a key."""
    alg = c["alg"]
    sig = alg in ref.JWS_ALGS
    spec = {"HS256": {"t": "oct", "k": "61" * 16}, "A128KW": {"t": "oct", "k": "61" * 16}, "RS256": {"t": "RSA", "i": SMALL[0]},
            "RSA-OAEP": {"t": "RSA", "i": SMALL[0]}}.get(alg, {"t": "EC", "crv": "P-256", "d": "abcdef"})
    if sig:
        tok = ref.jws_sign(json.dumps(dict({"alg": alg}, **c["odd"])), b"claims", gen.rkey(spec), alg, bytes(range(3, 73)))
    else:
        m = {"alg": alg, "enc": "A128CBC-HS256", "key": spec, "cek": "07" * 32, "iv": "05" * 16, "seed": "0102030405060708",
             "eph": "1234567" if alg.startswith("ECDH") else "", "pt": {"t": "claims"}, "zip": False}
        tok = jweg.make(m, jweg.header(m, **c["odd"]))
    with net.fake(lambda url: None) as log:
        keys = [gen.lkey(spec)] if c["keys"] else []
        ok, got = attempt(JWS().verify_compact if sig else JWE().decrypt, tok, keys)
    check(not log, "network access: %s", list(log))
    check(ok == c["keys"], "keys %s, members %s: %s", c["keys"], c["odd"], got)
    return ["sig" if sig else "enc", "keys" if c["keys"] else "nokeys"]


# ------------------------------------------------------------- crit
critv = st.one_of(
    st.lists(st.one_of(st.sampled_from(["exp", "b64", "http://example.invalid/UNDEFINED", "alg", "kid", "crit", "jwk", "x5c", "zip", "cty", "", "enc"]),
                       gen.small_text), min_size=1, max_size=3))
s_crit = st.fixed_dictionaries({
    "alg": st.sampled_from(["HS256", "RS256", "PS256", "ES256", "none", "A128KW", "RSA-OAEP", "RSA1_5", "ECDH-ES", "ECDH-ES+A128KW"]), "crit": critv,
    "vals": st.booleans(), "form": st.sampled_from(["compact", "factory", "flat", "general", "unprotected", "second"]), "first": st.booleans()})


def p_crit(c):
    alg = c["alg"]
    spec = {"HS256": {"t": "oct", "k": "61" * 16}, "A128KW": {"t": "oct", "k": "61" * 16}, "ES256": {"t": "EC", "crv": "P-256", "d": "abcdef"},
            "ECDH-ES": {"t": "EC", "crv": "P-256", "d": "abcdef"}, "ECDH-ES+A128KW": {"t": "EC", "crv": "P-384", "d": "abcdef"}}.get(
        alg, {"t": "RSA", "i": SMALL[0]})
    keys = [gen.lkey(spec)]
    h = {"alg": alg}
    if c["vals"]:
        h.update({k: 1 for k in c["crit"] if k not in gen.RESERVED | {"crit"}})
    crit = {"crit": c["crit"]}
    hc = dict(crit, **h) if c["first"] else dict(h, **crit)
    rnd = bytes(range(3, 73))
    if alg == "none":
        tok = ref.b64u(json.dumps(hc).encode()) + "." + ref.b64u(b"claims") + "."
        ok, got = attempt(JWS().verify_compact, tok, keys, allow_none=True)
    elif alg in ref.JWS_ALGS:
        f = c["form"]
        mk = lambda hd: ref.jws_sign(json.dumps(hd), b"claims", gen.rkey(spec), alg, rnd)
        if f in ("compact", "factory"):
            tok = mk(hc)
            o = lib(jws.factory, tok) if f == "factory" else JWS()
            ok, got = attempt(o.verify_compact, tok, keys)
        else:
            hh, p, s = mk(h if f == "unprotected" else hc).split(".")
            e = {"protected": hh, "signature": s}
            if f == "unprotected":
                e["header"] = crit
            es = [e]
            if f == "second":
                g = mk({"alg": alg}).split(".")
                es = [{"protected": g[0], "signature": g[2]}, e]
            tok = json.dumps(dict(e, payload=p) if f == "flat" else {"payload": p, "signatures": es})
            ok, got = attempt(JWS().verify_json, tok, keys)
    else:
        m = {"alg": alg, "enc": "A128CBC-HS256", "key": spec, "cek": "07" * 32, "iv": "05" * 16, "seed": "0102030405060708",
             "eph": "1234567" if alg.startswith("ECDH") else "", "pt": {"t": "claims"}, "zip": False}
        tok = jweg.make(m, dict(jweg.header(m), **dict(h, **crit)))
        ok, got = attempt(lib(jwe.factory, tok).decrypt, keys=keys) if c["form"] == "factory" else attempt(JWE().decrypt, tok, keys)
        if not ok and alg != "ECDH-ES":
            # nor when the caller has the content key
            ok, got = attempt(JWE().decrypt, tok, keys if alg.startswith("ECDH") or c["vals"] else [], cek=gen.B(m["cek"]))
    check(not ok, "critical extensions %s ignored: %s (%s)", c["crit"], got, c["form"])
    return [alg]


SUBTESTS = [
    Search("signed", s_jws, p_jws, 2200, 40000),
    Search("encrypted", s_jwe, p_jwe, 700, 15000),
    Search("malformed-references", s_odd, p_odd, 900, 20000),
    Search("critical", s_crit, p_crit, 900, 20000),
]
