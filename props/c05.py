"""C05: key selection."""
import json

from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail, without_asserts

ID = "C05"
RULE = ("Case: an operation (sign, sign JSON, verify, verify JSON, encrypt, decrypt), algorithm, requested id, and 0-6 keys of any type and "
        "curve, each with any id, use and algorithm (the right material also under wrong metadata), as list or key set. Oracle: own "
        "selection model; the key really used is found by the reference; repeated with the keys that do not fit removed, permuted "
        "and added. Trivial: no keys.")

from jwkest import jwe, jws  # noqa: E402
from jwkest.jwe import JWE  # noqa: E402
from jwkest.jwk import KEYS, Key  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

KIDS = ["", "", "a", "b", "ab", "1", "\u00e5"]
USES = ["", "", "sig", "enc", "sig", "enc", "", "", "s", "signature", "SIG", "encrypt", "en", "sig enc"]


def kty_of(spec):
    return spec["t"]


def fits(d, alg, kid, use):
    """Does the key described by d fit?"""
    s = d["s"]
    if s["t"] == "other":
        return False
    if alg in ref.JWS_ALGS:
        if s["t"] != ref.alg_kty(alg):
            return False
        if alg in ref.ES and s["crv"] != ref.ES[alg][0]:
            return False
    elif s["t"] != jweg.km_kty(alg):
        return False
    if kid and d["kid"] != kid:
        return False
    if d["alg"] and d["alg"] != alg:
        return False
    return not (use and d["use"] and d["use"] != use)


SMALL = [i for i in gen.RSA_SMALL if gen.rsa_ok("PS512", gen.RSA_KEYS[i]["bits"])][:3]
EC2 = ["1", "2", "abcdef"]
octs = st.sampled_from(["61", "62" * 16, "63" * 64, "00" * 5, "00" * 6 + "01"]).map(lambda k: {"t": "oct", "k": k})
pool = st.one_of(st.sampled_from(SMALL).map(lambda i: {"t": "RSA", "i": i}), octs,
                 st.tuples(st.sampled_from(gen.CURVES), st.sampled_from(EC2)).map(lambda t: {"t": "EC", "crv": t[0], "d": t[1]}),
                 st.sampled_from(["OKP", "unknown", "rsax", ""]).map(lambda k: {"t": "other", "kty": k}))


def for_alg(alg):
    if alg in ref.ES:
        return st.sampled_from(EC2).map(lambda d: {"t": "EC", "crv": ref.ES[alg][0], "d": d})
    kty = ref.alg_kty(alg) if alg in ref.JWS_ALGS else jweg.km_kty(alg)
    return pool.filter(lambda s: s["t"] == kty)


def related(alg):
    """Algorithms a key may declare."""
    fam = [a for a in ref.JWS_ALGS + ref.KM_ALGS if a[:2] == alg[:2] or a[:1] == alg[:1]]
    return st.sampled_from(["", "", alg, alg] + fam + ["none", "HS256", "RS256", "dir"])


def desc(alg):
    return st.fixed_dictionaries({"s": st.one_of(for_alg(alg), for_alg(alg), pool), "kid": st.sampled_from(KIDS), "use": st.sampled_from(USES),
                                  "alg": related(alg)})


def good(alg, use):
    """Keys likely to fit."""
    return st.fixed_dictionaries({"s": for_alg(alg), "kid": st.sampled_from(KIDS), "use": st.sampled_from(["", use]), "alg": st.sampled_from(["", alg])})


def keys_for(alg, use):
    return st.lists(st.one_of(desc(alg), desc(alg), good(alg, use)), max_size=6)


def build(d, private):
    if d["s"]["t"] == "other":
        return Key(kty=d["s"]["kty"], kid=d["kid"], use=d["use"], alg=d["alg"])
    return gen.lkey(d["s"], private, kid=d["kid"], use=d["use"], alg=d["alg"])


def container(objs, form):
    if form == "list":
        return list(objs)
    k = KEYS()
    for o in objs:
        k.append(o)
    return k


def variants(c, fit):
    """The key lists that have to give the same outcome: as is; only the
    fitting keys; the others reversed, after, before the fitting ones."""
    ds = list(enumerate(c["keys"]))
    f = [x for x in ds if x[0] in fit]
    o = [x for x in ds if x[0] not in fit]
    r = {"as is": ds, "others removed": f, "others last": f + o, "others first": o[::-1] + f}
    return [("as is", ds)] + [(k, r[k]) for k in c["vary"] if k != "as is" and r[k] != ds]


vary = st.lists(st.sampled_from(["others removed", "others last", "others first"]), min_size=1, max_size=2, unique=True)
common = {"form": st.sampled_from(["list", "KEYS"]), "vary": vary}


# ------------------------------------------------------------- signing
s_sign = st.sampled_from(ref.JWS_ALGS).flatmap(lambda a: st.fixed_dictionaries(dict(
    common, alg=st.just(a), kid=st.sampled_from(KIDS + [""]), keys=keys_for(a, "sig"), op=st.sampled_from(["compact", "compact", "json"]))))


def p_sign(c):
    alg, kid = c["alg"], c["kid"]
    fit = [i for i, d in enumerate(c["keys"]) if fits(d, alg, kid, "sig")]
    chosen = None
    for what, ds in variants(c, fit):
        objs = container([build(d, True) for _, d in ds], c["form"])
        hdr = {"alg": alg, "kid": kid} if kid else {"alg": alg}
        if c["op"] == "compact":
            ok, tok = attempt(lib(JWS, "text", **hdr).sign_compact, objs)
        else:
            ok, tok = attempt(lib(JWS, "text", alg=alg).sign_json, objs, headers=[(hdr, None)], flatten=True)
            if ok:
                j = json.loads(tok)
                tok = ".".join([j["protected"], j["payload"], j["signature"]])
        if not fit:
            check(not ok, "%s: no key fits %s (id %s), but a token was made: %s", what, alg, kid, tok)
            continue
        check(ok, "%s: keys %s fit %s (id %s): %s", what, fit, alg, kid, tok)
        h = json.loads(ref.unb64u(tok.split(".")[0]))
        used = []
        for i in fit:
            try:
                ref.jws_open(tok, [gen.rkey(c["keys"][i]["s"])])
            except ref.RefError:
                continue
            if h.get("kid", "") == c["keys"][i]["kid"]:
                used.append(i)
        check(used, "%s: signed with a key that does not fit, or other id: header %s, keys %s", what, h, c["keys"])
        check(h["alg"] == alg, "%s: algorithm %s instead of %s", what, h["alg"], alg)
        if chosen is None:
            chosen = used
        check(chosen == used, "%s: key %s used instead of %s", what, used, chosen)
    return [c["op"], "fit%d" % min(len(fit), 3)] if c["keys"] else ["trivial"]


# ------------------------------------------------------------- verifying
s_verify = st.sampled_from(ref.JWS_ALGS).flatmap(lambda a: st.fixed_dictionaries(dict(
    common, alg=st.just(a), kid=st.sampled_from(KIDS + ["a", 1, None, ["a"], True]), want=st.sampled_from(["", "", "", "a", "b"]),
    keys=keys_for(a, "sig"), op=st.sampled_from(["compact", "compact", "verbose", "json", "factory"]), right=for_alg(a), at=st.integers(0, 6),
    ins=st.one_of(st.none(), good(a, "sig")), pub=st.booleans())))


def p_verify(c):
    alg = c["alg"]
    hdr = {"alg": alg}
    if c["kid"] != "":
        hdr["kid"] = c["kid"]
    want = c["want"] if c["op"] in ("compact", "verbose") else ""
    if c["ins"]:
        c = dict(c, keys=list(c["keys"]))
        c["keys"].insert(c["at"], dict(c["ins"], s=c["right"]))
    tok = ref.jws_sign(json.dumps(hdr), b"text", gen.rkey(c["right"]), alg, bytes(range(7, 77)))
    kid = want or c["kid"]
    fit = [i for i, d in enumerate(c["keys"]) if fits(d, alg, kid, "")]
    ok_keys = [i for i in fit if gen.same_key(c["keys"][i]["s"], c["right"])]
    h, p, s = tok.split(".")
    js = json.dumps({"payload": p, "signatures": [{"protected": h, "signature": s}]})
    for what, ds in variants(c, fit):
        kobjs = [build(d, not c["pub"]) for _, d in ds]
        objs = container(kobjs, c["form"])
        o = lib(JWS, alg=alg, kid=want) if want else JWS()
        res = None
        if c["op"] == "compact":
            ok, msg = attempt(o.verify_compact, tok, objs)
        elif c["op"] == "json":
            ok, msg = attempt(o.verify_json, js, objs)
        elif c["op"] == "factory":
            ok, msg = attempt(lib(jws.factory, tok).verify_compact, tok, objs)
        else:
            ok, res = attempt(o.verify_compact_verbose, tok, objs)
            msg = res["msg"] if ok else res
        if not ok_keys:
            check(not ok, "%s: accepted although no fitting key (%s) signed it", what, fit)
            continue
        check(ok, "%s: fitting key %s signed the token, but: %s", what, ok_keys, msg)
        check(gen.same(msg, "text"), "%s: payload %s", what, msg)
        if res:
            at = [i for (i, _), k in zip(ds, kobjs) if k is res["key"]]
            check(at and at[0] in ok_keys, "%s: key %s reported, expected one of %s", what, at, ok_keys)
    return [c["op"], "fit%d" % min(len(fit), 3), "accepted" if ok_keys else "rejected"] if c["keys"] else ["trivial"]


# ------------------------------------------------------------- encrypting
def alg_enc():
    return st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(["A128CBC-HS256"] * 7 + ["A128GCM"]))


s_encrypt = alg_enc().flatmap(lambda t: st.fixed_dictionaries(dict(
    common, alg=st.just(t[0]), enc=st.just(t[1]), kid=st.sampled_from(KIDS + [""]), keys=keys_for(t[0], "enc"))))


def p_encrypt(c):
    alg, kid = c["alg"], c["kid"]
    fit = [i for i, d in enumerate(c["keys"]) if fits(d, alg, kid, "enc")]
    chosen = None
    for what, ds in variants(c, fit):
        objs = container([build(d, False) for _, d in ds], c["form"])
        kw = {"kid": kid} if kid else {}
        ok, tok = attempt(lib(JWE, "text", alg=alg, enc=c["enc"], **kw).encrypt, objs)
        if not fit:
            check(not ok, "%s: no key fits %s (id %s), but a token was made: %s", what, alg, kid, tok)
            continue
        check(ok, "%s: keys %s fit %s (id %s): %s", what, fit, alg, kid, tok)
        h = json.loads(ref.unb64u(tok.split(".")[0]))
        used = []
        for i in fit:
            try:
                pt = ref.jwe_open(tok, gen.rkey(c["keys"][i]["s"]))[1]
            except ref.RefError:
                continue
            if h.get("kid", "") == c["keys"][i]["kid"] and pt == b"text":
                used.append(i)
        check(used, "%s: encrypted for a key that does not fit, or other id: header %s, keys %s", what, h, c["keys"])
        check(h["alg"] == alg, "%s: algorithm %s instead of %s", what, h["alg"], alg)
        if chosen is None:
            chosen = used
        check(chosen == used, "%s: key %s used instead of %s", what, used, chosen)
    return [alg, "fit%d" % min(len(fit), 3)] if c["keys"] else ["trivial"]


# ------------------------------------------------------------- decrypting
s_decrypt = alg_enc().flatmap(lambda t: st.fixed_dictionaries(dict(
    common, alg=st.just(t[0]), enc=st.just(t[1]), want=st.sampled_from(["", "", "", "a", "b"]), keys=keys_for(t[0], "enc"),
    right=for_alg(t[0]), at=st.integers(0, 6), ins=st.one_of(st.none(), good(t[0], "enc")), op=st.sampled_from(["plain", "pin", "factory"]),
    kid=st.booleans())))


def p_decrypt(c):
    alg = c["alg"]
    if c["ins"]:
        c = dict(c, keys=list(c["keys"]))
        c["keys"].insert(c["at"], dict(c["ins"], s=c["right"]))
    kids = {d["kid"] for d in c["keys"] if gen.same_opener(d["s"], c["right"])}
    m = {"alg": alg, "enc": c["enc"], "key": c["right"], "cek": "07" * ref.ENC_KEYLEN[c["enc"]], "iv": "05" * ref.ivlen(c["enc"]),
         "seed": "0102030405060708", "eph": "1234567" if alg.startswith("ECDH") else "", "pt": {"t": "text"}, "zip": False}
    hdr = jweg.header(m)
    want = c["want"] if c["op"] == "plain" else ""
    if c["kid"] and len(kids) == 1 and "" not in kids:
        hdr["kid"] = next(iter(kids))
    tok = jweg.make(m, hdr)
    fit = [i for i, d in enumerate(c["keys"]) if fits(d, alg, want, "enc")]
    ok_keys = [i for i in fit if gen.same_opener(c["keys"][i]["s"], c["right"])]
    for what, ds in variants(c, fit):
        objs = container([build(d, True) for _, d in ds], c["form"])
        o = lib(JWE, alg=alg, enc=c["enc"], kid=want) if want else JWE()
        if c["op"] == "factory":
            ok, msg = attempt(lib(jwe.factory, tok).decrypt, keys=objs)
        elif c["op"] == "pin":
            ok, msg = attempt(o.decrypt, tok, objs, alg=alg)
        else:
            ok, msg = attempt(o.decrypt, tok, objs)
        if not ok_keys:
            check(not ok, "%s: decrypted although no fitting key (%s) is the right one: %s", what, fit, msg)
            continue
        check(ok, "%s: fitting key %s is right, but: %s", what, ok_keys, msg)
        check(msg == b"text", "%s: plaintext %s", what, msg)
    return [c["op"], "fit%d" % min(len(fit), 3), "accepted" if ok_keys else "rejected"] if c["keys"] else ["trivial"]


# ------------------------------------------------------------- every single difference
def grid(tier):
    """One key that fits or differs from a fitting one in one respect."""
    for alg in ref.JWS_ALGS + ref.KM_ALGS:
        sig = alg in ref.JWS_ALGS
        kty = ref.alg_kty(alg) if sig else jweg.km_kty(alg)
        base = {"RSA": {"t": "RSA", "i": SMALL[0]}, "oct": {"t": "oct", "k": "61" * 16}, "EC": {"t": "EC", "crv": "P-256", "d": "abcdef"}}[kty]
        if alg in ref.ES:
            base = dict(base, crv=ref.ES[alg][0])
        mk = lambda **kw: dict({"s": base, "kid": "", "use": "", "alg": ""}, **kw)
        for kid in ("", "a"):
            for d in [mk(kid=k, use=u, alg=a) for k in ("", "a", "A", "aa") for u in ("", "sig", "enc", "other") for a in ("", alg, "XX")]:
                yield {"alg": alg, "kid": kid, "keys": [d], "right": base}
            # near names
            for u in ("s", "e", "si", "en", "SIG", "ENC", "Sig", "sign", "enc ", "signature", "encryption", "sigenc", "verify"):
                yield {"alg": alg, "kid": kid, "keys": [mk(kid=kid, use=u)], "right": base}
            for a in (alg[:-1], alg + "x", alg.lower() if alg != alg.lower() else alg.upper(), alg[:2], alg[1:], " " + alg, alg.split("+")[0] + "+"):
                yield {"alg": alg, "kid": kid, "keys": [mk(kid=kid, alg=a)], "right": base}
            for k in (kid + kid, kid + "b", "b" + kid, kid.upper() + " ", "0"):
                yield {"alg": alg, "kid": kid, "keys": [mk(kid=k)], "right": base}
            for s in ({"t": "RSA", "i": SMALL[1]}, {"t": "oct", "k": "62"}, {"t": "EC", "crv": "P-256", "d": "2"},
                      {"t": "EC", "crv": "P-384", "d": "2"}, {"t": "EC", "crv": "P-521", "d": "2"}, {"t": "other", "kty": "OKP"}):
                yield {"alg": alg, "kid": kid, "keys": [mk(s=s, kid=kid)], "right": base}
                yield {"alg": alg, "kid": kid, "keys": [mk(s=s, kid=kid), mk(kid=kid)], "right": base}


def p_grid(c):
    base = {"form": "list", "vary": ["others last"]}
    if c["alg"] in ref.JWS_ALGS:
        p_sign(dict(base, alg=c["alg"], kid=c["kid"], keys=c["keys"], op="compact"))
        p_verify(dict(base, alg=c["alg"], kid=c["kid"], want="", keys=c["keys"], op="verbose", right=c["right"], ins=None, pub=True))
    else:
        p_encrypt(dict(base, alg=c["alg"], enc="A128CBC-HS256", kid=c["kid"], keys=c["keys"]))
        p_decrypt(dict(base, alg=c["alg"], enc="A128CBC-HS256", want=c["kid"], keys=c["keys"], op="plain", right=c["right"], ins=None,
                       kid=False))
    return [c["alg"]]


s_unknown = st.fixed_dictionaries({
    "alg": st.one_of(st.sampled_from(["HS", "HS255", "RS1", "RS", "ES256K", "PS1", "XX", "EdDSA", "A128KW", "RSA-OAEP", "dir", "hs256", "NONE2"]),
                     st.text(min_size=1, max_size=8)).filter(lambda a: a.lower() != "none" and a not in ref.JWS_ALGS),
    "keys": st.lists(good("HS256", "sig"), max_size=3).flatmap(lambda a: st.lists(good("RS256", "sig"), max_size=2).map(lambda b: a + b))})


def p_unknown(c):
    objs = [build(dict(d, alg=""), True) for d in c["keys"]]
    must_fail("signed with unknown algorithm", lambda: JWS("text", alg=c["alg"]).sign_compact(objs))
    if c["alg"] not in ref.KM_ALGS:
        must_fail("encrypted with unknown algorithm", lambda: JWE("text", alg=c["alg"], enc="A128CBC-HS256").encrypt(objs))
    return ["unknown"]


# ------------------------------------------------------------- long lists
def positions(tier):
    """The right key at every position among many fitting ones."""
    for alg, n in (("HS256", 40), ("HS512", 300), ("RS256", 10), ("PS256", 10), ("ES256", 10), ("ES384", 6)):
        for at in list(range(n + 1)) if n < 50 else [0, 1, 63, 64, 127, 128, 254, 255, 256, 257, n]:
            for form in ("list", "KEYS"):
                yield {"alg": alg, "n": n, "at": at, "form": form}


def p_positions(c):
    alg = c["alg"]
    t = ref.alg_kty(alg)

    def spec(i):
        return {"RSA": {"t": "RSA", "i": SMALL[1 + i % 2]}, "oct": {"t": "oct", "k": "%08x" % i},
                "EC": {"t": "EC", "crv": ref.ES.get(alg, [""])[0], "d": "%x" % (99 + i)}}[t]
    right = {"RSA": {"t": "RSA", "i": SMALL[0]}, "oct": {"t": "oct", "k": "6b6579"}, "EC": {"t": "EC", "crv": ref.ES.get(alg, [""])[0], "d": "777"}}[t]
    tok = ref.jws_sign(json.dumps({"alg": alg}), b"text", gen.rkey(right), alg, bytes(range(7, 77)))
    keys = [gen.lkey(spec(i), False) for i in range(c["n"])]
    must_fail("no right key among %s" % c["n"], JWS().verify_compact, tok, container(keys, c["form"]))
    k = gen.lkey(right, False)
    keys.insert(c["at"], k)
    r = lib(JWS().verify_compact_verbose, tok, container(keys, c["form"]))
    check(r["msg"] == "text" and r["key"] is k, "right key at position %s of %s: %s", c["at"], c["n"], r)
    # the same by id
    for i, x in enumerate(keys):
        x.kid = "id%d" % i
    tok = ref.jws_sign(json.dumps({"alg": alg, "kid": "id%d" % c["at"]}), b"text", gen.rkey(right), alg, bytes(range(7, 77)))
    r = lib(JWS().verify_compact_verbose, tok, container(keys, c["form"]))
    check(r["msg"] == "text" and r["key"] is k, "right key at position %s of %s by id: %s", c["at"], c["n"], r)
    if t == "oct":
        t2 = lib(JWS("text", alg=alg, kid="id%d" % c["at"]).sign_compact, container(keys, c["form"]))
        ref.jws_open(t2, [gen.rkey(right)])
    return [alg]


def named(tier):
    """No algorithm is given: the only key's declared one counts, and the key has to fit it."""
    for s in [{"t": "RSA", "i": SMALL[0]}, {"t": "oct", "k": "61" * 16}] + [{"t": "EC", "crv": c, "d": "abcdef"} for c in ("P-256", "P-384", "P-521")]:
        for alg in ref.JWS_ALGS + ["XX256", "HS", "A128KW", "RSA-OAEP", "ECDH-ES", "hs256"]:
            for use in ("", "sig", "enc", "SIG", "other"):
                for form in ("list", "KEYS", "tuple"):
                    yield {"s": s, "alg": alg, "use": use, "kid": "k" if use else "", "form": form}


def p_named(c):
    k = build(c, True)
    t = {"RSA": "RSA", "oct": "oct", "EC": "EC"}[c["s"]["t"]]
    fit = c["alg"] in ref.JWS_ALGS and ref.alg_kty(c["alg"]) == t and ref.ES.get(c["alg"], [c["s"].get("crv")])[0] == c["s"].get("crv") and c["use"] in ("", "sig")
    objs = tuple([k]) if c["form"] == "tuple" else container([k], c["form"])
    if not fit:
        must_fail("a signed token with a key that does not fit its own declaration", JWS("text").sign_compact, objs)
    else:
        tok = lib(JWS("text").sign_compact, objs)
        h = ref.jws_open(tok, [gen.rkey(c["s"])])[0]
        check(h["alg"] == c["alg"] and h.get("kid", "") == c["kid"], "header %s, the key declares %s", h, c["alg"])
    return [c["alg"], str(fit)]


SUBTESTS = [
    Enum("positions", positions, p_positions, exhaustive=True),
    Enum("single-differences", grid, p_grid, exhaustive=True),
    Enum("declared-by-key", named, p_named, exhaustive=True),
    Search("sign", s_sign, p_sign, 1200),
    Search("verify", s_verify, p_verify, 1500),
    Search("encrypt", s_encrypt, p_encrypt, 500, 12000),
    Search("decrypt", s_decrypt, p_decrypt, 700, 15000),
    Search("unknown-algorithms", s_unknown, p_unknown, 400),
    without_asserts(ID, 'single-differences', 160),
]
