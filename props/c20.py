"""C20: decryption finds the right key and honours the pin."""
import json

from hypothesis import strategies as st

from lib import gen, jweg, oneobj, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C20"
RULE = ("Case: genuine token, list of keys (right one at any position or absent; wrong ones of the same type - also of other "
        "sizes and curves, public-only - and of other types, with declared use and algorithm), pin. Oracle: success iff a "
        "fitting key is the right one and the pin agrees. Trivial: no other key and no pin.")

from jwkest.jwe import DecryptionFailed, JWE, JWEException, factory  # noqa: E402


def s_keys():
    def one(ae):
        alg, enc = ae
        wrong = st.fixed_dictionaries({
            "key": st.one_of(jweg.km_key(alg, enc), jweg.km_key(alg, enc), gen.any_key), "use": st.sampled_from(["", "", "enc", "sig", "sig", "enc2", "e", "ENC", "encrypt"]),
            "alg": st.sampled_from(["", "", "", alg, "RSA-OAEP", "A128KW", "ECDH-ES"]), "pub": st.sampled_from([False, False, True])})
        return st.fixed_dictionaries({
            "m": jweg.made(alg, enc), "wrong": st.lists(wrong, max_size=4), "at": st.integers(0, 4),
            "right": st.sampled_from([True, True, True, False]), "use": st.sampled_from(["", "", "enc", "enc", "enc", "sig", "enc2", "en", "Enc"]),
            "alg": st.sampled_from(["", "", alg, alg, "RSA1_5", "A256KW"]),
            "pin": st.sampled_from([None, None, alg, alg, "RSA1_5", "RSA-OAEP", "A128KW", "ECDH-ES", "ECDH-ES+A128KW"]),
            "form": st.sampled_from(["list", "list", "tuple", "keys"]), "bytes": st.booleans()})
    # GCM costs 0.1 s for every key tried
    return st.one_of(*[st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC + jweg.CBC + jweg.GCM))]).flatmap(one)


def differs(m, s):
    """Would a key of spec s open the token of m?  (No, if True.)"""
    k = m["key"]
    if s["t"] != k["t"]:
        return True
    if s["t"] == "oct":
        b = ref.kw_bits(m["alg"])
        return ref.oidc_kek(gen.B(s["k"]), b) != ref.oidc_kek(gen.B(k["k"]), b)
    if s["t"] == "EC":
        # opposite scalars give the same shared secret
        n = ref.CURVES[k["crv"]].n
        return s["crv"] != k["crv"] or int(s["d"], 16) not in (int(k["d"], 16), n - int(k["d"], 16))
    return s != k


def fits(m, k):
    return k["use"] in ("", "enc") and k["alg"] in ("", m["alg"])


def p_keys(c):
    m = c["m"]
    tok = jweg.make(m)
    ks = [k for k in c["wrong"] if differs(m, k["key"])]
    if c["right"]:
        ks.insert(min(c["at"], len(ks)), {"key": m["key"], "use": c["use"], "alg": c["alg"], "pub": False})
    keys = [gen.lkey(k["key"], private=not k["pub"], use=k["use"], alg=k["alg"]) for k in ks]
    fitting = [k for k in ks if fits(m, k) and k["key"]["t"] == m["key"]["t"]]
    want = c["right"] and c["use"] in ("", "enc") and c["alg"] in ("", m["alg"]) and c["pin"] in (None, m["alg"])
    if c["form"] == "keys":
        from jwkest.jwk import KEYS
        kk = KEYS()
        for k in keys:
            kk.append(k)
    else:
        kk = tuple(keys) if c["form"] == "tuple" else keys
    t = tok.encode() if c["bytes"] else tok
    ok, r = attempt(JWE().decrypt, t, kk, alg=c["pin"])
    if want:
        check(ok, "does not decrypt with the right key at %s of %s keys: %s: %s", c["at"], len(ks), type(r).__name__, r)
        check(r == jweg.pt_octets(m["pt"]), "decrypted to %s", r)
    else:
        check(not ok, "decrypted although no fitting key is right or the pin differs: %s", r)
        check(isinstance(r, JWEException), "error is %s: %s, not one of the library's", type(r).__name__, r)
        if fitting and c["pin"] in (None, m["alg"]):
            check(isinstance(r, DecryptionFailed), "error is %s: %s, not the decryption error", type(r).__name__, r)
    f = lib(factory, t)
    if f is not None and m["enc"] in jweg.CBC:
        okf, rf = attempt(f.decrypt, keys=kk, alg=c["pin"])
        check(okf == ok and (not ok or rf == r), "object from the factory: %s %s", okf, rf)
    tags = [m["alg"], "opens" if want else "rejects"]
    if len(ks) < 2 and c["pin"] is None:
        tags.append("trivial")
    if want and c["at"] > 0 and len(fitting) > 1:
        tags.append("not-first")
    return tags


MISSING = {"missing": True}
ODD = ["", "none", "dir", "A128GCMKW", "A192GCMKW", "PBES2-HS256+A128KW", "RSA-OAEP-384", "RSA", "RSA1_5 ", "rsa1_5", "A128", "AKW", "A1KW",
       "A128kw", "ECDH-SS", "ECDH-ES+A128GCMKW", "ECDH-ES+", "ECDH-ES+A128", "ECDH", "A512KW", "A128GCM", "HS256", "RS256", "ES256", "foo",
       None, 5, 1.5, True, [], ["RSA1_5"], {}, {"RSA1_5": 1}, MISSING]
ODDENC = ["", "none", "A128CBC", "A128CBC+HS256", "A128CBC-HS512", "a128gcm", "A512GCM", "GCM", "A128KW", "HS256", None, 7, [], {}, MISSING]


def odd(tier):
    big = [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] >= 1048][0]
    for alg in ["RSA1_5", "RSA-OAEP", "A128KW", "A256KW", "ECDH-ES", "ECDH-ES+A256KW"]:
        key = {"RSA": {"t": "RSA", "i": big}, "oct": {"t": "oct", "k": "6b6579"},
               "EC": {"t": "EC", "crv": "P-256", "d": "1234567"}}[jweg.km_kty(alg)]
        for member, vals in (("alg", ODD), ("enc", ODDENC)):
            for v in vals:
                for pin in (None, alg):
                    for cek in (False, True):
                        yield {"alg": alg, "key": key, "member": member, "val": v, "pin": pin, "cek": cek}


def p_odd(c):
    """Everything is computed over the header naming the odd algorithm."""
    alg, enc = c["alg"], "A128CBC-HS256"
    m = {"alg": alg, "enc": enc, "key": c["key"], "cek": "ab" * 32, "iv": "cd" * 16, "seed": "00" * 8,
         "eph": "987654321" if c["key"]["t"] == "EC" else "", "pt": {"t": "attack at dawn"}, "zip": False, "apu": None, "apv": None}

    def text(h):
        h = dict(h)
        if c["val"] == MISSING:
            h.pop(c["member"])
        else:
            h[c["member"]] = c["val"]
        return json.dumps(h)
    tok = jweg.make(m, None, text)
    keys = [gen.lkey(c["key"])] + [gen.lkey(s) for s in ({"t": "RSA", "i": 0}, {"t": "oct", "k": "00"}, {"t": "EC", "crv": "P-521", "d": "5"})]
    kw = {"cek": gen.B(m["cek"])} if c["cek"] and alg != "ECDH-ES" and c["member"] == "alg" else {}
    r = must_fail("token naming %r as %s" % (c["val"], c["member"]), JWE().decrypt, tok, keys, alg=c["pin"], **kw)
    check(not isinstance(r, (UnboundLocalError,)), "unrelated error %s", r)
    f = lib(factory, tok)
    if f is not None:
        must_fail("token naming %r as %s" % (c["val"], c["member"]), f.decrypt, keys=keys, alg=c["pin"], **kw)
    return [c["member"]]


def pins(tier):
    big = [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] >= 1048][0]
    for alg in ref.KM_ALGS:
        key = {"RSA": {"t": "RSA", "i": big}, "oct": {"t": "oct", "k": "6b6579"},
               "EC": {"t": "EC", "crv": "P-256", "d": "1234567"}}[jweg.km_kty(alg)]
        for pin in ref.KM_ALGS + ["foo", alg.lower(), alg[:-1], alg + " ", [alg], "dir"]:
            yield {"m": {"alg": alg, "enc": "A128CBC-HS256", "key": key, "cek": "ab" * 32, "iv": "cd" * 16, "seed": "00" * 8,
                         "eph": "987654321" if key["t"] == "EC" else "", "pt": {"t": "x"}, "zip": False, "apu": None, "apv": None},
                   "wrong": [], "at": 0, "right": True, "use": "", "alg": "", "pin": pin, "form": "list", "bytes": False}


def pins_cek(tier):
    """Pins hold, too, when the caller has the content key."""
    for c in pins(tier):
        if c["m"]["alg"] != "ECDH-ES":
            for keys in (True, False):
                for enc in ("A128CBC-HS256", "A256GCM"):
                    yield {"m": dict(c["m"], enc=enc, cek="ab" * 32, iv="cd" * ref.ivlen(enc)), "pin": c["pin"], "keys": keys}


def p_pins_cek(c):
    m = c["m"]
    ec = m["alg"].startswith("ECDH")
    tok = jweg.make(m)
    keys = [gen.lkey(m["key"])] if c["keys"] or ec else []
    for fac in (False, True):
        o = lib(factory, tok) if fac else JWE()
        ok, r = attempt(o.decrypt, None if fac else tok, keys, alg=c["pin"], cek=gen.B(m["cek"]))
        check(ok == (c["pin"] == m["alg"]), "pinned %s, token naming %s, content key given: %s", c["pin"], m["alg"], r)
        check(not ok or r == b"x", "decrypted to %s", r)
    return ["pinned right" if ok else "pinned wrong"]


def positions(tier):
    """The right key at every position among many wrong ones."""
    for alg, n in (("A128KW", 40), ("A256KW", 300), ("ECDH-ES", 12), ("ECDH-ES+A192KW", 12), ("RSA-OAEP", 10), ("RSA1_5", 10)):
        for at in list(range(n + 1)) if n < 50 else [0, 1, 63, 64, 127, 128, 254, 255, 256, 257, n]:
            for right in (True, False) if at == n else (True,):
                yield {"alg": alg, "n": n, "at": at, "right": right}


def p_positions(c):
    t = jweg.km_kty(c["alg"])
    big = [i for i, k in enumerate(gen.RSA_KEYS) if 1048 <= k["bits"] <= 1280]

    def spec(i):
        return {"RSA": {"t": "RSA", "i": big[1 + i % (len(big) - 1)]}, "oct": {"t": "oct", "k": "%08x" % i},
                "EC": {"t": "EC", "crv": gen.CURVES[i % 3], "d": "%x" % (99 + i)}}[t]
    key = {"RSA": {"t": "RSA", "i": big[0]}, "oct": {"t": "oct", "k": "6b6579"}, "EC": {"t": "EC", "crv": "P-256", "d": "1234567"}}[t]
    m = {"alg": c["alg"], "enc": "A128CBC-HS256", "key": key, "cek": "ab" * 32, "iv": "cd" * 16, "seed": "00" * 8,
         "eph": "987654321" if t == "EC" else "", "pt": {"t": "x"}, "zip": False, "apu": None, "apv": None}
    wrong = [{"key": spec(i), "use": "", "alg": "", "pub": False} for i in range(c["n"])]
    keys = [gen.lkey(k["key"]) for k in wrong]
    if c["right"]:
        keys.insert(c["at"], gen.lkey(key))
    ok, r = attempt(JWE().decrypt, jweg.make(m), keys)
    if not c["right"]:
        check(not ok and isinstance(r, DecryptionFailed), "no right key among %s: %s", c["n"], r)
        return ["rejects"]
    check(ok and r == b"x", "right key at position %s of %s: %s", c["at"], c["n"], r)
    return ["opens"]


SUBTESTS = [
    Enum("positions", positions, p_positions, exhaustive=True),
    Enum("pins", pins, p_keys, exhaustive=True),
    Enum("pins-content-key", pins_cek, p_pins_cek, exhaustive=True),
    Enum("odd-names", odd, p_odd, exhaustive=True),
    Search("one-object", oneobj.jwe_strategy(), oneobj.jwe_run, quick=400, thorough=20000),
    Search("many-keys", s_keys(), p_keys, quick=1200, thorough=40000),
]
