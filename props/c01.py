"""C01: sign -> verify round trip of compact JWS."""
import json

from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C01"
RULE = ("Case: (algorithm, key, key id, typ, payload, protected header, random-source mode, another key); 'several-keys': the verifying key among up to five others. "
        "Trivial: empty payload with empty header; "
        "no other key.")

from jwkest.jws import JWS  # noqa: E402


def strat(algs=ref.JWS_ALGS):
    def one(alg):
        return st.fixed_dictionaries({
            "alg": st.just(alg), "key": gen.key_for(alg), "other": gen.key_for(alg), "kid": gen.opt_kid,
            "typ": gen.opt_typ, "payload": gen.payload,
            "hdr": st.one_of(st.just({}), gen.header_params), "rng": gen.rng_spec,
            "how": st.sampled_from(["alg", "keyalg"]), "cont": st.sampled_from(["list", "KEYS"]),
            "enc": st.sampled_from(["str", "bytes"])})
    return st.sampled_from(algs).flatmap(one)


def container(keys, kind):
    from jwkest.jwk import KEYS
    if kind == "list":
        return keys
    k = KEYS()
    for x in keys:
        k.append(x)
    return k


def prop(c):
    alg, kid = c["alg"], c["kid"]
    if c["how"] == "alg":
        key = gen.lkey(c["key"], kid=kid)
        s = lib(JWS, gen.payload_value(c["payload"]), alg=alg)
    else:
        # algorithm taken from the only key
        key = gen.lkey(c["key"], kid=kid, alg=alg)
        s = lib(JWS, gen.payload_value(c["payload"]))
    if c["typ"]:
        s["typ"] = c["typ"]
    tok = lib(s.sign_compact, container([key], c["cont"]), protected=dict(c["hdr"]) if c["hdr"] else None)
    check(isinstance(tok, str) and tok.count(".") == 2, "not a three-part token: %s", tok)
    raw = [ref.unb64u(p) for p in tok.split(".")]
    hdr = json.loads(raw[0].decode("utf-8"))
    want = dict(c["hdr"], alg=alg)
    if kid:
        want["kid"] = kid
    if c["typ"]:
        want["typ"] = c["typ"]
    check(gen.same(hdr, want), "header %s, expected %s", hdr, want)
    if gen.payload_octets(c["payload"]) is not None:
        check(raw[1] == gen.payload_octets(c["payload"]), "payload octets %s", raw[1])
    pub = gen.lkey(c["key"], private=False, kid=kid)
    t = tok if c["enc"] == "str" else tok.encode()
    v = JWS()
    res = lib(v.verify_compact_verbose, t, container([pub], c["cont"]))
    check(gen.same_payload(c["payload"], res["msg"]), "returned %s for payload %s", res["msg"], c["payload"])
    check(res["key"] is pub, "reported key is not the verifying key")
    check(gen.same_payload(c["payload"], v.msg), "object holds %s", v.msg)
    res = lib(JWS().verify_compact, t, [pub])
    check(gen.same_payload(c["payload"], res), "returned %s for payload %s", res, c["payload"])
    # private key object verifies as well
    check(gen.same_payload(c["payload"], lib(JWS().verify_compact, t, [key])), "private key object: wrong payload")
    tags = [alg, c["payload"].__iter__().__next__()]
    if not gen.same_key(c["key"], c["other"]):
        o = gen.lkey(c["other"], private=False, kid=kid)
        must_fail("token verified with another key", JWS().verify_compact, t, container([o], c["cont"]))
        tags.append("other")
    if c["payload"] in ({"t": ""}, {"b": ""}, {"j": {}}, {"j": []}) and not c["hdr"]:
        tags.append("trivial")
    return tags


s_several = st.sampled_from(ref.JWS_ALGS).flatmap(lambda alg: st.fixed_dictionaries({
    "alg": st.just(alg), "key": gen.key_for(alg), "kid": gen.opt_kid, "payload": gen.payload, "rng": gen.rng_spec,
    "before": st.lists(st.tuples(st.one_of(gen.key_for(alg), gen.any_key), gen.opt_kid, st.booleans()).map(list), max_size=3),
    "after": st.lists(st.tuples(st.one_of(gen.key_for(alg), gen.any_key), gen.opt_kid, st.booleans()).map(list), max_size=2),
    "cont": st.sampled_from(["list", "KEYS"]), "priv": st.booleans()}))


def p_several(c):
    """The verifying key among others, some of them fitting and carrying
    the same key id; the reported key is the one that verified."""
    tok = lib(lib(JWS, gen.payload_value(c["payload"]), alg=c["alg"]).sign_compact, [gen.lkey(c["key"], kid=c["kid"])])
    right = gen.lkey(c["key"], private=c["priv"], kid=c["kid"])
    mk = lambda l: [gen.lkey(s, private=False, kid=c["kid"] if samekid else kid) for s, kid, samekid in l if not gen.same_key(s, c["key"])]
    before, after = mk(c["before"]), mk(c["after"])
    v = JWS()
    res = lib(v.verify_compact_verbose, tok, container(before + [right] + after, c["cont"]))
    check(gen.same_payload(c["payload"], res["msg"]), "returned %s for payload %s", res["msg"], c["payload"])
    check(res["key"] is right, "reported key is not the one whose signature verified")
    check(gen.same_payload(c["payload"], lib(JWS().verify_compact, tok, container(before + [right] + after, c["cont"]))), "wrong payload")
    if before or after:
        must_fail("token verified without its key", JWS().verify_compact_verbose, tok, container(before + after, c["cont"]))
    fit = [k for k in before if k.kty == right.kty and k.kid == right.kid]
    return [c["alg"]] + (["fitting-key-first"] if fit else []) + ([] if before or after else ["trivial"])


G256 = [ref.b64u(v.to_bytes(32, "big")) for v in ref.CURVES["P-256"].G]
REGISTERED = st.fixed_dictionaries({}, optional={
    "typ": gen.typs, "cty": st.one_of(st.sampled_from(["JWT", "jwt", "text/plain", "json", "application/json"]), gen.typs),
    "kid": gen.kids, "jku": st.sampled_from(["http://127.0.0.1:1/k", "https://keys.invalid/"]), "x5u": st.just("http://127.0.0.1:1/x"),
    "x5t": st.sampled_from(["AAAA", "q83vEjRWeJA"]), "x5t#S256": st.just("AAAA"), "x5c": st.just(["AAAA"]), "jwk": st.sampled_from([
        {"kty": "oct", "k": "YWJj"}, {"kty": "EC", "crv": "P-256", "x": G256[0], "y": G256[1], "kid": "other"}]),
    "alg": st.sampled_from(["none", "HS256", "RS256", "ES256", "XX", ""]), "enc": st.just("A128GCM"), "zip": st.just("DEF"), "epk": st.just({"kty": "EC"}),
    "apu": st.just("QQ"), "iss": st.just("me"), "nonce": gen.small_text, "url": st.just("https://example.com/x"), "b64": st.just(True)})
s_registered = st.sampled_from(ref.JWS_ALGS).flatmap(lambda alg: st.fixed_dictionaries({
    "alg": st.just(alg), "key": gen.key_for(alg), "kid": gen.opt_kid, "typ": gen.opt_typ, "payload": gen.payload, "hdr": REGISTERED,
    "obj": REGISTERED, "rng": gen.rng_spec}))


def p_registered(c):
    """Protected header parameters with registered names, and the same as arguments of the signing object."""
    alg, kid = c["alg"], c["kid"]
    key = gen.lkey(c["key"], kid=kid)
    obj = {k: v for k, v in c["obj"].items() if k not in ("alg", "kid", "typ", "jwk")}
    if c["typ"]:
        obj["typ"] = c["typ"]
    hdr = json.loads(json.dumps(c["hdr"]))
    tok = lib(lib(JWS, gen.payload_value(c["payload"]), alg=alg, **obj).sign_compact, [key], protected=hdr)
    got = json.loads(ref.unb64u(tok.split(".")[0]))
    want = dict(c["hdr"], alg=alg)
    if kid:
        want["kid"] = kid
    if c["typ"]:
        want["typ"] = c["typ"]
    check(gen.same({k: got.get(k) for k in want}, want), "header %s, expected %s", got, want)
    check(set(got) - set(want) <= set(obj), "header %s, expected %s", got, want)
    cty = got.get("cty")
    right = gen.lkey(c["key"], private=False, kid=want.get("kid", ""))
    res = lib(JWS().verify_compact_verbose, tok, [right])
    check(res["key"] is right, "another key reported")
    if cty is None or cty.lower() == "jwt":
        check(gen.same_payload(c["payload"], res["msg"]), "returned %s for payload %s", res["msg"], c["payload"])
    else:
        o = gen.payload_octets(c["payload"])
        o = ref.unb64u(tok.split(".")[1]) if o is None else o
        want = ref.payload_value(o, cty)
        check(gen.same(res["msg"], want), "returned %s for octets %s of type %s", res["msg"], o, cty)
    if got.get("kid"):
        must_fail("token verified with a key of another id", JWS().verify_compact, tok, [gen.lkey(c["key"], private=False, kid=got["kid"] + "x")])
    return [alg] + sorted(c["hdr"]) + ([] if c["hdr"] else ["trivial"])


def prop_none(c):
    tok = lib(lib(JWS, gen.payload_value(c["payload"]), alg="none").sign_compact, [], protected=dict(c["hdr"]) or None)
    check(tok.endswith(".") and tok.count(".") == 2, "unsecured token %s", tok)
    hdr = json.loads(ref.unb64u(tok.split(".")[0]))
    check(gen.same(hdr, dict(c["hdr"], alg="none")), "header %s", hdr)
    r = lib(JWS().verify_compact, tok, [], allow_none=True)
    check(gen.same_payload(c["payload"], r), "returned %s for %s", r, c["payload"])
    must_fail("unsecured token accepted", JWS().verify_compact, tok, [])
    return ["none"]


def special(tier):
    """Every algorithm with every special key and a few payloads."""
    for alg in ref.JWS_ALGS:
        if alg[:2] == "HS":
            keys = [{"t": "oct", "k": "00" * n} for n in (1, 63, 64, 65, 128, 129)] + [{"t": "oct", "k": "61" * 200}]
        elif alg[:2] == "ES":
            crv = ref.ES[alg][0]
            n = ref.CURVES[crv].n
            ds = gen.EC_SPECIAL[crv][:4] + [1, 2, n - 1]
            keys = [{"t": "EC", "crv": crv, "d": "%x" % d} for d in ds]
        else:
            keys = [{"t": "RSA", "i": i} for i, k in enumerate(gen.RSA_KEYS) if gen.rsa_ok(alg, k["bits"])]
        for i, k in enumerate(keys):
            yield {"alg": alg, "key": k, "other": keys[i - 1], "kid": ["", "k"][i % 2], "typ": "", "how": "alg",
                   "payload": [{"t": "text"}, {"j": {"a": 1.5}}, {"b": "ff00"}][i % 3], "hdr": {}, "cont": "list",
                   "enc": "str", "rng": {"s": i, "z": i % 3, "f": False}}


def sizes(tier):
    """Payloads, headers and secrets of every size class."""
    algs = ["HS256", "HS384", "HS512", "RS256", "PS256", "ES256"]
    for n in list(range(0, 140)) + [255, 256, 257, 1023, 1024, 1025, 4096, 65535, 65536, 65537] + [1 << 20, (1 << 21) + 1]:
        for i, alg in enumerate(algs):
            if alg[:2] == "HS" or n % 8 == i or n > 200:
                yield {"alg": alg, "n": n, "what": "payload", "form": ["b", "t", "j"][n % 3]}
        yield {"alg": algs[n % 3], "n": n, "what": "header", "form": "t"}
        yield {"alg": algs[n % 3], "n": n, "what": "kid", "form": "t"}
        if 0 < n < 70000:
            yield {"alg": algs[n % 3], "n": n, "what": "key", "form": "t"}
    for n in (1, 2, 50, 200, 1000, 5000):
        yield {"alg": "HS256", "n": n, "what": "members", "form": "t"}
        if n < 300:
            yield {"alg": "HS256", "n": n, "what": "depth", "form": "t"}
        for form in ("list", "dict"):
            yield {"alg": "HS256", "n": n, "what": "list", "form": form}
    for ch in gen.CHARS:
        for form in ("value", "name", "list"):
            yield {"alg": "HS256", "n": ord(ch[0]), "what": "char", "form": form, "ch": ch}


def p_size(c):
    n, what, form = c["n"], c["what"], c["form"]
    raw = bytes(i * i % 251 for i in range(1021)) * (n // 1021 + 1)
    text = "".join(chr(32 + o % 90) for o in raw[:n])
    p = {"t": "payload"}
    hdr, kid = {}, ""
    spec = {"HS": {"t": "oct", "k": "6b6579"}, "RS": {"t": "RSA", "i": 0}, "PS": {"t": "RSA", "i": 3},
            "ES": {"t": "EC", "crv": "P-256", "d": "1234567"}}[c["alg"][:2]]
    if what == "payload":
        p = {"b": raw[:n].hex()} if form == "b" else {"t": text} if form == "t" else {"j": {"text": text, "\u00e5": [n, None]}}
    elif what == "header":
        hdr = {"http://example.com/x": text, "foo": [text[:5]]}
    elif what == "kid":
        kid = text
    elif what == "key":
        spec = {"t": "oct", "k": raw[:n].hex()}
    elif what == "members":
        hdr = {"m%d" % i: i for i in range(n)}
        p = {"j": {"c%d" % i: [i] for i in range(n)}}
    elif what == "list":
        v = ([None, 0, "", True, 1.5, {"a": None}, [], -1, "x", False, {}, [None]] * (n // 12 + 1))[:n]
        hdr, p = {"list": v[:999]}, {"j": v if form == "list" else {"v": v}}
    elif what == "char":
        ch = c["ch"]
        v = {"value": {"v": ch}, "name": {ch: 1, "x" + ch: {ch: None}}, "list": {"v": ["x", ch + ch, [ch]]}}[form]
        hdr, p = dict(v), {"j": v if form != "list" else v["v"]}
    else:
        v = "x"
        for i in range(n):
            v = [v] if i % 2 else {"v": v}
        hdr, p = {"deep": v}, {"j": {"deep": v}}
    key = gen.lkey(spec, kid=kid)
    tok = lib(lib(JWS, gen.payload_value(p), alg=c["alg"]).sign_compact, [key], protected=dict(hdr) or None)
    check(tok.count(".") == 2, "not a three-part token")
    rh, ro, _ = ref.jws_open(tok, [gen.rkey(spec)])
    want = dict(hdr, alg=c["alg"], **({"kid": kid} if kid else {}))
    check(gen.same(rh, want), "header %s, expected %s", rh, want)
    o = gen.payload_octets(p)
    check(o is None or ro == o, "payload octets differ")
    pub = gen.lkey(spec, private=False, kid=kid)
    res = lib(JWS().verify_compact_verbose, tok, [pub])
    check(res["key"] is pub and gen.same_payload(p, res["msg"]), "returned %s", res)
    other = {"t": "oct", "k": "6f74686572"} if spec["t"] == "oct" else {"t": "RSA", "i": 5} if spec["t"] == "RSA" else {"t": "EC", "crv": "P-256", "d": "5"}
    must_fail("token verified with another key", JWS().verify_compact, tok, [gen.lkey(other, private=False, kid=kid)])
    return [what]


SUBTESTS = [
    Enum("sizes", sizes, p_size),
    Enum("special-keys", special, prop),
    Search("roundtrip", strat(), prop, quick=1600, thorough=60000),
    Search("several-keys", s_several, p_several, quick=900, thorough=40000),
    Search("registered", s_registered, p_registered, quick=800, thorough=40000),
    Search("none", st.fixed_dictionaries({"payload": gen.payload, "hdr": gen.header_params}), prop_none, quick=300),
]
