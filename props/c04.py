"""C04: JWS interoperability with RFC 7515/7518."""
import json

from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, check, lib

ID = "C04"
RULE = ("Cases: library-made tokens opened by the reference verifier, and reference-made tokens (any header spelling, nonce, "
        "salt) opened by the library. Trivial: none - every case has a signature of a real key; distinct cases are counted.")

from jwkest.jws import JWS, SIGNER_ALGS, factory  # noqa: E402

SIGLEN = {"HS256": 32, "HS384": 48, "HS512": 64, "ES256": 64, "ES384": 96, "ES512": 132}


def siglen(alg, k):
    return SIGLEN.get(alg) or (k.n.bit_length() + 7) // 8


def s_out():
    return st.sampled_from(ref.JWS_ALGS).flatmap(lambda a: st.fixed_dictionaries({
        "alg": st.just(a), "key": gen.key_for(a), "payload": gen.payload, "hdr": st.one_of(st.just({}), gen.header_params),
        "kid": gen.opt_kid, "rng": gen.rng_spec, "json": st.booleans()}))


def p_out(c):
    alg = c["alg"]
    key = gen.lkey(c["key"], kid=c["kid"])
    r = gen.rkey(c["key"])
    tok = lib(lib(JWS, gen.payload_value(c["payload"]), alg=alg).sign_compact, [key], protected=dict(c["hdr"]) or None)
    try:
        hdr, payload, _ = ref.jws_open(tok, [r])
    except ref.RefError as e:
        check(False, "reference rejects the library's token (%s): %s", e, tok)
    check(len(ref.unb64u(tok.split(".")[2])) == siglen(alg, r), "signature length %s", len(ref.unb64u(tok.split(".")[2])))
    want = dict(c["hdr"], alg=alg)
    if c["kid"]:
        want["kid"] = c["kid"]
    check(gen.same(hdr, want), "header %s, expected %s", hdr, want)
    o = gen.payload_octets(c["payload"])
    if o is None:
        check(gen.same(json.loads(payload.decode("utf-8")), gen.json_of(c["payload"])), "payload %s", payload)
    else:
        check(payload == o, "payload %s", payload)
    # the signer objects behind it
    si = tok.rsplit(".", 1)[0].encode()
    sig = lib(SIGNER_ALGS[alg].sign, si, lib(key.get_key, alg=alg, private=True))
    check(len(sig) == siglen(alg, r) and ref.jws_sig_ok(alg, r, si, sig), "signer object: bad signature %s", sig)
    return [alg]


# ---------------------------------------------------------------- header spellings
def spell(members, how, ws):
    """JSON text of an ordered list of members in an unusual but legal spelling."""
    w = (lambda i: ws[i % len(ws)]) if ws else (lambda i: "")

    def s(x):
        t = json.dumps(x, ensure_ascii=how != "raw" or any("\ud800" <= ch < "\ue000" for ch in json.dumps(x, ensure_ascii=False)))
        if how == "esc" and isinstance(x, str):
            t = '"' + "".join("\\u%04x" % ord(ch) if ord(ch) < 0x10000 else json.dumps(ch)[1:-1] for ch in x) + '"'
        if how == "slash" and isinstance(x, str):
            t = t.replace("/", "\\/")
        return t
    return w(0) + "{" + w(1) + (w(2) + "," + w(3)).join(s(k) + w(4) + ":" + w(5) + s(v) for k, v in members) + w(6) + "}" + w(7)


EXTRA = st.lists(st.one_of(
    st.sampled_from([("typ", "JWT"), ("typ", "JOSE"), ("typ", "application/jose+json"), ("cty", "JWT"), ("cty", "jwt"),
                     ("cty", "text/plain"), ("cty", "json"), ("x5t", "AAAA"), ("x5t#S256", "AAAA"), ("foo", None), ("iat", 1.25),
                     ("exp", 10**30), ("http://example.com/is/a", {"deep": [1, {"x": None}]}), ("enc", "A128GCM"),
                     ("zip", "DEF"), ("b65", True), ("Alg", "none"), ("ALG", "HS256"), ("kid2", "z"), ("self", 1), ("msg", "x"), ("with_digest", True), ("args", [])]),
    st.tuples(st.sampled_from(["typ", "cty"]), gen.typs),
    st.tuples(st.sampled_from(gen.CHARS), st.sampled_from(gen.CHARS)),
    st.tuples(gen.small_text, gen.json_value).filter(lambda t: t[0] not in gen.RESERVED)), max_size=4)


def s_in():
    return st.sampled_from(ref.JWS_ALGS).flatmap(lambda a: st.fixed_dictionaries({
        "alg": st.just(a), "key": gen.key_for(a), "payload": st.one_of(gen.hexbytes(0, 60), gen.text_payload.map(
            lambda t: t.encode("utf-8").hex())), "rnd": st.one_of(gen.hexbytes(70, 70), st.sampled_from([
                "00" * 70, "ff" * 70, "00" * 69 + "01"])),
        "extra": EXTRA, "at": st.integers(0, 5), "kid": gen.opt_kid, "how": st.sampled_from(["", "esc", "raw", "slash"]),
        "ws": st.one_of(st.just(""), st.text(alphabet=" \t\r\n", max_size=5)), "bytes": st.booleans(),
        "others": st.lists(gen.any_key, max_size=2)}))


def p_in(c):
    alg = c["alg"]
    members = []
    for k, v in c["extra"]:
        if k not in [m[0] for m in members]:
            members.append((k, v))
    members.insert(min(c["at"], len(members)), ("alg", alg))
    if c["kid"]:
        members.insert(c["at"] // 2, ("kid", c["kid"]))
    txt = spell(members, c["how"], [x for x in c["ws"]])
    r = gen.rkey(c["key"])
    octets = gen.B(c["payload"])
    tok = ref.jws_sign(txt, octets, r, alg, gen.B(c["rnd"]))
    keys = [gen.lkey(s, private=False, kid=c["kid"]) for s in c["others"] if not gen.same_key(s, c["key"])]
    mine = gen.lkey(c["key"], private=False, kid=c["kid"])
    keys.append(mine)
    cty = dict(members).get("cty")
    want = ref.payload_value(octets, cty)
    for v in (JWS(), lib(factory, tok)):
        check(v is not None, "factory does not recognise %s", tok)
        res = lib(v.verify_compact_verbose, tok.encode() if c["bytes"] else tok, keys)
        check(res["key"] is mine, "other key reported")
        if not gen.same(res["msg"], want):
            check(isinstance(want, bytes) and gen.same_payload({"b": octets.hex()}, res["msg"]),
                  "payload %s for octets %s", res["msg"], octets)
    return [alg, c["how"] or "plain"]


def sizes(tier):
    """Reference-made tokens with payloads of every size class."""
    keys = {"HS": {"t": "oct", "k": "6b6579"}, "RS": {"t": "RSA", "i": 0}, "PS": {"t": "RSA", "i": 3}}
    for n in list(range(0, 140)) + [255, 256, 257, 1024, 4096, 65535, 65536, 65537, 1 << 20, (1 << 21) + 1]:
        for i, alg in enumerate(ref.JWS_ALGS):
            if alg[:2] != "HS" and (n % 12 != i and n < 200 or n > 1 << 20):
                continue
            key = keys.get(alg[:2]) or {"t": "EC", "crv": ref.ES[alg][0], "d": "1234567"}
            if key["t"] == "RSA":
                key = {"t": "RSA", "i": [j for j, k in enumerate(gen.RSA_KEYS) if gen.rsa_ok(alg, k["bits"])][0]}
            yield {"alg": alg, "n": n, "key": key, "hdr": False}
            if alg == "HS256":
                yield {"alg": alg, "n": n, "key": key, "hdr": True}
                yield {"alg": alg, "n": 3, "key": {"t": "oct", "k": "5a" * (n or 1)}, "hdr": False}


def p_size(c):
    n, alg, r = c["n"], c["alg"], gen.rkey(c["key"])
    raw = (bytes(i * i % 251 for i in range(1021)) * (n // 1021 + 1))[:n]
    hdr = '{"alg":"%s"}' % alg
    if c["hdr"]:
        hdr, raw = '{"fill":"%s","alg":"%s"}' % ("x" * n, alg), b"payload"
    tok = ref.jws_sign(hdr, raw, r, alg, b"\x5a" * 70)
    want = ref.payload_value(raw)
    got = lib(JWS().verify_compact, tok, [gen.lkey(c["key"], private=False)])
    check(gen.same(got, want) or gen.same_payload({"b": raw.hex()}, got), "payload of %s octets: %s", n, got)
    t2 = lib(lib(JWS, raw, alg=alg).sign_compact, [gen.lkey(c["key"])], **({"protected": {"fill": "x" * n}} if c["hdr"] else {}))
    check(ref.jws_open(t2, [r])[1] == raw, "payload of %s octets: other octets signed", n)
    check(len(ref.unb64u(t2.split(".")[2])) == siglen(alg, r), "signature length")
    return [alg]


def chars(tier):
    """Headers and payloads with every kind of character."""
    for ch in gen.CHARS:
        for i, v in enumerate([{"v": ch}, {"x" + ch: [ch + ch], ch: {ch: None}}]):
            for alg, key in (("HS256", {"t": "oct", "k": "6b6579"}), ("ES256", {"t": "EC", "crv": "P-256", "d": "abc"})):
                yield {"alg": alg, "key": key, "payload": {"j": v}, "hdr": v, "kid": "", "json": False}


SUBTESTS = [
    Enum("characters", chars, p_out),
    Enum("sizes", sizes, p_size),
    Search("library-made", s_out(), p_out, quick=1600, thorough=60000),
    Search("reference-made", s_in(), p_in, quick=1600, thorough=60000),
]
