"""C09: token recognition."""
import json

from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, attempt, check, lib, without_asserts
from props.c04 import spell
from props.c10 import dec, enc

ID = "C09"
RULE = ("Case: a text (any Unicode, JSON documents of every shape, near-tokens) or a token made from a header with any alg/enc/typ "
        "values of any JSON type, any number of parts, as text or octets; or a token produced by the library. Oracle: own model of "
        "what is a JWS / JWE; own tokens are their own kind and are processed by the object handed back. Trivial: no dot and no JSON.")

from jwkest import jwe, jws  # noqa: E402
from jwkest.jwe import JWE, JWEnc  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

JWS_KNOWN = set(ref.JWS_ALGS) | {"none"}
DONT = None


def loads(t):
    try:
        return True, json.loads(t)
    except (ValueError, RecursionError):
        return False, None


def parts_of(text):
    """(header, number of parts, padded) of a compact token or None."""
    ps = text.split(".")
    if len(ps) < 2:
        return None
    octs = [dec(p.rstrip("=")) for p in ps]
    if None in octs:
        return None
    try:
        h = octs[0].decode("utf-8")
    except UnicodeDecodeError:
        return None
    ok, h = loads(h)
    if not ok:
        return None
    return h, len(ps), any(p.endswith("=") for p in ps)


def in_(v, coll):
    return isinstance(v, str) and v in coll


def want_jws(text):
    ok, doc = loads(text)
    if ok:
        return isinstance(doc, dict) and "payload" in doc and ("signatures" in doc or "signature" in doc)
    p = parts_of(text)
    if p is None or not isinstance(p[0], dict):
        return False
    h, n, padded = p
    if "alg" not in h or not (h["alg"] is None or in_(h["alg"], JWS_KNOWN)):
        return DONT if in_(h.get("alg", 0), {"None", "NONE"}) else False
    return DONT if n != 3 or padded else True


def want_jwe(text):
    p = parts_of(text)
    if p is None or not isinstance(p[0], dict):
        return False
    h, n, padded = p
    typ = h.get("typ")
    if not (isinstance(typ, str) and typ.lower() == "jwe") and not (in_(h.get("alg"), ref.KM_ALGS) and in_(h.get("enc"), ref.ENCS)):
        return False
    return DONT if n != 5 or padded else True


def ask(arg, text):
    """Ask every recogniser about arg, whose text is `text` (None: not UTF-8)."""
    wj = want_jws(text) if text is not None else DONT
    we = want_jwe(text) if text is not None else DONT
    o = JWS()
    a = lib(o.is_jws, arg)
    check(wj is DONT or bool(a) == wj, "is_jws(%s) = %s, expected %s", arg, a, wj)
    f = lib(jws.factory, arg)
    check(f is None or isinstance(f, JWS), "jws.factory(%s) = %s", arg, f)
    check((f is not None) == bool(a), "is_jws and jws.factory disagree on %s", arg)
    e = lib(jwe.factory, arg)
    check(e is None or isinstance(e, JWE), "jwe.factory(%s) = %s", arg, e)
    check(we is DONT or (e is not None) == we, "jwe.factory(%s) = %s, expected %s", arg, e, we)
    ok, u = attempt(JWEnc().unpack, arg)
    if ok:
        r = lib(u.is_jwe)
        check(bool(r) == (e is not None), "is_jwe = %s and jwe.factory = %s on %s", r, e, arg)
    # asking does not change the answer
    check(bool(lib(o.is_jws, arg)) == bool(a), "second answer of is_jws(%s) differs", arg)
    return wj, we


# ------------------------------------------------------------- headers
algv = st.one_of(
    st.sampled_from(ref.JWS_ALGS + ["none"]), st.sampled_from(ref.KM_ALGS), st.sampled_from(
        ["None", "HS255", "hs256", "RS256 ", "", "dir", "A128GCMKW", "PBES2-HS256+A128KW", "ECDH-ES+A128GCMKW", "RSA", "HS", "\u00e5",
         "A128GCM", "ES256K", "HS256\u0000", "RSA-OAEP-512", "RSA-OAEP-384", "Ed25519", "EdDSA"]),
    gen.json_value, st.sampled_from(ref.JWS_ALGS).map(lambda a: [a]), st.sampled_from(ref.JWS_ALGS).map(lambda a: {a: a}))
encv = st.one_of(st.sampled_from(ref.ENCS), st.sampled_from(ref.ENCS), st.sampled_from(["A128CBC", "A512GCM", "", "HS256", "a128gcm", "A128CBC+HS256"]),
                 gen.json_value)
typv = st.one_of(st.sampled_from(["JWE", "jwe", "JwE", "JWT", "JWS", "JOSE", "jwe ", "application/jwe", "JWE+JSON", ""]), gen.json_value)
hdr = st.tuples(gen.header_params, st.fixed_dictionaries({}, optional={"alg": algv, "enc": encv, "typ": typv, "kid": gen.json_value,
                                                                      "cty": gen.json_value, "zip": gen.json_value})).map(
    lambda t: dict(t[0], **t[1]))
s_head = st.fixed_dictionaries({
    "h": st.one_of(hdr, hdr, hdr, gen.json_value), "n": st.sampled_from([3, 3, 3, 5, 5, 5, 2, 4, 6, 1]), "p": gen.hexbytes(0, 20),
    "how": st.sampled_from(["", "esc", "raw"]), "bytes": st.booleans(), "ws": st.sampled_from(["", " ", "\n\t"])})


def p_head(c):
    h = c["h"]
    text = spell(list(h.items()), c["how"], c["ws"]) if isinstance(h, dict) else json.dumps(h)
    tok = ".".join([enc(text.encode("utf-8"))] + [enc(gen.B(c["p"])[i:]) for i in range(c["n"] - 1)])
    wj, we = ask(tok.encode() if c["bytes"] else tok, tok)
    return ["jws" if wj else "jwe" if we else "dontcare" if DONT in (wj, we) else "neither"]


def grid(tier):
    """Every alg with every enc, and typ."""
    for a in ref.JWS_ALGS + ref.KM_ALGS + ["none", "None", "dir", "X", None, 1, [], {}, True]:
        for e in ref.ENCS + ["X", None, [], 0]:
            yield {"h": {"alg": a, "enc": e}}
            yield {"h": {"enc": e, "alg": a, "typ": "JWT"}}
        yield {"h": {"alg": a}}
        for t in ("JWE", "jwe", "JWS", None, 1, [], {}):
            yield {"h": {"typ": t, "alg": a}}
    for t in ("JWE", "jwe", "JWS", None, 1, [], {}):
        yield {"h": {"typ": t}}


def p_grid(c):
    text = json.dumps(c["h"])
    for n in (3, 5):
        tok = ".".join([enc(text.encode("utf-8"))] + ["QUJD"] * (n - 1))
        ask(tok, tok)
        ask(tok.encode(), tok)
    return ["grid"]


# ------------------------------------------------------------- texts
TEXTS = ["", ".", "..", "....", "{}", "[]", "null", "1", "1.5", "1.5.2", '"a.b.c"', "e30.e30.", "e30.", ".e30", "e30..", "\x00", "\ufeff{}", "{",
         '{"payload":1,"signatures":2}', '{"payload":"","signature":""}', '{"signatures":[]}', '["payload","signatures"]', '"payload signatures"',
         '{"payload":null,"signature":null,"signatures":null}', '{"PAYLOAD":"","signatures":[]}', '[{"payload":"","signature":""}]',
         "NaN", "Infinity", "-1", "true", "bnVsbA.e30.e30", "MQ.MQ.MQ", "W10.W10.W10", "ImFsZyI.e30.", "\ud7ff.\u00e5.", "eyJhbGciOiJub25lIn0.e30.",
         "eyJhbGciOiJub25lIn0.e30", "eyJhbGciOm51bGx9.e30.", "eyJhbGciOiJub25lIn0=.e30=.", "eyJhbGciOiJub25lIn0.e30.\n", "\neyJhbGciOiJub25lIn0.e30."]
json_doc = st.one_of(
    gen.json_value,
    st.fixed_dictionaries({}, optional={"payload": gen.json_value, "signatures": gen.json_value, "signature": gen.json_value,
                                        "protected": gen.json_value, "header": gen.json_value, "Payload": gen.json_value}),
    st.sampled_from(["payload", "signatures"]).flatmap(lambda k: st.fixed_dictionaries({k: gen.json_value, "x": gen.json_value})))
s_text = st.fixed_dictionaries({"t": st.one_of(
    st.text(max_size=40), st.text(alphabet="eyJhbGciOi.0=-_ {}[]\"", max_size=30), json_doc.map(json.dumps), json_doc.map(json.dumps),
    st.sampled_from(TEXTS), st.tuples(st.sampled_from(TEXTS), st.text(max_size=3), st.sampled_from(TEXTS)).map("".join)),
    "bytes": st.booleans()})


def p_text(c):
    t = c["t"]
    try:
        b = t.encode("utf-8")
    except UnicodeEncodeError:
        b, c = None, dict(c, bytes=False)
    wj, we = ask(b if c["bytes"] else t, t)
    return ["trivial"] if "." not in t and not loads(t)[0] else ["jws" if wj else "jwe" if we else "neither"]


s_octets = st.fixed_dictionaries({"b": st.one_of(gen.hexbytes(0, 40), gen.hexbytes(0, 8).map(lambda h: b"\xff.".hex() + h),
                                                 gen.text_payload.map(lambda t: t.encode("utf-16").hex()))})


def p_octets(c):
    b = gen.B(c["b"])
    try:
        ask(b, b.decode("utf-8"))
    except UnicodeDecodeError:
        ask(b, None)
    return ["octets"]


def deep(tier):
    for n in (10, 900, 1100, 3000, 20000, 200000):
        for what in ("[", '{"a":', '[{"payload":'):
            for close in (True, False):
                for form in ("text", "header", "padded"):
                    yield {"n": n, "what": what, "close": close, "form": form}


def p_deep(c):
    """JSON nested deeper than the parser can follow."""
    t = c["what"] * c["n"]
    if c["close"]:
        t += "0" + "".join({"[": "]", "{": "}"}[x] for x in reversed(t) if x in "[{")
    arg = t if c["form"] == "text" else enc(t.encode()) + ".e30." if c["form"] == "header" else '{"payload":' + t + ',"signature":""}'
    if c["n"] < 900:
        ask(arg, arg)
    else:
        for f in (jws.factory, jwe.factory, JWS().is_jws):
            lib(f, arg)
    return ["deep"]


# ------------------------------------------------------------- own tokens
s_own = st.one_of(
    st.sampled_from(ref.JWS_ALGS + ["none"]).flatmap(lambda a: st.fixed_dictionaries({
        "kind": st.sampled_from(["compact", "compact", "json", "flat"] if a != "none" else ["compact"]), "alg": st.just(a),
        "key": gen.key_for(a) if a != "none" else st.none(), "payload": gen.text_payload, "hdr": gen.header_params,
        "typ": st.sampled_from(["", "JWT", "JOSE", "JWS"]), "kid": gen.opt_kid, "bytes": st.booleans()})),
    jweg.alg_enc.flatmap(lambda t: st.fixed_dictionaries({
        "kind": st.just("jwe"), "alg": st.just(t[0]), "enc": st.just(t[1]), "key": jweg.km_key(*t), "payload": gen.text_payload,
        "typ": st.sampled_from(["", "JWT", "JOSE", "JWE"]), "kid": gen.opt_kid, "bytes": st.booleans(), "zip": st.booleans(),
        "cty": st.sampled_from(["", "JWT"])})))


def p_own(c):
    alg, msg = c["alg"], c["payload"]
    keys = [gen.lkey(c["key"], kid=c["kid"])] if c["key"] else []
    if c["kind"] == "jwe":
        kw = {k: v for k, v in (("typ", c["typ"]), ("zip", "DEF" if c["zip"] else ""), ("cty", c["cty"])) if v}
        tok = lib(lib(JWE, msg, alg=alg, enc=c["enc"], **kw).encrypt, keys)
        arg = tok.encode() if c["bytes"] else tok
        f = lib(jwe.factory, arg)
        check(f is not None, "own JWE not recognised: %s", tok)
        check(not lib(JWS().is_jws, arg) and lib(jws.factory, arg) is None, "own JWE taken for a JWS: %s", tok)
        check(lib(f.decrypt, keys=keys) == msg.encode("utf-8"), "object of the recogniser decrypts to something else")
        check(lib(lib(jwe.factory, arg).decrypt, arg, keys) == msg.encode("utf-8"), "object of the recogniser decrypts to something else")
        return ["jwe", alg]
    kw = {"typ": c["typ"]} if c["typ"] else {}
    s = lib(JWS, msg, alg=alg, **kw)
    if c["kind"] == "compact":
        tok = lib(s.sign_compact, keys, protected=dict(c["hdr"]) or None)
    else:
        tok = lib(s.sign_json, keys, headers=[(dict(c["hdr"], alg=alg), None)], flatten=c["kind"] == "flat")
    arg = tok.encode() if c["bytes"] else tok
    f = lib(jws.factory, arg)
    check(f is not None, "own JWS not recognised: %s", tok)
    check(lib(jwe.factory, arg) is None, "own JWS taken for a JWE: %s", tok)
    if c["kind"] == "compact":
        ok, h = True, lib(f.verify_compact, arg, keys, allow_none=alg == "none")
    else:
        h = lib(f.verify_json, tok, keys)
    check(gen.same_payload({"t": msg}, h), "object of the recogniser returns %s for %s", h, msg)
    return [c["kind"], alg]


SUBTESTS = [
    Enum("grid", grid, p_grid, exhaustive=True),
    Enum("deep", deep, p_deep),
    Enum("known-texts", lambda tier: [{"t": t, "bytes": b} for t in TEXTS for b in (False, True)], p_text),
    Search("headers", s_head, p_head, 4000),
    Search("texts", s_text, p_text, 5000),
    Search("raw-octets", s_octets, p_octets, 600),
    Search("own-tokens", s_own, p_own, 700, 20000),
    without_asserts(ID, 'grid', 60),
]
