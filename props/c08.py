"""C08: the JWT container."""
import json

from hypothesis import strategies as st

from lib import gen, mutate, ref
from lib.core import Enum, Search, attempt, check, lib
from props.c04 import EXTRA, spell
from props.c10 import ALPHA, dec, enc

ID = "C08"
RULE = ("Case: header (any JSON members) and up to five parts of octets, text or JSON, packed by the library; or a token text made by "
        "the reference with an unusually spelled header, non-canonical trailing bits, given as text or octets; or a broken token text "
        "(characters removed, inserted, replaced, parts without base64url, header that is no JSON). Oracle: own decoder, json module. "
        "Trivial: no parts.")

from jwkest.jwe import JWEnc  # noqa: E402
from jwkest.jws import JWSig  # noqa: E402
from jwkest.jwt import JWT  # noqa: E402

part = st.one_of(
    gen.hexbytes(0, 60).map(lambda h: {"b": h}), gen.text_payload.map(lambda t: {"t": t}),
    gen.claims.map(lambda j: {"j": j}), gen.claims.map(lambda j: {"jb": j}), st.lists(gen.json_value, max_size=4).map(lambda j: {"j": j}))
header = st.tuples(gen.header_params, st.fixed_dictionaries({}, optional={
    "alg": st.sampled_from(["none", "HS256", "ES512", "RSA-OAEP", "xyz", "\u00e5"]), "kid": gen.kids, "typ": st.sampled_from(["JWT", "JOSE"]),
    "cty": st.sampled_from(["JWT", "jwt", "JwT", "text/plain", "json", ""]), "enc": st.just("A128GCM")})).map(lambda t: dict(t[0], **t[1]))

s_pack = st.fixed_dictionaries({"h": header, "parts": st.lists(part, max_size=5), "how": st.sampled_from(["init", "arg", "both", "over"]),
                                "bytes": st.booleans(), "old": header, "used": st.booleans()})


def want_payload(headers, octets, got, what):
    cty = headers.get("cty")
    if isinstance(cty, str) and cty.lower() != "jwt":
        try:
            w = octets.decode("utf-8")
        except UnicodeDecodeError:
            w = octets
        check(gen.same(got, w), "%s: payload %s with content type %s is %s", what, octets, cty, got)
    else:
        check(gen.same_payload({"b": octets.hex()}, got), "%s: payload %s is %s", what, octets, got)


def unpacked(token, headers, octets, as_bytes, used, what):
    j = JWT()
    if used:
        lib(j.unpack, "eyJhbGciOiJub25lIn0.e30.QQ")
    r = lib(j.unpack, token.encode("utf-8") if as_bytes else token)
    check(gen.same(j.headers, headers), "%s: headers %s, expected %s", what, j.headers, headers)
    check(list(j.part[1:]) == octets, "%s: parts %s, expected %s", what, j.part, octets)
    check([bytes(p) for p in j.b64part] == [p.encode() for p in token.split(".")], "%s: encoded parts %s", what, j.b64part)
    check(lib(j.pack) == token, "%s: packed again as %s, received %s", what, lib(j.pack), token)
    if octets:
        want_payload(headers, octets[0], lib(j.payload), what)
    check(lib(j.pack) == token, "%s: packed again as %s, received %s", what, lib(j.pack), token)
    named_parts(token, octets, what)
    return r


def named_parts(token, octets, what):
    """The readers of a JWS and of a JWE by their names."""
    texts = [p.encode() for p in token.split(".")]
    if len(texts) == 3:
        j = lib(JWSig().unpack, token)
        check(bytes(lib(j.sign_input)) == texts[0] + b"." + texts[1], "%s: signed octets %s", what, lib(j.sign_input))
        check(lib(j.signature) == octets[1], "%s: signature %s", what, lib(j.signature))
    if len(texts) == 5:
        j = lib(JWEnc().unpack, token)
        names = ("protected_header", "encrypted_key", "initialization_vector", "ciphertext", "authentication_tag")
        for i, n in enumerate(names):
            if i:
                check(lib(getattr(j, n)) == octets[i - 1], "%s: %s is %s", what, n, lib(getattr(j, n)))
            check(bytes(lib(getattr(j, "b64_" + n))) == texts[i], "%s: b64_%s is %s", what, n, lib(getattr(j, "b64_" + n)))


def p_pack(c):
    vals = [gen.payload_value(p) for p in c["parts"]]
    h = c["h"]
    want = dict(h)
    if c["how"] == "init":
        j = lib(JWT, **h)
        if "alg" not in h:
            want["alg"] = None
        tok = lib(j.pack, vals) if vals else None
    else:
        j = JWT() if c["how"] == "arg" else lib(JWT, **(h if c["how"] == "both" else c["old"]))
        if not h:
            want = None         # no headers given: what the object has
        tok = lib(j.pack, vals, h) if vals else None
    if not vals:
        return ["trivial"]
    check(isinstance(tok, str), "token %s", tok)
    ps = tok.split(".")
    check(len(ps) == len(vals) + 1 and all(dec(p) is not None for p in ps), "token %s", tok)
    octs = [dec(p) for p in ps]
    check(all(enc(o) == p for o, p in zip(octs, ps)), "token %s not canonical", tok)
    hd = json.loads(octs[0].decode("utf-8"))
    if want is not None:
        check(gen.same(hd, want), "header packed as %s, expected %s", hd, want)
    for p, v, o in zip(c["parts"], vals, octs[1:]):
        w = gen.payload_octets(p)
        if w is None:
            check(gen.same(json.loads(o.decode("utf-8")), gen.json_of(p)), "part %s packed as %s", v, o)
        else:
            check(o == w, "part %s packed as %s", v, o)
    check(lib(j.pack) == tok, "packed again as %s, was %s", lib(j.pack), tok)
    unpacked(tok, hd, octs[1:], c["bytes"], c["used"], "own token")
    # the object that packed shows the same payload
    check(len(j.part) == len(octs), "parts %s", j.part)
    return [c["how"], "%dparts" % len(vals)]


s_foreign = st.fixed_dictionaries({
    "extra": EXTRA, "how": st.sampled_from(["", "esc", "raw", "slash"]), "ws": st.one_of(st.just(""), st.text(alphabet=" \t\r\n", max_size=6)),
    "parts": st.lists(st.one_of(gen.hexbytes(0, 40), gen.text_payload.map(lambda t: t.encode("utf-8").hex())), min_size=1, max_size=5),
    "slack": st.lists(st.integers(0, 15), min_size=6, max_size=6), "bytes": st.booleans(), "used": st.booleans(),
    "twice": st.booleans()})


def p_foreign(c):
    members = list(c["extra"]) if c["twice"] else list(dict((k, (k, v)) for k, v in c["extra"]).values())
    text = spell(members, c["how"], c["ws"])
    headers = json.loads(text)
    octs = [gen.B(p) for p in c["parts"]]
    ps = []
    for o, s in zip([text.encode("utf-8")] + octs, c["slack"]):
        e = enc(o)
        if len(e) % 4 == 2:
            e = e[:-1] + ALPHA[ALPHA.index(e[-1]) | s]
        elif len(e) % 4 == 3:
            e = e[:-1] + ALPHA[ALPHA.index(e[-1]) | s & 3]
        ps.append(e)
    tok = ".".join(ps)
    unpacked(tok, headers, octs, c["bytes"], c["used"], "token with header %s" % text)
    return ["noncanonical" if [enc(dec(p)) for p in ps] != ps else "canonical", "%dparts" % len(octs)]


# ------------------------------------------------------------- rejection
OCTET_HEADS = [b'{"alg":"none\xff"}', b'\xff{"alg":"none"}', b'{"alg":"none"}\xff', b'{"alg":"none","k\xc3":1}', b'{"alg":"\xc0\xae"}',
               b'{"alg":"\xed\xa0\x80"}', b'{"alg":"\xf4\x90\x80\x80"}', b'{"alg":"\xe2\x82"}', '{"alg":"\u20ac"}'.encode(),
               '{"alg":"none"}'.encode("utf-16"), '{"alg":"none"}'.encode("utf-16-le"), '{"alg":"none"}'.encode("utf-32"), b'{"a":"\x80"}',
               '{"a":"\u00e9"}'.encode("latin-1"), b'{"alg":"none\x00"}', b'{"alg":"none"}\x00', b'{\xa0"alg":"none"}', b'{"a":1\xa0}',
               b'\xef\xbb\xbf{"alg":"none"}', '{\u00a0"alg":"none"}'.encode(), '{"a":1}\u2028'.encode(), b'{"a":1}\x0b', b'{"a":1}\x0c',
               b'{"a":NaN}x', b'{"a":"\xf0\x9f\x94\x91"}', b'{"\xf0\x9f\x94":1}']
HEADS = ['{"alg":"none"}', '{"alg":"HS256","typ":"JWT"}', "{}", '{"a":1', "", "x", "\xff", "[", '{"a":1}}', "{'alg':'none'}", "\ufeff{}",
         '{"alg":"none"}x', "nul", '{"a" 1}', '{"a":01}', '{"a":"\n"}', '"', "{alg:1}", '{"alg":"none",}', "// {}", '{"a":tru}']
s_text = st.one_of(
    st.tuples(st.sampled_from(HEADS), st.lists(gen.hexbytes(0, 8), max_size=4),
              st.lists(st.tuples(st.sampled_from(["ins", "del", "rep"]), st.integers(0, 60), st.one_of(
                  st.sampled_from(list(".=+/ \n\r\t\x00A_-*") + ["\u00e5", "\u212a", "..", "\r\n"]), st.characters(codec="utf-8"))), max_size=3)).map(
        lambda t: {"head": t[0], "parts": t[1], "ops": t[2], "bytes": False}),
    st.tuples(st.sampled_from(HEADS), st.lists(gen.hexbytes(0, 8), max_size=4), st.integers(0, 8)).map(
        lambda t: {"head": t[0], "parts": t[1], "ops": [], "bytes": bool(t[2] & 1)}),
    st.tuples(st.one_of(st.sampled_from(OCTET_HEADS), st.tuples(st.sampled_from(OCTET_HEADS + [x.encode() for x in HEADS[:2]]), st.integers(0, 40),
                                                               st.integers(0, 255)).map(
        lambda t: t[0][:t[1]] + bytes([t[2]]) + t[0][t[1]:])), st.lists(gen.hexbytes(0, 8), max_size=3), st.booleans()).map(
        lambda t: {"hex": t[0].hex(), "parts": t[1], "ops": [], "bytes": t[2]}),
    st.one_of(st.text(max_size=30), st.text(alphabet="eyJhb.e30=\n", max_size=20)).map(lambda t: {"raw": t, "bytes": False}))


def p_text(c):
    if "raw" in c:
        tok = c["raw"]
    else:
        h = gen.B(c["hex"]) if "hex" in c else c["head"].encode("latin-1") if c["head"] == "\xff" else c["head"].encode("utf-8")
        tok = ".".join([enc(h)] + [enc(gen.B(p)) for p in c["parts"]])
        for op, at, ch in c["ops"]:
            at = at % (len(tok) + 1)
            tok = tok[:at] + (ch if op != "del" else "") + tok[at + (op != "ins"):]
    arg = tok.encode("utf-8") if c["bytes"] else tok
    ps = tok.split(".")
    padded = any(p.endswith("=") for p in ps)
    octs = [dec(p.rstrip("=")) for p in ps]
    headers = None
    good = len(ps) > 1 and None not in octs
    if good:
        try:
            headers = json.loads(octs[0].decode("utf-8"))
        except (ValueError, RecursionError):
            good = False
    ok, got = attempt(JWT().unpack, arg)
    if not good:
        check(not ok, "unpack(%s) accepted: %s", arg, getattr(got, "headers", got))
        return ["bad"]
    if padded or not isinstance(headers, dict):
        if ok:
            check(gen.same(got.headers, headers) and list(got.part[1:]) == octs[1:], "unpack(%s): %s", arg, got.part)
        return ["trivial"]
    check(ok, "unpack(%s) refused: %s", arg, got)
    check(gen.same(got.headers, headers) and list(got.part[1:]) == octs[1:], "unpack(%s): %s", arg, got.part)
    check(lib(got.pack) == tok, "unpack(%s) packed again as %s", arg, lib(got.pack))
    return ["good"]


def heads(tier):
    for h in OCTET_HEADS:
        yield {"hex": h.hex(), "parts": ["61", ""], "ops": [], "bytes": False}


def many(tier):
    """Tokens of very many, and very long, parts."""
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 100, 255, 256, 257, 1000):
        yield {"n": n, "size": n % 7}
    for size in (255, 256, 4095, 65535, 65536, 2**20 + 1):
        yield {"n": 3, "size": size}


def p_many(c):
    octs = [bytes((i * 7 + j) % 256 for j in range(min(c["size"], 300))) * (1 + c["size"] // 300) for i in range(c["n"])]
    j = lib(JWT, alg="HS256")
    tok = lib(j.pack, list(octs))
    ps = tok.split(".")
    check(len(ps) == c["n"] + 1 and [dec(p) for p in ps[1:]] == octs, "%s parts of %s octets packed as %s", c["n"], c["size"], tok)
    unpacked(tok, {"alg": "HS256"}, octs, False, False, "%s parts" % c["n"])
    return ["%dparts" % c["n"]]


def octet_cases(tier):
    return [{"o": o, "where": w} for o in range(128) for w in ("header", "payload", "third", "end")]


def p_octet(c):
    h, p, s = enc(b'{"alg":"none"}'), enc(b"hello"), enc(b"abc")
    ch = chr(c["o"])
    t = {"header": h[:5] + ch + h[5:] + "." + p, "payload": h + "." + p[:3] + ch + p[3:], "third": h + "." + p + "." + ch + s,
         "end": h + "." + p + "." + s + ch}[c["where"]]
    return p_text({"raw": t, "bytes": False})


def stray_cases(tier):
    return [{"seq": s} for s in mutate.STRAYS]


def p_stray(c):
    tok = enc(b'{"alg":"none","a":"b"}') + "." + enc(b"hello world") + "." + enc(b"abc")
    for t in mutate.strayed(tok, c["seq"]):
        p_text({"raw": t, "bytes": False})
        if all(ord(x) < 0xd800 for x in t):
            p_text({"raw": t, "bytes": True})
    return ["stray"]


def sizes(tier):
    for n in list(range(0, 140)) + [255, 256, 257, 1024, 4096, 65535, 65536, 65537, 1 << 20, (1 << 21) + 1]:
        for what in ("octets", "text", "json", "header"):
            yield {"n": n, "what": what}


def p_size(c):
    n, what = c["n"], c["what"]
    raw = (bytes(i * i % 251 for i in range(1021)) * (n // 1021 + 1))[:n]
    text = "".join(chr(32 + o % 90) for o in raw)
    h = {"alg": "none"}
    v, o = {"octets": (raw, raw), "text": (text + "\u00e5", (text + "\u00e5").encode("utf-8")), "json": ({"a": text}, None), "header": ("x", b"x")}[what]
    if what == "header":
        h["fill"] = text
    tok = lib(JWT().pack, [v, b"second", raw[:n % 7]], h)
    ps = [ref.unb64u(p) for p in tok.split(".")]
    check(len(ps) == 4 and gen.same(json.loads(ps[0].decode("utf-8")), h), "%s of %s octets: header differs", what, n)
    if o is None:
        check(gen.same(json.loads(ps[1].decode("utf-8")), v), "JSON of %s octets differs", n)
        o = ps[1]
    check(ps[1:] == [o, b"second", raw[:n % 7]], "%s of %s octets: other octets packed", what, n)
    unpacked(tok, h, ps[1:], n % 2 == 0, False, "%s of %s octets" % (what, n))
    return [what]


SUBTESTS = [
    Enum("sizes", sizes, p_size),
    Enum("octet-headers", heads, p_text, exhaustive=True),
    Enum("many-parts", many, p_many),
    Enum("strays", stray_cases, p_stray),
    Enum("one-character", octet_cases, p_octet, exhaustive=True),
    Search("pack", s_pack, p_pack, 4000),
    Search("foreign", s_foreign, p_foreign, 4000),
    Search("texts", s_text, p_text, 5000),
]
