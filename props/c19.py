"""C19: JWE interoperability with RFC 7516/7518."""
import json

from hypothesis import strategies as st

from lib import gen, jweg, ref
from lib.core import Enum, Search, check, lib
from props.c17 import jwe_for, strat
from props.c04 import spell

ID = "C19"
RULE = ("Cases: library-made tokens opened by the reference implementation, and reference-made tokens (any header spelling, "
        "content key, IV, ephemeral key, party information, compression) opened by the library. Trivial: empty plaintext.")

from jwkest.jwe import JWE, factory  # noqa: E402


def p_out(c):
    key = gen.lkey(c["key"], private=not c["pub"], kid=c["kid"])
    tok = lib(jwe_for(c).encrypt, [key])
    want = jweg.pt_octets(c["pt"])
    try:
        hdr, pt, raw, cek = ref.jwe_open(tok, gen.rkey(c["key"]))
    except ref.RefError as e:
        check(False, "reference cannot open the library's token (%s): %s", e, tok)
    check(pt == want, "reference decrypts to %s instead of %s", pt, want)
    enc, alg = c["enc"], c["alg"]
    check(len(raw[2]) == ref.ivlen(enc), "IV of %s octets", len(raw[2]))
    check(len(raw[4]) == ref.taglen(enc), "tag of %s octets", len(raw[4]))
    size = {"RSA": lambda: (gen.rkey(c["key"]).n.bit_length() + 7) // 8, "oct": lambda: 8 + ref.ENC_KEYLEN[enc],
            "EC": lambda: 0 if alg == "ECDH-ES" else 8 + ref.ENC_KEYLEN[enc]}[c["key"]["t"]]()
    check(len(raw[1]) == size, "encrypted key of %s octets", len(raw[1]))
    if not c["zip"]:
        check("zip" not in hdr, "zip in the header")
        n = len(want)
        check(len(raw[3]) == (n if enc in jweg.GCM else n + 16 - n % 16), "ciphertext of %s octets", len(raw[3]))
    else:
        check(hdr.get("zip") == "DEF", "compression missing in the header")
    if alg.startswith("ECDH"):
        for m in ("apu", "apv"):
            if c[m] is not None:
                check(hdr.get(m) == c[m], "%s is %s", m, hdr.get(m))
        epk = hdr.get("epk")
        cv = ref.CURVES[c["key"]["crv"]]
        check(isinstance(epk, dict) and epk.get("kty") == "EC" and epk.get("crv") == cv.name, "epk %s", epk)
        check(len(ref.unb64u(epk["x"])) == cv.size and len(ref.unb64u(epk["y"])) == cv.size, "epk coordinates %s", epk)
    return [alg, enc] + (["trivial"] if not want else [])


EXTRA = st.lists(st.one_of(
    st.sampled_from([("typ", "JWE"), ("typ", "JOSE"), ("cty", "JWT"), ("cty", "text/plain"), ("x5t", "AAAA"), ("foo", None),
                     ("iat", 1.25), ("exp", 10**30), ("http://example.com/is/a", {"deep": [1, {"x": None}]}), ("Enc", "A128GCM"),
                     ("ALG", "dir"), ("b64", True), ("iv", "AAAA"), ("tag", "AAAA"), ("p2c", 7)]),
    st.tuples(gen.small_text, gen.json_value).filter(lambda t: t[0] not in gen.RESERVED)), max_size=4)


def s_in():
    return jweg.alg_enc.flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "extra": EXTRA, "perm": st.integers(0, 1000), "kid": gen.opt_kid,
        "how": st.sampled_from(["", "esc", "raw", "slash"]), "ws": st.one_of(st.just(""), st.text(alphabet=" \t\r\n", max_size=5)),
        "bytes": st.booleans(), "obj": st.sampled_from(["plain", "plain", "factory", "msg"]),
        "stored": st.booleans()}))


def p_in(c):
    m = c["m"]
    h = jweg.header(m)
    if c["kid"]:
        h["kid"] = c["kid"]
    extra = []
    for k, v in c["extra"]:
        if k not in h and k not in [x[0] for x in extra]:
            extra.append((k, v))

    def text(hd):
        members = list(hd.items())
        for i, e in enumerate(extra):
            members.insert((c["perm"] * (i + 3)) % (len(members) + 1), e)
        members = members[c["perm"] % len(members):] + members[:c["perm"] % len(members)]
        return spell(members, c["how"], [x for x in c["ws"]])
    tok = jweg.make(m, h, text)
    t = tok.encode() if c["bytes"] else tok
    key = gen.lkey(m["key"], kid=c["kid"])
    want = jweg.pt_octets(m["pt"])
    if c["obj"] == "factory":
        o = lib(factory, t)
        check(o is not None, "factory does not recognise %s", tok)
        got = lib(o.decrypt, keys=[key])
    elif c["obj"] == "msg":
        got = lib(JWE("something", alg=m["alg"], enc=m["enc"]).decrypt, t, [key])
    else:
        got = lib(JWE().decrypt, t, [key])
    check(isinstance(got, bytes) and got == want, "decrypted to %s instead of %s", got, want)
    return [m["alg"], m["enc"], c["how"] or "plain"] + (["zip"] if m["zip"] else []) + (["trivial"] if not want else [])


def sizes(tier):
    for enc in ref.ENCS:
        for n in list(range(0, 70)) + [255, 256, 4096, 8191, 8192, 65535, 65536, 65537] + ([1 << 20, (1 << 21) + 1] if enc in jweg.CBC or tier != "quick" else []):
            if enc in jweg.GCM and n > 5000 and n != 65536 and tier == "quick":
                continue
            for what in ("pt", "zip", "aad"):
                if n % 3 == 0 or n > 70 or what == "pt":
                    yield {"enc": enc, "n": n, "what": what}


def p_size(c):
    n, enc = c["n"], c["enc"]
    from lib import rng
    x = (rng.fixed_bytes(b"x", 1021) * (n // 1021 + 1))[:n]
    h = {"alg": "A192KW", "enc": enc}
    pt = x
    if c["what"] == "aad":
        h["fill"] = "x" * n
        pt = b"plaintext"
    elif c["what"] == "zip":
        h["zip"] = "DEF"
    spec = {"t": "oct", "k": "00ff00"}
    tok = ref.jwe_make(h, pt, gen.rkey(spec), rng.fixed_bytes(b"c", ref.ENC_KEYLEN[enc]), rng.fixed_bytes(b"i", ref.ivlen(enc)), b"\0" * 32, None)
    check(lib(JWE().decrypt, tok, [gen.lkey(spec)]) == pt, "%s of %s octets: other plaintext", c["what"], n)
    kw = {m: v for m, v in h.items() if m not in ("alg", "enc")}
    t2 = lib(JWE(pt, alg="A192KW", enc=enc, **kw).encrypt, [gen.lkey(spec)])
    hdr, got, raw, _ = ref.jwe_open(t2, gen.rkey(spec))
    check(got == pt, "%s of %s octets: the reference decrypts something else", c["what"], n)
    return [c["what"], enc] + (["trivial"] if not n else [])


SUBTESTS = [
    Enum("sizes", sizes, p_size),
    Search("library-made", strat(), p_out, quick=800, thorough=30000),
    Search("reference-made", s_in(), p_in, quick=1000, thorough=40000),
]
