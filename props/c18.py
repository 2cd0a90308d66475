"""C18: no altered or forged JWE decrypts."""
import hashlib
import json
import zlib

from hypothesis import strategies as st

from lib import gen, jweg, mutate, oneobj, ref
from lib.core import Enum, Search, attempt, check, lib

ID = "C18"
RULE = ("Cases: genuine (reference-made) token plus alterations; parts exchanged between two tokens for the same key; "
        "header rewrites; tokens with content keys, IVs, tags, wrapped keys of unusual length and malformed wrapped keys and paddings made with knowledge of the "
        "key; forgeries by parties with another key; arbitrary text. Oracle: the strict reference implementation. Trivial: "
        "the alterations cancel out.")

from jwkest.jwe import JWE, factory  # noqa: E402


def lenient(tok):
    """'=' at the end of parts other than the header is tolerated."""
    p = tok.split(".")
    return ".".join(p[:1] + [x.rstrip("=") for x in p[1:]])


def ref_open(tok, key):
    try:
        return ref.jwe_open(tok, key)
    except (ref.RefError, ValueError, TypeError, AttributeError, zlib.error):
        return None


def same_octets(tok, genuine):
    """Does tok carry exactly the octets of the genuine token (base64
    spellings of the last sextet aside), with the header text unchanged?"""
    a, b = lenient(tok).split("."), genuine.split(".")
    if len(a) != 5 or a[0] != b[0]:
        return False
    for x, y in zip(a[1:], b[1:]):
        if len(x) != len(y) or x[:-1] != y[:-1]:
            return False
        if x != y:
            import base64
            try:
                if base64.urlsafe_b64decode(x + "=" * (-len(x) % 4)) != ref.unb64u(y):
                    return False
            except Exception:
                return False
    return True


def verdict(tok, spec, genuine=(), encode=False, used=False):
    key = gen.lkey(spec)
    r = ref_open(tok, gen.rkey(spec))
    if r is None:
        r = ref_open(lenient(tok), gen.rkey(spec))
    if r is None:
        for g in genuine:
            if same_octets(tok, g):
                r = ref_open(g, gen.rkey(spec))
    t = tok.encode("utf-8") if encode else tok
    if used and genuine:
        # an object that has decrypted the genuine token before
        h = ref.jwe_parse(genuine[0])[0]
        for o in (JWE(), JWE(alg=h["alg"], enc=h["enc"])):
            lib(o.decrypt, genuine[0], [key])
            ok, res = attempt(o.decrypt, t, [key])
            check(not ok or (r is not None and res == r[1]), "object used before decrypted %s to %s", tok, res)
            ok, res = attempt(o.decrypt, t)
            check(not ok, "object used before decrypted without a key")
    o = JWE()
    ok, res = attempt(o.decrypt, t, [key])
    if ok:
        check(r is not None, "decrypted a token the standard rejects: %s -> %s", tok, res)
        check(res == r[1], "decrypted %s to %s", tok, res)
    else:
        check(tok not in genuine, "genuine token does not decrypt: %s (%s)", tok, res)
        check(not o.msg, "plaintext %s left in the object after failure", o.msg)
    return ok


def cbc_mostly():
    return jweg.alg_enc


# ------------------------------------------------------------ alterations
def s_mut():
    return jweg.alg_enc.flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "ops": mutate.ops(5), "enc": st.booleans(), "used": st.sampled_from([False, False, True])}))


def p_mut(c):
    tok = jweg.make(c["m"])
    m = mutate.apply(tok, c["ops"])
    ok = verdict(m, c["m"]["key"], (tok,), c["enc"], c.get("used"))
    if m == tok:
        check(ok, "genuine token rejected")
        return ["trivial"]
    return [c["m"]["alg"], "accepted-equivalent" if ok else "rejected", c["ops"][0]["op"]]


# ------------------------------------------------------------ exchange
def s_graft():
    def two(ae):
        return jweg.made(*ae).flatmap(lambda m: st.fixed_dictionaries({
            "m": st.just(m), "cek2": st.one_of(st.just(m["cek"]), jweg.lead(ref.ENC_KEYLEN[m["enc"]])),
            "iv2": st.one_of(st.just(m["iv"]), jweg.lead(ref.ivlen(m["enc"]))), "seed2": gen.hexbytes(8, 8),
            "pt2": st.one_of(st.just(m["pt"]), jweg.plaintext), "key2": st.one_of(st.none(), jweg.km_key(m["alg"], m["enc"])),
            "enc2": st.one_of(st.just(m["enc"]), st.sampled_from(ref.ENCS)),
            "eph2": st.one_of(st.just(m["eph"]), gen.ec_scalar(m["key"]["crv"]).map(lambda d: "%x" % d)) if m["eph"] else st.just(""),
            "hdr2": st.booleans(), "take": st.lists(st.integers(0, 4), min_size=1, max_size=4, unique=True)}))
    return jweg.alg_enc.flatmap(two)


def p_graft(c):
    m = c["m"]
    a = jweg.make(m)
    enc2 = c["enc2"]
    if m["key"]["t"] == "RSA" and not jweg.km_ok(m["alg"], enc2, gen.RSA_KEYS[m["key"]["i"]]["bits"]):
        enc2 = m["enc"]
    m2 = dict(m, seed=c["seed2"], pt=c["pt2"], enc=enc2, eph=c["eph2"])
    from lib import rng
    m2["cek"] = (gen.B(c["cek2"]) + rng.fixed_bytes(b"x", 64))[:ref.ENC_KEYLEN[enc2]].hex()
    m2["iv"] = (gen.B(c["iv2"]) + rng.fixed_bytes(b"y", 16))[:ref.ivlen(enc2)].hex()
    k2 = c["key2"]
    if k2 and (k2["t"] != "EC" or k2["crv"] == m["key"]["crv"]):
        if k2["t"] != "RSA" or jweg.km_ok(m["alg"], enc2, gen.RSA_KEYS[k2["i"]]["bits"]):
            m2["key"] = k2
    b = jweg.make(m2, jweg.header(m2, **({"foo": 1} if c["hdr2"] else {})))
    p, q = a.split("."), b.split(".")
    for i in c["take"]:
        p[i] = q[i]
    tok = ".".join(p)
    ok = verdict(tok, m["key"], (a, b) if m2["key"] == m["key"] else (a,))
    if tok in (a, b):
        return ["trivial"]
    return [m["alg"], "accepted" if ok else "rejected", "take" + "".join(map(str, sorted(c["take"])))]


# ------------------------------------------------------------ header rewrites
MISSING = {"missing": True}


def s_hdr():
    val = st.sampled_from(ref.KM_ALGS + ref.ENCS + ["dir", "none", "A128GCMKW", "", "RSA-OAEP-512", "rsa-oaep", "A128CBC+HS256", None, 5, [],
                                                    "PBES2-HS256+A128KW", "DEF", "GZ", MISSING])
    return jweg.alg_enc.flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "member": st.sampled_from(["alg", "enc", "zip", "crit", "apu", "apv", "epk", "kid", "foo", "typ", "space"]),
        "val": val, "rewrap": st.booleans()}))


def p_hdr(c):
    """A holder of the key... or not: the header is changed after the fact."""
    m = c["m"]
    tok = jweg.make(m)
    p = tok.split(".")
    txt = ref.unb64u(p[0]).decode()
    h = json.loads(txt)
    mem = c["member"]
    if mem == "space":
        new = txt.replace(":", ": ", 1)
    else:
        if c["val"] == MISSING:
            h.pop(mem, None)
        elif mem == "epk" and "epk" in h:
            cv = ref.CURVES[m["key"]["crv"]]
            h["epk"]["y"] = ref.b64u(ref.i2b(-ref.b2i(ref.unb64u(h["epk"]["y"])) % cv.p, cv.size))
        elif mem in ("apu", "apv"):
            h[mem] = ref.b64u(str(c["val"]).encode())
        else:
            h[mem] = c["val"]
        new = ref.compact_json(h)
    p[0] = ref.b64u(new.encode())
    t2 = ".".join(p)
    ok = verdict(t2, m["key"], (tok,))
    return ["trivial"] if t2 == tok else [m["alg"], mem, "accepted" if ok else "rejected"]


# ------------------------------------------------------------ odd lengths, made with the key
def s_len():
    return jweg.alg_enc.flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "what": st.sampled_from(["cek", "cek", "iv", "tag", "tagzero", "ivzero", "wrap", "cut"]),
        "n": st.integers(0, 70), "enc2": st.sampled_from(ref.ENCS), "lead": st.booleans()}))


def with_cek(m, cek, enc_name, ceknc):
    """Token naming enc_name whose encrypted key holds cek; content is
    encrypted with cek under ceknc."""
    h = jweg.header(dict(m, zip=False))
    h["enc"] = enc_name
    key = gen.rkey(m["key"])
    alg = m["alg"]
    if alg == "ECDH-ES":
        return None
    if alg.startswith("ECDH"):
        c = ref.CURVES[key.crv]
        ex, ey = c.pub(int(m["eph"], 16))
        h["epk"] = {"kty": "EC", "crv": key.crv, "x": ref.b64u(ref.i2b(ex, c.size)), "y": ref.b64u(ref.i2b(ey, c.size))}
    if not alg.startswith("RSA") and (len(cek) < 16 or len(cek) % 8):
        return None
    if alg.startswith("RSA") and len(cek) + jweg.OVERHEAD[alg] > (key.n.bit_length() + 7) // 8:
        return None
    ek, _ = ref.jwe_ek(h, key, cek, jweg.rnd_bytes(alg, m["key"], m["seed"]), int(m["eph"], 16) if m["eph"] else None)
    aad = ref.b64u(ref.compact_json(h).encode()).encode()
    iv = (gen.B(m["iv"]) + b"\1" * 16)[:ref.ivlen(ceknc)]
    ct, tag = ref.content_encrypt(ceknc, cek, iv, aad, jweg.pt_octets(m["pt"]))
    return ".".join([aad.decode(), ref.b64u(ek), ref.b64u(iv), ref.b64u(ct), ref.b64u(tag)])


def p_len(c):
    m = dict(c["m"], zip=False)
    from lib import rng
    what, enc = c["what"], m["enc"]
    tok = None
    if what == "cek":
        # content key (and encryption) of another method than the header names
        cek = rng.fixed_bytes(b"cek", ref.ENC_KEYLEN[c["enc2"]])
        if c["lead"]:
            cek = b"\0" * 8 + cek[8:]
        tok = with_cek(m, cek, enc, c["enc2"])
        if tok is None:
            return ["trivial"]
        ok = verdict(tok, m["key"])
        check(ok == (c["enc2"] == enc), "content key of %s accepted for %s", c["enc2"], enc)
        return [m["alg"], what, "accepted" if ok else "rejected"]
    base = jweg.make(m)
    p = base.split(".")
    raw = [ref.unb64u(x) for x in p]
    if what == "iv":
        raw[2] = (raw[2] + b"\0" * 80)[:c["n"]]
    elif what == "ivzero":
        raw[2] = b"\0" * (c["n"] % 5) + raw[2] if c["lead"] else raw[2].lstrip(b"\0")
    elif what == "tag":
        raw[4] = (raw[4] + b"\0" * 80)[:c["n"]]
    elif what == "tagzero":
        raw[4] = b"\0" * (c["n"] % 5) + raw[4] if c["lead"] else raw[4].lstrip(b"\0")
    elif what == "wrap":
        raw[1] = (raw[1] + b"\0" * 8)[:c["n"]] if c["lead"] else raw[1] + b"\0" * (c["n"] % 17)
    else:
        raw[3] = raw[3][:c["n"]]
    tok = ".".join([p[0]] + [ref.b64u(x) for x in raw[1:]])
    ok = verdict(tok, m["key"], (base,))
    return ["trivial"] if tok == base else [m["alg"], what, "accepted" if ok else "rejected"]


# ------------------------------------------------------------ malformed wrapped keys
WRAP = {"RSA1_5": ["type1", "first", "shortps", "nosep", "raw", "plusn", "oaep", "good"],
        "RSA-OAEP": ["first", "label", "lhash", "ps", "nosep", "otherhash", "mgf", "pkcs1", "plusn", "good"],
        "KW": ["iv1", "ivlow", "ivhigh", "ivzero", "ivtcg", "rounds", "swap", "good"]}


def wrap_kinds(alg):
    return WRAP.get("RSA-OAEP" if alg.startswith("RSA-OAEP") else alg, WRAP["KW"])


def s_wrap():
    return jweg.alg_enc.filter(lambda ae: ae[0] != "ECDH-ES").flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "kind": st.sampled_from(wrap_kinds(ae[0])), "n": st.integers(0, 1 << 16), "pad": st.booleans()}))


def odd_wrap(c, key, cek, header):
    """The content key wrapped in a way the standard does not allow (or
    properly, kind 'good'); None where it cannot be done."""
    alg, kind, n = c["m"]["alg"], c["kind"], c["n"]
    rnd = jweg.rnd_bytes(alg, c["m"]["key"], c["m"]["seed"])
    if alg.startswith("RSA"):
        r = key.rsa
        good, _ = ref.jwe_ek(header, key, cek, rnd, None)
        if kind == "good":
            return good
        if kind == "plusn":
            v = ref.b2i(good) + r.n
            return ref.i2b(v, max(r.k, (v.bit_length() + 7) // 8))
        em = bytearray(ref.i2b(r.priv(ref.b2i(good)), r.k))
        if alg == "RSA1_5":
            need = r.k - len(cek) - 3
            ps = bytes(x or 1 for x in (rnd * 2)[:need])
            if kind == "type1":
                em[1] = [0, 1, 3, 255][n % 4]
            elif kind == "first":
                em[0] = 1
            elif kind == "shortps":
                em[2 + n % 8] = 0
            elif kind == "nosep":
                em = bytearray(x or 1 for x in em)
                em[0] = 0
            elif kind == "raw":
                em = bytearray(b"\0" * (r.k - len(cek)) + cek)
            elif kind == "oaep":
                if r.k < len(cek) + 42:
                    return None
                return ref.oaep_encrypt(r, hashlib.sha1, cek, rnd[:20])
        else:
            H = hashlib.sha1 if alg == "RSA-OAEP" else hashlib.sha256
            O = hashlib.sha256 if alg == "RSA-OAEP" else hashlib.sha1
            hl = H(b"").digest_size
            if kind == "label":
                return ref.oaep_encrypt(r, H, cek, rnd, b"label")
            if kind == "otherhash":
                return ref.oaep_encrypt(r, O, cek, rnd) if r.k >= len(cek) + 2 * O(b"").digest_size + 2 else None
            if kind == "pkcs1":
                return ref.rsaes_pkcs1_encrypt(r, cek, bytes(x or 1 for x in rnd))
            db = bytearray(H(b"").digest() + b"\0" * (r.k - len(cek) - 2 * hl - 2) + b"\1" + cek)
            seed = (rnd * 4)[:hl]
            if kind == "lhash":
                db[n % hl] ^= 1 << n // 256 % 8
            elif kind == "ps":
                if db[hl] == 1:
                    return None
                db[hl + n % (r.k - len(cek) - 2 * hl - 2)] = 2 + n % 254
            elif kind == "nosep":
                db[r.k - len(cek) - hl - 2] = 0
            g = O if kind == "mgf" else H
            mdb = ref.xor(bytes(db), ref.mgf1(g, seed, r.k - hl - 1))
            ms = ref.xor(seed, ref.mgf1(g, mdb, hl))
            em = bytearray((b"\1" if kind == "first" else b"\0") + ms + mdb)
        if ref.b2i(bytes(em)) >= r.n:
            return None
        return ref.i2b(r.pub(ref.b2i(bytes(em))), r.k)
    if alg.startswith("A"):
        kek = ref.oidc_kek(key.k, ref.kw_bits(alg))
    else:
        kek = ref.ecdh_key(key.crv, int(c["m"]["eph"], 16), (key.x, key.y), alg.split("+")[1].encode(),
                           ref.unb64u(header.get("apu", "")), ref.unb64u(header.get("apv", "")), ref.kw_bits(alg))
    iv = bytearray(b"\xa6" * 8)
    if kind == "iv1":
        iv[n % 8] ^= 1 << n // 8 % 8
    elif kind == "ivlow":
        iv[4:] = (n + 1).to_bytes(4, "big")
    elif kind == "ivhigh":
        iv[:4] = (n + 1).to_bytes(4, "big")
    elif kind == "ivzero":
        iv = bytearray(8)
    elif kind == "ivtcg":      # alternative initial value of RFC 5649
        iv = bytearray(b"\xa6\x59\x59\xa6" + len(cek).to_bytes(4, "big"))
    w = ref.aes_kw(kek, cek, bytes(iv))
    if kind == "rounds":
        w = ref.aes_kw(kek, w)
    elif kind == "swap":
        w = w[8:] + w[:8]
    return w


def p_wrap(c):
    m = c["m"]
    key = gen.rkey(m["key"])
    cek = gen.B(m["cek"])
    h = jweg.header(m)
    if m["eph"]:
        cv = ref.CURVES[key.crv]
        ex, ey = cv.pub(int(m["eph"], 16))
        h["epk"] = {"kty": "EC", "crv": key.crv, "x": ref.b64u(ref.i2b(ex, cv.size)), "y": ref.b64u(ref.i2b(ey, cv.size))}
    w = odd_wrap(c, key, cek, h)
    if w is None:
        return ["trivial"]
    aad = ref.b64u(ref.compact_json(h).encode())
    pt = jweg.pt_octets(m["pt"])
    body = ref.deflate(pt) if m["zip"] else pt
    enc, iv = m["enc"], gen.B(m["iv"])
    if c["pad"] and not enc.endswith("GCM"):
        # content padding other than PKCS #7, under a correct tag
        from Cryptodome.Cipher import AES
        k = len(cek) // 2
        body += b"\0" * (-len(body) % 16) + [b"", b"\0" * 16, b"\x11" * 16, b"\xff" * 16, b"\2" * 15 + b"\4"][c["n"] % 5]
        if not body:
            return ["trivial"]
        ct = AES.new(cek[k:], AES.MODE_CBC, iv).encrypt(body)
        import hmac
        tag = hmac.new(cek[:k], aad.encode() + iv + ct + (8 * len(aad)).to_bytes(8, "big"), ref.CBC_HASH[len(cek)]).digest()[:k]
    else:
        ct, tag = ref.content_encrypt(enc, cek, iv, aad.encode(), body)
    tok = ".".join([aad, ref.b64u(w), ref.b64u(iv), ref.b64u(ct), ref.b64u(tag)])
    ok = verdict(tok, m["key"], (tok,) if c["kind"] == "good" and not c["pad"] else ())
    return [m["alg"], c["kind"], "accepted" if ok else "rejected"] + (["padding"] if c["pad"] else [])


# ------------------------------------------------------------ forgeries
def s_forge():
    return jweg.alg_enc.flatmap(lambda ae: st.fixed_dictionaries({
        "m": jweg.made(*ae), "victim": jweg.km_key(*ae), "how": st.sampled_from(["other", "zerocek", "nocek", "ecdh"])}))


def p_forge(c):
    """The token is made for another key than the victim's."""
    m = c["m"]
    if gen.same_opener(m["key"], c["victim"]):
        return ["trivial"]
    if m["alg"].startswith("A") and ref.oidc_kek(gen.B(m["key"]["k"]), 128) == ref.oidc_kek(gen.B(c["victim"]["k"]), 128):
        return ["trivial"]
    tok = jweg.make(m)
    if c["how"] in ("zerocek", "nocek"):
        p = tok.split(".")
        h = dict(jweg.header(m))
        cek = b"\0" * ref.ENC_KEYLEN[m["enc"]]
        if c["how"] == "nocek":
            p[1] = ""
        if "epk" not in json.loads(ref.unb64u(p[0]).decode()):
            p[0] = ref.b64u(ref.compact_json(h).encode())
        ct, tag = ref.content_encrypt(m["enc"], cek, gen.B(m["iv"]), p[0].encode(), jweg.pt_octets(m["pt"]))
        p[3], p[4] = ref.b64u(ct), ref.b64u(tag)
        tok = ".".join(p)
    ok, r = attempt(JWE().decrypt, tok, [gen.lkey(c["victim"])])
    check(not ok, "forged token decrypts: %s -> %s", tok, r)
    return [m["alg"], c["how"]]


# ------------------------------------------------------------ garbage
def s_text():
    part = st.one_of(gen.hexbytes(0, 30).map(lambda h: ref.b64u(gen.B(h))), st.text(max_size=6),
                     st.sampled_from(["eyJhbGciOiJBMTI4S1ciLCJlbmMiOiJBMTI4R0NNIn0", "eyJhbGciOiJFQ0RILUVTIn0", "e30", "bnVsbA", "W10"]))
    return st.one_of(st.lists(part, max_size=7).map(".".join), st.text(max_size=30)).flatmap(
        lambda t: st.fixed_dictionaries({"t": st.just(t), "key": gen.any_key}))


def p_text(c):
    ok = verdict(c["t"], c["key"])
    check(not ok, "arbitrary text decrypts")
    return ["%d-dots" % min(c["t"].count("."), 6)]


def bits(tier):
    """Every bit of every part of one token per pair of algorithms (a stride
    in the quick tier)."""
    big = [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] >= 1048][0]
    n = 0
    for alg in ref.KM_ALGS:
        for enc in jweg.CBC + (["A128GCM"] if alg in ("A128KW", "ECDH-ES") or tier != "quick" else []):
            key = {"RSA": {"t": "RSA", "i": big}, "oct": {"t": "oct", "k": "6b6579"},
                   "EC": {"t": "EC", "crv": "P-256", "d": "1234567"}}[jweg.km_kty(alg)]
            m = {"alg": alg, "enc": enc, "key": key, "cek": "ab" * ref.ENC_KEYLEN[enc], "iv": "cd" * ref.ivlen(enc),
                 "seed": "00" * 8, "eph": "987654321" if key["t"] == "EC" else "", "pt": {"t": "attack at dawn"}, "zip": False,
                 "apu": None, "apv": None}
            sizes = [len(ref.unb64u(x)) for x in jweg.make(m).split(".")]
            for p in range(5):
                for i in range(sizes[p]):
                    for b in range(8):
                        n += 1
                        # cheap: every bit; tags and vectors: every bit of one pair
                        full = alg == "A128KW" or (p in (2, 4) and enc == jweg.CBC[0] and key["t"] != "EC")
                        if tier != "quick" or full or n % (41 if key["t"] == "EC" else 11) == 0:
                            yield {"m": m, "ops": [{"op": "bit", "p": p, "pos": i, "bit": b}], "enc": False}


def longs(tier):
    """Changes far inside long ciphertexts and headers."""
    for enc in ref.ENCS:
        for what in ("ct", "aad"):
            for n in (300, 1025, 4096, 65536, 65539) + ((1 << 20,) if enc in jweg.CBC or tier != "quick" else ()):
                if enc in jweg.GCM and n > 5000 and tier == "quick" and enc != "A128GCM":
                    continue
                for at in (0, n // 4, n // 2, n - 300, n - 65, n - 33, n - 17, n - 16, n - 4, n - 1):
                    yield {"enc": enc, "what": what, "n": n, "at": at, "how": "flip"}
                for how in ("drop", "drop16", "add16", "swap16", "swapfar", "same"):
                    yield {"enc": enc, "what": what, "n": n, "at": 0, "how": how}


def p_long(c):
    from lib import rng
    n, enc = c["n"], c["enc"]
    fill = (rng.fixed_bytes(b"long", 1024).hex() * (n // 2048 + 1))[:n]
    h = {"alg": "A128KW", "enc": enc}
    if c["what"] == "aad":
        h["fill"] = fill
    pt = fill.encode() if c["what"] == "ct" else b"attack at dawn"
    spec = {"t": "oct", "k": "6b6579"}
    cek, iv = rng.fixed_bytes(b"c", ref.ENC_KEYLEN[enc]), rng.fixed_bytes(b"i", ref.ivlen(enc))
    tok = ref.jwe_make(h, pt, gen.rkey(spec), cek, iv, b"\0" * 32, None)
    p = tok.split(".")
    part = 0 if c["what"] == "aad" else 3
    x = bytearray(ref.unb64u(p[part]))
    lo = x.index(fill[:32].encode()) if part == 0 else 0
    run = x[lo:lo + n] if part == 0 else x
    tail = x[lo + n:] if part == 0 else b""
    how = c["how"]
    if how == "flip":
        run[c["at"]] ^= 1
    elif how == "drop":
        del run[-1]
    elif how == "drop16":
        del run[-16:]
    elif how == "add16":
        run += b"0" * 16
    elif how == "swap16":
        run[0:16], run[16:32] = run[16:32], run[0:16]
    elif how == "swapfar":
        run[32:48], run[-32:-16] = run[-32:-16], run[32:48]
    p[part] = ref.b64u(bytes(x[:lo] + run + tail))
    t2 = ".".join(p)
    o = JWE()
    if how == "same":
        check(lib(o.decrypt, t2, [gen.lkey(spec)]) == pt, "other plaintext")
        return [enc, "same"]
    if t2 == tok:
        return ["trivial"]
    ok, r = attempt(o.decrypt, t2, [gen.lkey(spec)])
    check(not ok, "altered token (%s octets) decrypts", n)
    check(not o.msg, "plaintext left in the object after failure")
    return [enc, how]


def cuts(tier):
    """The octets of a genuine token cut into parts at other places."""
    keys = {"A128KW": {"t": "oct", "k": "6b6579"}, "RSA-OAEP": {"t": "RSA", "i": [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] >= 1048][0]},
            "ECDH-ES": {"t": "EC", "crv": "P-256", "d": "1234567"}, "ECDH-ES+A128KW": {"t": "EC", "crv": "P-256", "d": "1234567"}}
    for alg, key in keys.items():
        for enc in ("A128GCM", "A256GCM", "A128CBC-HS256", "A256CBC-HS512"):
            for z in (False, True):
                m = {"alg": alg, "enc": enc, "key": key, "cek": "c7" * ref.ENC_KEYLEN[enc], "iv": "1f" * ref.ivlen(enc), "seed": "07" * 8,
                     "eph": "77" if key["t"] == "EC" else "", "pt": {"b": "68656c6c6f" * 7}, "zip": z, "apu": None, "apv": None}
                for p in range(5):
                    for q in range(5):
                        if p != q:
                            for n in (1, 8, 12, 16, 32, 9999):
                                for end in (False, True):
                                    yield {"m": m, "ops": [{"op": "shift", "p": p, "q": q, "n": n, "end": end}], "enc": False}
                # everything in one place, as other formats do
                for dst in (3, 4, 1):
                    yield {"m": m, "ops": [{"op": "shift", "p": p, "q": dst, "n": 9999, "end": True} for p in (2, 3, 4, 1) if p != dst], "enc": False}
                yield {"m": m, "ops": [{"op": "shift", "p": 4, "q": 3, "n": 9999, "end": False}, {"op": "shift", "p": 2, "q": 3, "n": 9999, "end": False}], "enc": False}


def strays(tier):
    """Characters that do not belong there, everywhere in a genuine token."""
    for enc in ("A128GCM", "A128CBC-HS256"):
        for seq in mutate.STRAYS:
            yield {"enc": enc, "seq": seq}


def p_strays(c):
    from lib import rng
    spec = {"t": "oct", "k": "6b6579"}
    tok = ref.jwe_make({"alg": "A128KW", "enc": c["enc"]}, b"attack at dawn", gen.rkey(spec), rng.fixed_bytes(b"c", ref.ENC_KEYLEN[c["enc"]]),
                       rng.fixed_bytes(b"i", ref.ivlen(c["enc"])), b"\0" * 32, None)
    for i, t in enumerate(mutate.strayed(tok, c["seq"])):
        verdict(t, spec, (tok,), i % 2 == 1)
    return [c["enc"]]


SUBTESTS = [
    Search("alterations", s_mut(), p_mut, quick=1200, thorough=50000),
    Enum("bits", bits, p_mut),
    Enum("long", longs, p_long),
    Enum("strays", strays, p_strays),
    Enum("cuts", cuts, p_mut),
    Search("one-object", oneobj.jwe_strategy(), oneobj.jwe_run, quick=500, thorough=20000),
    Search("exchange", s_graft(), p_graft, quick=600, thorough=25000),
    Search("headers", s_hdr(), p_hdr, quick=700, thorough=20000),
    Search("lengths", s_len(), p_len, quick=900, thorough=30000),
    Search("wrapped-keys", s_wrap(), p_wrap, quick=700, thorough=25000),
    Search("forgeries", s_forge(), p_forge, quick=300, thorough=10000),
    Search("text", s_text(), p_text, quick=400, thorough=20000),
]
