"""C02: only a genuinely signed token verifies."""
import json

from hypothesis import strategies as st

from lib import gen, mutate, oneobj, ref
from lib.core import Enum, Search, Violation, attempt, check, lib, must_fail, show

ID = "C02"
RULE = ("Cases: a genuine token (made by the reference signer) plus a list of alterations; key-holder variants with "
        "non-standard signature encodings; arbitrary text. The reference verifier decides. Trivial: the alterations "
        "cancel out and leave the token unchanged.")

from jwkest.jws import JWS, factory  # noqa: E402

HDR_TEXT = [None, '{"alg": "%s"}', '{"typ":"JWT","alg":"%s"}', ' {"alg":"%s"}\n']


def base(c):
    alg = c["alg"]
    k = gen.rkey(c["key"])
    txt = (HDR_TEXT[c.get("h", 0)] or '{"alg":"%s"}') % alg
    return ref.jws_sign(txt, gen.B(c["payload"]), k, alg, gen.B(c["rnd"])), k


def lenient(tok):
    """The token with '=' at the end of parts removed (the decoder documents
    that it tolerates padding); None if that changes the signed octets."""
    parts = tok.split(".")
    if len(parts) != 3:
        return tok
    return ".".join(parts[:2] + [parts[2].rstrip("=")])


def ref_accepts(tok, rkeys):
    try:
        return ref.jws_open(tok, rkeys)
    except ref.RefError:
        return None


def verdict(tok, spec, others, want=None, encode=False, dontcare=False, used=None):
    """Library against reference on one token text."""
    keys = [gen.lkey(s, private=False) for s in others]
    keys.insert(len(keys) // 2, gen.lkey(spec, private=False))
    rk = [gen.rkey(s) for s in others] + [gen.rkey(spec)]
    r = ref_accepts(tok, rk)
    rl = r or ref_accepts(lenient(tok), rk)
    t = tok.encode("utf-8") if encode else tok
    if used:
        # an object that has verified a genuine token before
        v = JWS()
        lib(v.verify_compact, used, keys)
        ok, res = attempt(v.verify_compact, t, keys)
        check(not ok or rl is not None, "object used before accepted %s", tok)
        ok, res = attempt(v.verify_compact, t)
        check(not ok, "object used before accepted %s without keys", tok)
    v = JWS()
    ok, res = attempt(v.verify_compact_verbose, t, keys)
    if ok:
        if not dontcare:
            check(rl is not None, "accepted a token the standard rejects: %s -> %s", tok, res["msg"])
            want = ref.payload_value(rl[1])
            if not gen.same(res["msg"], want):
                check(isinstance(want, bytes) and gen.same_payload({"b": rl[1].hex()}, res["msg"]),
                      "returned payload %s for octets %s", res["msg"], rl[1])
    else:
        check(r is None, "rejected a valid token: %s (%s)", tok, res)
        check(v.msg is None, "payload %s available after failed verification", v.msg)
    ok2, fac = attempt(factory, t)
    if ok2 and fac:
        ok3, res3 = attempt(fac.verify_compact, t, keys)
        check(ok3 == ok, "object from factory disagrees: %s / %s on %s", ok3, ok, tok)
    return ok


def others_for(c):
    return [s for s in c["others"] if not gen.same_key(s, c["key"])]


def common(alg):
    return {"alg": st.just(alg), "key": gen.key_for(alg), "payload": gen.hexbytes(0, 40), "rnd": gen.hexbytes(70, 70),
            "h": st.integers(0, 3), "others": st.lists(st.one_of(gen.key_for(alg), gen.any_key), max_size=2),
            "enc": st.booleans()}


def s_mut():
    return st.sampled_from(ref.JWS_ALGS).flatmap(lambda alg: st.fixed_dictionaries(dict(common(alg), ops=mutate.ops(3), used=st.sampled_from([False, False, True]))))


def p_mut(c):
    tok, _ = base(c)
    m = mutate.apply(tok, c["ops"])
    ok = verdict(m, c["key"], others_for(c), encode=c["enc"], used=tok if c.get("used") else None)
    if m == tok:
        check(ok, "genuine token rejected")
        return ["trivial"]
    return [c["alg"], "accepted-equivalent" if ok else "rejected", c["ops"][0]["op"]]


def s_graft():
    def two(alg):
        return st.fixed_dictionaries(dict(common(alg), alg2=st.sampled_from(ref.JWS_ALGS), payload2=gen.hexbytes(0, 40),
                                          key2=st.just(None), take=st.sampled_from([0, 1, 2]),
                                          samekey=st.booleans(), k2=gen.key_for(alg), h2=st.integers(0, 3)))
    return st.sampled_from(ref.JWS_ALGS).flatmap(two)


def p_graft(c):
    """Parts exchanged between two genuine tokens (same or other key, same
    family of algorithms)."""
    tok, _ = base(c)
    alg2 = c["alg2"] if c["alg2"][:2] == c["alg"][:2] or {c["alg2"][:1], c["alg"][:1]} <= {"R", "P"} else c["alg"]
    k2 = c["key"] if c["samekey"] else c["k2"]
    if k2["t"] == "EC":
        alg2 = c["alg"]
    if k2["t"] == "RSA" and not gen.rsa_ok(alg2, gen.RSA_KEYS[k2["i"]]["bits"]):
        alg2 = c["alg"]
    tok2, _ = base(dict(c, alg=alg2, key=k2, payload=c["payload2"], h=c["h2"]))
    p, q = tok.split("."), tok2.split(".")
    p[c["take"]] = q[c["take"]]
    m = ".".join(p)
    ok = verdict(m, c["key"], [s for s in others_for(c) if not gen.same_key(s, k2)], encode=c["enc"])
    return ["trivial"] if m == tok else [c["alg"], "take%d" % c["take"], "accepted" if ok else "rejected"]


# --- signatures made by the key holder in non-standard ways
def s_holder():
    alg = st.sampled_from(ref.JWS_ALGS + ["ES256", "ES384", "ES512", "RS256", "PS256"])
    kind = {"HS": ["trunc", "otherhash", "double", "hex", "zeroext", "nodot", "payloadonly", "decoded"],
            "RS": ["nonull", "type02", "badps", "shortps", "garbage", "otherhash", "rawhash", "plusn", "lead0", "strip0",
                   "pss", "zero", "one", "nminus1", "payloadonly", "decoded", "nohashid"],
            "PS": ["salt0", "saltm1", "saltp1", "salt20", "trailer", "topbit", "otherhash", "mgf", "plusn", "lead0",
                   "strip0", "pkcs1", "zero", "one", "payloadonly", "decoded"],
            "ES": ["swap", "rplus", "splus", "negs", "r0", "s0", "rn", "sn", "zeros", "padr", "pads", "padboth", "der",
                   "strip", "otherhash", "split", "rs1", "payloadonly", "decoded", "long"]}
    return alg.flatmap(lambda a: st.fixed_dictionaries(dict(common(a), kind=st.sampled_from(kind[a[:2]]),
                                                            n=st.integers(1, 40))))


def der(r, s):
    def i(v):
        b = ref.i2b(v)
        if b[0] & 0x80:
            b = b"\0" + b
        return b"\x02" + bytes([len(b)]) + b
    body = i(r) + i(s)
    return (b"\x30" + (bytes([len(body)]) if len(body) < 128 else b"\x81" + bytes([len(body)]))) + body


def p_holder(c):
    tok, k = base(c)
    alg, kind, n = c["alg"], c["kind"], c["n"]
    si, sig = tok.rsplit(".", 1)
    msg = si.encode()
    sig = ref.unb64u(sig)
    h = ref.HASHES[alg[2:]]
    oh = ref.HASHES[{"256": "384", "384": "512", "512": "256"}[alg[2:]]]
    dontcare = False
    fam = alg[:2]
    rnd = gen.B(c["rnd"])
    if kind == "payloadonly":
        sig = ref.jws_sig(alg, k, msg.split(b".")[1], rnd)
    elif kind == "decoded":
        sig = ref.jws_sig(alg, k, b".".join(ref.unb64u(x) for x in msg.split(b".")), rnd)
    elif fam == "HS":
        import hmac
        if kind == "trunc":
            sig = sig[:-n] if n < len(sig) else b""
        elif kind == "otherhash":
            sig = hmac.new(k.k, msg, oh).digest()
        elif kind == "double":
            sig = sig * 2
        elif kind == "hex":
            sig = sig.hex().encode()
        elif kind == "zeroext":
            sig = sig + b"\0" * n
        elif kind == "nodot":
            sig = hmac.new(k.k, msg.replace(b".", b""), h).digest()
    elif fam == "RS":
        r = k.rsa
        t = ref.HASH_PREFIX[h(b"").name] + h(msg).digest()
        ps = r.k - len(t) - 3

        def put(em):
            return ref.i2b(r.priv(ref.b2i(em)), r.k)
        if kind == "nonull":
            p = ref.HASH_PREFIX[h(b"").name]
            p2 = bytes([0x30, p[1] - 2, 0x30, p[3] - 2]) + p[4:-4] + p[-2:]
            t2 = p2 + h(msg).digest()
            sig = put(b"\0\1" + b"\xff" * (r.k - len(t2) - 3) + b"\0" + t2)
            dontcare = True     # RFC 8017 lets verifiers accept it
        elif kind == "type02":
            sig = put(b"\0\2" + b"\xff" * ps + b"\0" + t)
        elif kind == "badps":
            sig = put(b"\0\1" + b"\xff" * (ps - 1) + b"\xfe\0" + t)
        elif kind == "shortps":
            sig = put(b"\0\1" + b"\xff" * (ps - min(n, ps)) + b"\0" + t + b"\0" * min(n, ps))
        elif kind == "garbage":
            m = min(n, ps - 1)
            sig = put(b"\0\1" + b"\xff" * (ps - m) + b"\0" + t + (rnd * 2)[:m])
        elif kind == "otherhash":
            ot = ref.HASH_PREFIX[oh(b"").name] + oh(msg).digest()
            if r.k < len(ot) + 11:
                return ["trivial"]
            sig = ref.rsa_pkcs1_sign(r, oh, msg)
        elif kind == "rawhash":
            sig = put(b"\0\1" + b"\xff" * (r.k - len(h(msg).digest()) - 3) + b"\0" + h(msg).digest())
        elif kind == "nohashid":
            sig = put(b"\0" * (r.k - len(t)) + t)
        elif kind == "pss":
            try:
                sig = ref.rsa_pss_sign(r, h, msg, rnd[:20])
            except ref.RefError:
                return ["trivial"]
        elif kind in ("zero", "one", "nminus1"):
            sig = ref.i2b({"zero": 0, "one": 1, "nminus1": r.n - 1}[kind], r.k)
    elif fam == "PS":
        r = k.rsa
        hl = h(b"").digest_size
        try:
            if kind.startswith("salt"):
                sl = {"salt0": 0, "saltm1": hl - 1, "saltp1": hl + 1, "salt20": 20}[kind]
                sig = ref.rsa_pss_sign(r, h, msg, (rnd * 2)[:sl])
            elif kind == "otherhash":
                sig = ref.rsa_pss_sign(r, oh, msg, (rnd * 2)[:oh(b"").digest_size])
            elif kind == "pkcs1":
                sig = ref.rsa_pkcs1_sign(r, h, msg)
            elif kind in ("zero", "one"):
                sig = ref.i2b({"zero": 0, "one": 1}[kind], r.k)
            elif kind in ("trailer", "topbit", "mgf"):
                em = bytearray(ref.i2b(r.pub(ref.b2i(sig)), r.k))
                if kind == "trailer":
                    em[-1] = 0xcc
                elif kind == "topbit":
                    top = (r.n.bit_length() - 1)
                    v = ref.b2i(bytes(em)) | (1 << top)
                    if v >= r.n:
                        return ["trivial"]
                    em = ref.i2b(v, r.k)
                else:
                    em[len(em) // 3] ^= 1
                if ref.b2i(bytes(em)) >= r.n:
                    return ["trivial"]
                sig = ref.i2b(r.priv(ref.b2i(bytes(em))), r.k)
        except ref.RefError:
            return ["trivial"]
    if fam in ("RS", "PS"):
        if kind == "plusn":
            v = ref.b2i(sig) + k.n
            sig = ref.i2b(v, max(k.rsa.k, (v.bit_length() + 7) // 8))
        elif kind == "lead0":
            sig = b"\0" * n + sig
        elif kind == "strip0":
            sig = sig.lstrip(b"\0") if sig[0] == 0 else sig[1:]
    if fam == "ES":
        cv = ref.CURVES[ref.ES[alg][0]]
        sz = cv.size
        r, s = ref.b2i(sig[:sz]), ref.b2i(sig[sz:])

        def cat(a, b, w=sz):
            if a >= 1 << (8 * w) or b >= 1 << (8 * w):
                return ref.i2b(a, max(w, (a.bit_length() + 7) // 8)) + ref.i2b(b, max(w, (b.bit_length() + 7) // 8))
            return ref.i2b(a, w) + ref.i2b(b, w)
        if kind == "swap":
            sig = cat(s, r)
        elif kind == "rplus":
            sig = cat(r + cv.n, s)
        elif kind == "splus":
            sig = cat(r, s + cv.n)
        elif kind == "negs":
            sig = cat(r, cv.n - s)      # valid by the standard
        elif kind == "r0":
            sig = cat(0, s)
        elif kind == "s0":
            sig = cat(r, 0)
        elif kind == "rn":
            sig = cat(cv.n, s)
        elif kind == "sn":
            sig = cat(r, cv.n)
        elif kind == "zeros":
            sig = b"\0" * (n * 2 % 140)
        elif kind == "padr":
            sig = b"\0" * n + sig
        elif kind == "pads":
            sig = sig[:sz] + b"\0" * n + sig[sz:]
        elif kind == "padboth":
            sig = cat(r, s, sz + n)
        elif kind == "der":
            sig = der(r, s)
        elif kind == "strip":
            a, b = ref.i2b(r), ref.i2b(s)
            sig = a + b if len(a) + len(b) < 2 * sz else sig[:-1]
        elif kind == "otherhash":
            z = ref.ecdsa_h(cv, ref.b2i(oh(msg).digest()), oh(b"").digest_size * 8)
            r, s = ref.ecdsa_sign_int(cv, z, k.d, ref.b2i(rnd[:sz]) % (cv.n - 1) + 1)
            sig = cat(r, s)
        elif kind == "split":
            sig = sig[:sz]
        elif kind == "rs1":
            sig = cat(1, 1)
        elif kind == "long":
            sig = sig + b"\0" * n
    m = si + "." + ref.b64u(sig)
    ok = verdict(m, c["key"], others_for(c), encode=c["enc"], dontcare=dontcare)
    return ["trivial"] if m == tok else [fam + ":" + kind, "accepted" if ok else "rejected"]


# --- text that never was a token
def s_junk():
    b64 = st.text(alphabet="ABab01-_", max_size=12)
    hdr = st.one_of(gen.json_value.map(ref.compact_json), st.sampled_from(
        ['{"alg":"HS256"}', '{"alg":"RS256"}', '{"alg":"ES256"}', '{"alg":"HS256","alg":"none"}', '[]', '"HS256"', '{}',
         '{"alg":"none"}', '{"alg":null}', '{"alg":["HS256"]}', '{"alg":"HS256","b64":false,"crit":["b64"]}']))
    return st.fixed_dictionaries({"tok": st.one_of(
        st.text(max_size=30), st.lists(b64, max_size=6).map(".".join),
        st.tuples(hdr.map(lambda t: ref.b64u(t.encode("utf-8"))), b64, st.one_of(st.just(""), b64, gen.hexbytes(32, 32).map(
            lambda h: ref.b64u(gen.B(h))))).map(".".join),
        hdr), "bytes": st.one_of(st.none(), gen.hexbytes(0, 30)), "keys": st.lists(gen.any_key, min_size=1, max_size=3)})


def p_junk(c):
    keys = [gen.lkey(s, private=False) for s in c["keys"]]
    v = JWS()
    t = gen.B(c["bytes"]) if c["bytes"] is not None else c["tok"]
    must_fail("junk accepted", v.verify_compact, t, keys)
    check(v.msg is None, "payload %s available after failed verification", v.msg)
    return ["trivial"] if not t else ["bytes" if c["bytes"] is not None else "text"]


def enum_bits(tier):
    """Every single-bit change of signature, payload and header of small tokens."""
    keys = {"HS256": {"t": "oct", "k": "6b6579"}, "RS256": {"t": "RSA", "i": 0}, "PS256": {"t": "RSA", "i": 3},
            "ES256": {"t": "EC", "crv": "P-256", "d": "1234567"}, "ES512": {"t": "EC", "crv": "P-521", "d": "1234567"},
            "ES384": {"t": "EC", "crv": "P-384", "d": "1234567"}, "HS384": {"t": "oct", "k": "6b6579"},
            "HS512": {"t": "oct", "k": "6b6579"}}
    for alg in ("RS384", "RS512", "PS384", "PS512"):
        keys[alg] = {"t": "RSA", "i": [i for i, k in enumerate(gen.RSA_KEYS) if gen.rsa_ok(alg, k["bits"])][0]}
    for alg, key in keys.items():
        c = {"alg": alg, "key": key, "payload": "7b7d", "rnd": "5a" * 70, "h": 0, "others": [], "enc": False}
        tok, _ = base(c)
        for p, part in enumerate(tok.split(".")):
            step = 1 if tier == "thorough" or alg.startswith("HS") else (3 if p == 2 else 2)
            for i in range(0, 8 * len(ref.unb64u(part)), step):
                yield dict(c, ops=[{"op": "bit", "p": p, "pos": i // 8, "bit": i % 8}])
        for op in [{"op": "rev"}, {"op": "rot", "n": 1}, {"op": "rot", "n": 32}, {"op": "xch", "pos": 0, "pos2": -1},
                   {"op": "xch", "pos": 3, "pos2": 4}, {"op": "addsub", "pos": 0, "pos2": 1, "v": 1}, {"op": "xor2", "pos": 0, "pos2": 1, "v": 1},
                   {"op": "addsub", "pos": -1, "pos2": -2, "v": 255}, {"op": "addsub", "pos": 5, "pos2": 20, "v": 16},
                   {"op": "xor2", "pos": 8, "pos2": 9, "v": 128}]:
            for p in range(3):
                yield dict(c, ops=[dict(op, p=p)])
        for ch in "\n\r\t =+/\0.":
            for p in range(3):
                for pos in (0, 1, 99999):
                    yield dict(c, ops=[{"op": "tins", "p": p, "pos": pos, "v": ch}])


def enum_long(tier):
    """Changes far inside (or at the very end of) long payloads and headers."""
    for alg, key in (("HS256", {"t": "oct", "k": "6b6579"}), ("HS512", {"t": "oct", "k": "6b6579"}), ("RS256", {"t": "RSA", "i": 0}),
                     ("ES256", {"t": "EC", "crv": "P-256", "d": "1234567"})):
        for part in (0, 1):
            for n in (300, 1025, 4097, 65536, 65539) + ((1 << 20,) if alg == "HS256" or tier != "quick" else ()):
                for at in (0, 1, n // 4, n // 2, n - 300, n - 65, n - 64, n - 33, n - 4, n - 1):
                    yield {"alg": alg, "key": key, "part": part, "n": n, "at": at, "how": "flip"}
                for how in ("drop", "add", "cut64", "same"):
                    yield {"alg": alg, "key": key, "part": part, "n": n, "at": 0, "how": how}


def p_long(c):
    from lib import rng
    n = c["n"]
    body = rng.fixed_bytes(b"long", 1024)
    body = (body * (n // 1024 + 1))[:n]
    fill = body.hex()[:n].encode()
    hdr = b'{"alg":"%s","fill":"' % c["alg"].encode()
    hb = hdr + fill + b'"}' if c["part"] == 0 else hdr + b'"}'
    pb = body if c["part"] == 1 else b"payload"
    k = gen.rkey(c["key"])
    si = ref.b64u(hb) + "." + ref.b64u(pb)
    sig = ref.b64u(ref.jws_sig(c["alg"], k, si.encode(), b"\x5a" * 70))
    off = len(hdr) if c["part"] == 0 else 0

    def edit(x, lo, hi):
        """the run of octets x[lo:hi] changed"""
        run = bytearray(x[lo:hi])
        if c["how"] == "flip":
            run[c["at"]] ^= 1       # hexadecimal digits stay printable
        elif c["how"] == "drop":
            del run[-1]
        elif c["how"] == "add":
            run += b"0"
        elif c["how"] == "cut64":
            del run[-64:]
        return x[:lo] + bytes(run) + x[hi:]
    h2 = edit(hb, off, off + n) if c["part"] == 0 else hb
    p2 = edit(pb, 0, n) if c["part"] == 1 else pb
    tok = ref.b64u(h2) + "." + ref.b64u(p2) + "." + sig
    key = gen.lkey(c["key"], private=False)
    v = JWS()
    if c["how"] == "same":
        check(gen.same_payload({"b": pb.hex()}, lib(v.verify_compact, tok, [key])), "other payload")
        return [c["alg"], "same"]
    e = must_fail("altered token of %d octets" % n, v.verify_compact, tok, [key])
    check(v.msg is None, "payload available after failed verification (%s)", e)
    return [c["alg"], c["how"]]


def strays(tier):
    """Characters that do not belong there, everywhere in a genuine token."""
    for alg, key in (("HS256", {"t": "oct", "k": "6b6579"}), ("ES256", {"t": "EC", "crv": "P-256", "d": "1234567"}), ("RS256", {"t": "RSA", "i": 0}))[:1 if tier == "quick" else 3]:
        for i in range(len(mutate.STRAYS)):
            yield {"alg": alg, "key": key, "payload": "7b2261223a2268656c6c6f20776f726c64227d", "rnd": "5a" * 70, "h": 2, "seq": mutate.STRAYS[i]}


def p_strays(c):
    tok, _ = base(c)
    for t in mutate.strayed(tok, c["seq"]):
        for e in (False, True):
            verdict(t, c["key"], [], encode=e)
    return [c["alg"]]


SUBTESTS = [
    Enum("single-bits", enum_bits, p_mut),
    Enum("long", enum_long, p_long),
    Enum("strays", strays, p_strays),
    Search("altered", s_mut(), p_mut, quick=2400, thorough=80000),
    Search("grafted", s_graft(), p_graft, quick=800, thorough=30000),
    Search("key-holder", s_holder(), p_holder, quick=1600, thorough=50000),
    Search("one-object", oneobj.strategy(st.sampled_from([None, None, None, 0, 1])), oneobj.run, quick=1500, thorough=60000),
    Search("junk", s_junk(), p_junk, quick=1200, thorough=40000),
]
