"""C27: AES-CBC-HMAC authenticated encryption, RFC 7518 section 5.2."""
import hmac
import struct

from Cryptodome.Cipher import AES
from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C27"
RULE = ("Case: key of 32/48/64 octets, IV, associated data, plaintext of any length; alteration of one ingredient, or a ciphertext "
        "with a valid tag but wrong padding or length. Oracle: own RFC 7518 5.2 implementation. All cases are non-trivial.")

from jwkest.extra import VerificationFailure, aes_cbc_hmac_decrypt, aes_cbc_hmac_encrypt  # noqa: E402

key = st.sampled_from([32, 48, 64]).flatmap(lambda n: st.one_of(
    gen.hexbytes(n, n), gen.hexbytes(n - 1, n - 1).map(lambda h: "00" + h), st.sampled_from(["00" * n, "ff" * n])))
iv = st.one_of(gen.hexbytes(16, 16), st.sampled_from(["00" * 16, "ff" * 16, "00" * 15 + "01"]))
octets = st.one_of(gen.hexbytes(0, 70), st.sampled_from([0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 255, 256, 1000, 8192, 8193, 65537]).flatmap(
    lambda n: st.sampled_from(["00", "01", "10", "0f", "ff"]).map(lambda c: c * n)),
    gen.hexbytes(0, 20).map(lambda h: h + "10" * 16), gen.hexbytes(0, 20).map(lambda h: h + "01"))
base = {"key": key, "iv": iv, "aad": octets, "pt": octets}


def args(c):
    return [gen.B(c[m]) for m in ("key", "iv", "aad", "pt")]


def p_enc(c):
    k, i, a, p = args(c)
    r = lib(aes_cbc_hmac_encrypt, k, i, a, p)
    want = ref.cbc_hmac_encrypt(k, i, a, p)
    check(tuple(r) == want, "encrypted to %s, expected %s", r, want)
    check(lib(aes_cbc_hmac_decrypt, k, i, a, want[0], want[1]) == p, "decryption gives something else")
    try:
        t = a.decode("utf-8")
    except UnicodeDecodeError:
        pass
    else:
        check(lib(aes_cbc_hmac_decrypt, k, i, t, want[0], want[1]) == p, "decryption with text as associated data gives something else")
    return ["k%d" % len(k), "pt%%16=%d" % (len(p) % 16) if len(p) < 64 else "long"]


def s_alt():
    m = st.one_of(
        st.fixed_dictionaries({"what": st.sampled_from(["tag", "ct", "iv", "aad", "key"]), "how": st.just("flip"),
                               "at": st.lists(st.integers(0, 10**5), min_size=1, max_size=3, unique=True)}),
        st.fixed_dictionaries({"what": st.sampled_from(["tag", "ct", "aad"]), "how": st.sampled_from(["cut", "add", "half", "cuthead", "empty", "double", "cutblock", "dupblock"]),
                               "at": st.just([])}),
        st.fixed_dictionaries({"what": st.sampled_from(["fulltag", "swapkey", "move", "move2", "oldtag", "notag"]), "how": st.just(""), "at": st.just([])}))
    return st.fixed_dictionaries(dict(base, m=m))


def alter(b, m):
    h = m["how"]
    if h == "flip":
        b = bytearray(b or b"\0")
        for x in m["at"]:
            x %= 8 * len(b)
            b[x // 8] ^= 1 << x % 8
        return bytes(b)
    return {"cut": b[:-1], "add": b + b"\0", "half": b[:len(b) // 2], "cuthead": b[1:], "empty": b"", "double": b + b,
            "cutblock": b[:-16], "dupblock": b + b[-16:]}[h]


def p_alt(c):
    k, i, a, p = args(c)
    m = c["m"]
    ct, tag = ref.cbc_hmac_encrypt(k, i, a, p)
    h = len(k) // 2
    v = {"key": k, "iv": i, "aad": a, "ct": ct, "tag": tag}
    w = m["what"]
    full = hmac.new(k[:h], a + i + ct + struct.pack(">Q", 8 * len(a)), ref.CBC_HASH[len(k)]).digest()
    if w == "key":
        # the tag depends on the first half only
        v["key"] = alter(k[:h], m) + k[h:]
    elif w in v:
        v[w] = alter(v[w], m)
    elif w == "fulltag":
        v["tag"] = full
    elif w == "swapkey":
        v["key"] = k[h:] + k[:h]
    elif w == "move":
        # the same concatenation, cut elsewhere
        v["aad"], v["iv"], v["ct"] = a + i, ct[:16], ct[16:]
    elif w == "move2":
        if len(a) < 16:
            return ["trivial"]
        v["aad"], v["iv"], v["ct"] = a[:-16], a[-16:], i + ct
    elif w == "oldtag":
        # tag without the length of the associated data
        v["tag"] = hmac.new(k[:h], a + i + ct, ref.CBC_HASH[len(k)]).digest()[:h]
    else:
        v["tag"] = full[h:]
    if v == {"key": k, "iv": i, "aad": a, "ct": ct, "tag": tag}:
        return ["trivial"]
    e = must_fail("altered %s (%s)" % (w, m["how"]), aes_cbc_hmac_decrypt, v["key"], v["iv"], v["aad"], v["ct"], v["tag"])
    check(isinstance(e, VerificationFailure), "altered %s: %s: %s instead of the verification error", w, type(e).__name__, e)
    return [w + "-" + m["how"]]


def s_pad():
    return st.fixed_dictionaries({"key": key, "iv": iv, "aad": octets, "body": gen.hexbytes(0, 48),
                                  "n": st.one_of(st.integers(0, 20), st.integers(0, 255)), "fill": st.booleans()})


def p_pad(c):
    """Valid tag, whatever the padding: accepted iff the padding is right."""
    k, i, a, body = gen.B(c["key"]), gen.B(c["iv"]), gen.B(c["aad"]), bytearray(gen.B(c["body"]))
    body += b"\0" * (-len(body) % 16)
    n = c["n"]
    if body:
        body[-1] = n
        if c["fill"]:
            for j in range(min(n, len(body))):
                body[-1 - j] = n
    body = bytes(body)
    h = len(k) // 2
    ct = AES.new(k[h:], AES.MODE_CBC, i).encrypt(body) if body else b""
    tag = hmac.new(k[:h], a + i + ct + struct.pack(">Q", 8 * len(a)), ref.CBC_HASH[len(k)]).digest()[:h]
    try:
        want = ref.cbc_hmac_decrypt(k, i, a, ct, tag)
    except ref.RefError:
        must_fail("padding %d, %s" % (n, body.hex()), aes_cbc_hmac_decrypt, k, i, a, ct, tag)
        return ["wrong"]
    check(lib(aes_cbc_hmac_decrypt, k, i, a, ct, tag) == want, "valid padding not removed")
    return ["right"]


def lens(tier):
    for n in list(range(0, 70)) + [96, 128]:
        yield {"k": n, "iv": 16}
    for n in list(range(0, 34)) + [64]:
        for k in (32, 48, 64):
            yield {"k": k, "iv": n}


def p_lens(c):
    from lib import rng
    k, i = rng.fixed_bytes(b"k", c["k"]), rng.fixed_bytes(b"i", c["iv"])
    if c["k"] in (32, 48, 64) and c["iv"] == 16:
        for n in range(0, 65):
            p = rng.fixed_bytes(b"p", n)
            r = lib(aes_cbc_hmac_encrypt, k, i, b"aad", p)
            check(tuple(r) == ref.cbc_hmac_encrypt(k, i, b"aad", p), "plaintext of %s octets: %s", n, r)
            check(lib(aes_cbc_hmac_decrypt, k, i, b"aad", *r) == p, "plaintext of %s octets", n)
        return ["good"]
    must_fail("key of %(k)d, vector of %(iv)d octets" % c, aes_cbc_hmac_encrypt, k, i, b"aad", b"pt")
    # a tag over these very octets, under every reading of the key
    ct = b"c" * 32
    for h in {c["k"] // 2, 16, 24, 32}:
        for hn in (ref.HASHES["256"], ref.HASHES["384"], ref.HASHES["512"]):
            tag = hmac.new(k[:h], b"aad" + i + ct + struct.pack(">Q", 24), hn).digest()[:h]
            must_fail("key of %(k)d, vector of %(iv)d octets" % c, aes_cbc_hmac_decrypt, k, i, b"aad", ct, tag)
    return ["bad"]


def bits(tier):
    """Every single bit of every ingredient, for ingredients of several sizes."""
    for n in (32, 48, 64):
        for aad, pt in ((0, 0), (1, 15), (13, 16), (20, 33), (64, 64)):
            for what, size in (("tag", n // 2), ("iv", 16), ("aad", aad), ("ct", pt + 16 - pt % 16), ("key", n // 2)):
                for b in range(8 * size):
                    yield {"key": "5a" * n, "iv": "a5" * 16, "aad": "33" * aad, "pt": "cc" * pt, "m": {"what": what, "how": "flip", "at": [b]}}


def longs(tier):
    for n in (256, 1000, 8191, 8192, 8193, 65535, 65536, 65537, 1 << 20, (1 << 21) + 5):
        for k in (32, 48, 64):
            for what in ("aad", "pt"):
                yield {"n": n, "k": k, "what": what}


def p_long(c):
    from lib import rng
    n, key, iv = c["n"], rng.fixed_bytes(b"k", c["k"]), rng.fixed_bytes(b"i", 16)
    x = (rng.fixed_bytes(b"x", 1021) * (n // 1021 + 1))[:n]
    a, p = (x, b"plaintext") if c["what"] == "aad" else (b"aad", x)
    r = lib(aes_cbc_hmac_encrypt, key, iv, a, p)
    check(tuple(r) == ref.cbc_hmac_encrypt(key, iv, a, p), "%(what)s of %(n)d octets: other result" % c)
    ct, tag = r
    check(lib(aes_cbc_hmac_decrypt, key, iv, a, ct, tag) == p, "decryption gives something else")
    for at in (0, n // 3, n // 2, n - 257, n - 256, n - 129, n - 65, n - 33, n - 17, n - 16, n - 2, n - 1):
        if at < 0:
            continue
        y = bytearray(a if c["what"] == "aad" else ct)
        y[at] ^= 0x80
        y = bytes(y)
        e = must_fail("octet %d of %d altered" % (at, n), aes_cbc_hmac_decrypt, key, iv, y if c["what"] == "aad" else a, y if c["what"] == "pt" else ct, tag)
        check(isinstance(e, VerificationFailure), "%s instead of the verification error", e)
    for y in (x[:-1], x[1:], x + b"\0", x[:-16], x[:n // 2]):
        if c["what"] == "aad":
            must_fail("associated data of %d instead of %d octets" % (len(y), n), aes_cbc_hmac_decrypt, key, iv, y, ct, tag)
    for y in (ct[:-16], ct[16:], ct + ct[-16:], ct[:-1], b""):
        must_fail("ciphertext of %d instead of %d octets" % (len(y), n), aes_cbc_hmac_decrypt, key, iv, a, y, tag)
    return [c["what"]]


SUBTESTS = [
    Enum("every-bit", bits, p_alt, exhaustive=True),
    Enum("long", longs, p_long),
    Enum("lengths", lens, p_lens, exhaustive=True),
    Search("encrypt", st.fixed_dictionaries(base), p_enc, quick=6000, thorough=200000),
    Search("altered", s_alt(), p_alt, quick=12000, thorough=400000),
    Search("padding", s_pad(), p_pad, quick=5000, thorough=150000),
]
