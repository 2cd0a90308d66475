"""C25: AES-GCM matches NIST SP 800-38D."""
from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C25"
RULE = ("Case: keys (octets or integer, special values with leading zeros), and a sequence of encryptions, decryptions (genuine or "
        "with exactly one ingredient altered), nonce repetitions and key changes on one object. Oracle: Cryptodome AES-GCM. "
        "Non-trivial: at least one encryption or decryption.")

from jwkest.aes_gcm import AES_GCM, InvalidInputException, InvalidTagException  # noqa: E402

octets = st.one_of(gen.hexbytes(0, 50), st.sampled_from([0, 1, 15, 16, 17, 31, 32, 33, 48, 64, 127, 255, 256, 257, 1000, 4097]).flatmap(
    lambda n: st.sampled_from(["00", "ff", "61", "80"]).map(lambda c: c * n)))
nonce = st.one_of(gen.hexbytes(12, 12), gen.hexbytes(12, 12), gen.hexbytes(11, 11).map(lambda h: "00" + h),
                  gen.hexbytes(8, 8).map(lambda h: "00000000" + h), gen.hexbytes(8, 8).map(lambda h: h + "ffffffff"),
                  st.sampled_from(["00" * 12, "ff" * 12, "00" * 11 + "01", "7f" + "ff" * 11, "80" + "00" * 11]))
keyhex = st.sampled_from([16, 24, 32]).flatmap(lambda n: st.one_of(
    gen.hexbytes(n, n), gen.hexbytes(n - 1, n - 1).map(lambda h: "00" + h), gen.hexbytes(n - 9, n - 9).map(lambda h: "00" * 9 + h),
    st.sampled_from(["00" * n, "ff" * n, "00" * (n - 1) + "01"])))
key = st.tuples(keyhex, st.sampled_from(["bytes", "bytes", "int"])).map(lambda t: {"k": t[0], "as": t[1]})
alteration = st.one_of(
    st.fixed_dictionaries({"what": st.sampled_from(["tag", "nonce", "ct", "aad"]), "how": st.just("flip"), "at": st.integers(0, 10**6)}),
    st.fixed_dictionaries({"what": st.sampled_from(["ct", "aad"]), "how": st.sampled_from(["cut", "add0", "add", "cuthead", "addhead"]),
                           "at": st.just(0)}),
    st.fixed_dictionaries({"what": st.sampled_from(["tag", "nonce"]), "how": st.sampled_from(["zero", "ones", "trunc8", "shift", "big"]),
                           "at": st.just(0)}),
    st.sampled_from([{"what": "swap", "how": "", "at": 0}, {"what": "key", "how": "", "at": 0}]))
op = st.one_of(
    st.fixed_dictionaries({"op": st.just("enc"), "iv": nonce, "pt": octets, "aad": octets, "same": st.sampled_from([False, False, True]),
                           "noaad": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("dec"), "iv": nonce, "pt": octets, "aad": octets}),
    st.fixed_dictionaries({"op": st.just("bad"), "iv": nonce, "pt": octets, "aad": octets, "alt": alteration}),
    st.fixed_dictionaries({"op": st.just("bad"), "iv": nonce, "pt": octets, "aad": octets, "alt": alteration}))
rekey = st.fixed_dictionaries({"op": st.just("key"), "key": key})
s_seq = st.tuples(key, st.lists(op, min_size=1, max_size=8), st.one_of(st.none(), rekey), st.lists(op, max_size=4)).map(
    lambda t: {"key": t[0], "ops": t[1] + ([t[2]] + t[3] if t[2] else [])})


def arg(k):
    """The library takes octets, or an integer: the shortest key it fits in."""
    b = gen.B(k["k"])
    if k["as"] == "int":
        i = ref.b2i(b)
        n = len(ref.i2b(i))
        if len(b) == (16 if n <= 16 else 24 if n <= 24 else 32):
            return i
    return b


def flip(b, at):
    if not b:
        return b + b"\0"
    b = bytearray(b)
    i = at % (8 * len(b))
    b[i // 8] ^= 1 << (i % 8)
    return bytes(b)


def alter(b, a):
    h = a["how"]
    if h == "flip":
        return flip(b, a["at"])
    return {"cut": b[:-1], "add0": b + b"\0", "add": b + b"\x80", "cuthead": b[1:], "addhead": b"\0" + b,
            "zero": b"\0" * len(b), "ones": b"\xff" * len(b), "trunc8": b"\0" * (len(b) - 8) + b[:8], "shift": b[1:] + b"\0",
            "big": b}[h]


def p_seq(c):
    g = lib(AES_GCM, arg(c["key"]))
    k = gen.B(c["key"]["k"])
    prev = "fresh"      # last nonce used for encryption under this key
    tags = []
    for o in c["ops"]:
        if o["op"] == "key":
            nk = gen.B(o["key"]["k"])
            lib(g.change_key, arg(o["key"]))
            # whether the nonce may be used again with the very same key is open
            prev = "fresh" if nk != k else "any"
            k = nk
            tags.append("rekey")
            continue
        iv, pt, aad = gen.B(o["iv"]), gen.B(o["pt"]), gen.B(o["aad"])
        if o["op"] == "enc":
            if o["same"] and isinstance(prev, bytes):
                iv = prev
            a = () if o["noaad"] and not aad else (aad,)
            ok, r = attempt(g.encrypt, ref.b2i(iv), pt, *a)
            if prev == iv:
                check(not ok, "nonce %s used twice in a row", iv.hex())
                check(isinstance(r, InvalidInputException), "nonce repetition: %s %s", type(r).__name__, r)
                tags.append("repeat")
                continue
            if prev == "any" and not ok:
                prev = "any"
                continue
            check(ok, "encryption fails: %s: %s", type(r).__name__, r)
            want = ref.gcm_encrypt(k, iv, aad, pt)
            check(r[0] == want[0], "ciphertext %s, expected %s", r[0].hex(), want[0].hex())
            check(r[1] == ref.b2i(want[1]), "tag %s, expected %s", hex(r[1]), want[1].hex())
            prev = iv
            tags.append("enc")
            check(lib(g.decrypt, ref.b2i(iv), r[0], r[1], *a) == pt, "decryption does not invert encryption")
            continue
        ct, tag = ref.gcm_encrypt(k, iv, aad, pt)
        if o["op"] == "dec":
            r = lib(g.decrypt, ref.b2i(iv), ct, ref.b2i(tag), aad)
            check(r == pt, "decrypted to %s, expected %s", r, pt)
            tags.append("dec")
            continue
        a = o["alt"]
        n2, c2, t2, a2 = iv, ct, tag, aad
        if a["what"] == "tag":
            t2 = alter(tag, a)
        elif a["what"] == "nonce":
            n2 = alter(iv, a)
        elif a["what"] == "ct":
            c2 = alter(ct, a)
        elif a["what"] == "aad":
            a2 = alter(aad, a)
        elif a["what"] == "swap":
            c2, a2 = aad, ct
        else:
            c2, t2 = ref.gcm_encrypt(flip(k, 3), iv, aad, pt)
        if (n2, c2, t2, a2) == (iv, ct, tag, aad) and a["how"] != "big":
            continue
        i2, j2 = ref.b2i(n2), ref.b2i(t2)
        if a["how"] == "big":
            if a["what"] == "tag":
                j2 += 1 << 128
            else:
                i2 += 1 << 96
            e = must_fail("over-long %s" % a["what"], g.decrypt, i2, c2, j2, a2)
            tags.append("big")
            continue
        e = must_fail("altered %s (%s)" % (a["what"], a["how"]), g.decrypt, i2, c2, j2, a2)
        check(isinstance(e, InvalidTagException), "altered %s: %s %s instead of the invalid-tag error", a["what"], type(e).__name__, e)
        tags.append("bad-" + a["what"])
    if not tags:
        tags.append("trivial")
    return tags


def lengths(tier):
    """All lengths of plaintext and associated data up to 2 blocks and a bit, one key each."""
    for n in (16, 24, 32):
        for la in range(0, 34 if tier == "quick" else 66, 3 if tier == "quick" else 1):
            yield {"n": n, "la": la}


def p_lengths(c):
    from lib import rng
    k = rng.fixed_bytes(b"k%d" % c["n"], c["n"])
    g = lib(AES_GCM, k)
    aad = rng.fixed_bytes(b"a", c["la"])
    for lp in range(0, 50):
        pt = rng.fixed_bytes(b"p", lp)
        iv = lp + 1
        r = lib(g.encrypt, iv, pt, aad)
        want = ref.gcm_encrypt(k, ref.i2b(iv, 12), aad, pt)
        check(r == (want[0], ref.b2i(want[1])), "lengths %s/%s: %s", lp, c["la"], r)
        check(lib(g.decrypt, iv, want[0], r[1], aad) == pt, "lengths %s/%s: decryption", lp, c["la"])
    must_fail("97-bit nonce", g.encrypt, 1 << 96, b"x", aad)
    return ["len"]


def every_bit(tier):
    """Every single bit of tag, nonce, ciphertext, associated data and key."""
    for n in (16, 24, 32):
        for bit in range(0, 128 + 96 + 8 * (5 + 4 + n)):
            yield {"n": n, "bit": bit}


def bit_objects(n, cache={}):
    from lib import rng
    if n not in cache:
        k, iv, pt, aad = [rng.fixed_bytes(b"%s%d" % (x, n), l) for x, l in ((b"k", n), (b"i", 12), (b"p", 5), (b"a", 4))]
        ct, tag = ref.gcm_encrypt(k, iv, aad, pt)
        cache[n] = (lib(AES_GCM, k), [tag, iv, ct, aad, k])
    return cache[n]


def p_bit(c):
    g, vals = bit_objects(c["n"])
    i = 8 * sum(map(len, vals))
    at, vals = c["bit"], list(vals)
    for i, v in enumerate(vals):
        if at < 8 * len(v):
            vals[i] = flip(v, at)
            break
        at -= 8 * len(v)
    tag, iv, ct, aad, k = vals
    if i == 4:
        g = lib(AES_GCM, k)
    e = must_fail("bit %s of %s altered" % (at, ["tag", "nonce", "ciphertext", "associated data", "key"][i]),
                  g.decrypt, ref.b2i(iv), ct, ref.b2i(tag), aad)
    check(isinstance(e, InvalidTagException), "%s %s instead of the invalid-tag error", type(e).__name__, e)
    return ["bit"]


def long_ones(tier):
    """Lengths around the limits of 1, 2 and 3 octets, in bits and in octets."""
    ls = [31, 32, 8191, 8192, 8193, 65535, 65536, 65537] + ([2**20, 2**21, 2**21 + 1] if tier != "quick" else [2**21])
    for n in ls:
        for what in ("pt", "aad", "both"):
            if n < 2**20 or what != "both":
                yield {"n": n, "what": what}


def p_long(c):
    k = b"0123456789abcdef"
    big = (b"text " * (c["n"] // 5 + 1))[:c["n"]]
    pt, aad = {"pt": (big, b"aad"), "aad": (b"pt", big), "both": (big, big)}[c["what"]]
    g = lib(AES_GCM, k)
    want = ref.gcm_encrypt(k, b"i" * 12, aad, pt)
    ct, tag = lib(g.encrypt, ref.b2i(b"i" * 12), pt, aad)
    check(tag == ref.b2i(want[1]), "%s octets of %s: tag %s, expected %s", c["n"], c["what"], hex(tag), want[1])
    check(ct == want[0], "%s octets of %s: other ciphertext", c["n"], c["what"])
    check(lib(g.decrypt, ref.b2i(b"i" * 12), want[0], ref.b2i(want[1]), aad) == pt, "%s octets of %s: other plaintext", c["n"], c["what"])
    return [c["what"]]


SUBTESTS = [
    Enum("long", long_ones, p_long),
    Enum("every-bit", every_bit, p_bit, exhaustive=True),
    Enum("lengths", lengths, p_lengths),
    Search("sequence", s_seq, p_seq, quick=800, thorough=25000),
]
