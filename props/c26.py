"""C26: AES key wrap, RFC 3394 / RFC 5649."""
import struct

from Cryptodome.Cipher import AES
from hypothesis import strategies as st

from lib import gen, mutate, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C26"
RULE = ("Case: key-encryption key, key data of permitted and other lengths, initial value, alteration of the wrapped key (bits, "
        "truncations, extensions, block exchange) or a wrapped form built with a wrong initial value, length indicator or padding. "
        "Oracle: own RFC 3394/5649. All cases are non-trivial.")

from jwkest.aes_key_wrap import (aes_unwrap_key, aes_unwrap_key_withpad, aes_wrap_key,  # noqa: E402
                                 aes_wrap_key_withpad)

DEFIV = 0xa6a6a6a6a6a6a6a6
kek = st.sampled_from([16, 24, 32]).flatmap(lambda n: st.one_of(gen.hexbytes(n, n), st.sampled_from(["00" * n, "ff" * n])))
data8 = st.one_of(st.integers(2, 10), st.integers(2, 10), st.sampled_from([16, 31, 32, 33, 43, 64, 128])).flatmap(lambda n: st.one_of(
    gen.hexbytes(8 * n, 8 * n), st.sampled_from(["00" * 8 * n, "a6" * 8 * n])))
iv = st.one_of(st.none(), st.none(), st.integers(0, 2**64 - 1), st.sampled_from([0, 1, 2**64 - 1, 2**63]))


def kwpad(k, d, mli=None, pad=b"\0", magic=b"\xa6\x59\x59\xa6", total=None):
    """RFC 5649 wrapping (with faults on demand)."""
    n = -len(d) % 8 if total is None else total - len(d)
    p = d + pad * n
    a = magic + struct.pack(">I", len(d) if mli is None else mli)
    if len(p) == 8:
        return AES.new(k, AES.MODE_ECB).encrypt(a + p)
    return ref.aes_kw(k, p, a)


def s_wrap():
    return st.fixed_dictionaries({"kek": kek, "data": data8, "iv": iv})


def p_wrap(c):
    k, d = gen.B(c["kek"]), gen.B(c["data"])
    a = () if c["iv"] is None else (c["iv"],)
    i = DEFIV if c["iv"] is None else c["iv"]
    w = lib(aes_wrap_key, k, d, *a)
    want = ref.aes_kw(k, d, ref.i2b(i, 8))
    check(w == want, "wrapped as %s, expected %s", bytes(w).hex(), want.hex())
    check(lib(aes_unwrap_key, k, want, *a) == d, "unwrapping does not give the key data")
    if i != DEFIV:
        must_fail("unwrapping with another initial value", aes_unwrap_key, k, w)
    return ["len%d" % min(len(d) // 8, 9)] + (["iv"] if a else [])


def s_alter():
    m = st.one_of(
        st.fixed_dictionaries({"how": st.just("flip"), "bits": st.lists(st.integers(0, 10**5), min_size=1, max_size=3, unique=True)}),
        st.fixed_dictionaries({"how": st.just("cut"), "n": st.integers(1, 40)}),
        st.fixed_dictionaries({"how": st.just("cuthead"), "n": st.integers(1, 40)}),
        st.fixed_dictionaries({"how": st.just("add"), "data": gen.hexbytes(1, 24)}),
        st.fixed_dictionaries({"how": st.just("addhead"), "data": gen.hexbytes(1, 24)}),
        st.fixed_dictionaries({"how": st.just("swap"), "i": st.integers(0, 20), "j": st.integers(0, 20)}),
        st.fixed_dictionaries({"how": st.just("kek"), "bit": st.integers(0, 127)}),
        st.fixed_dictionaries({"how": st.just("random"), "data": gen.hexbytes(0, 80)}),
        st.fixed_dictionaries({"how": st.just("iv"), "bits": st.lists(st.integers(0, 63), min_size=1, max_size=3, unique=True)}),
        st.fixed_dictionaries({"how": st.just("other")}))
    pad = st.one_of(st.just(None), data8.map(lambda h: h), gen.hexbytes(1, 40))
    return st.fixed_dictionaries({"kek": kek, "data": st.one_of(data8, data8, gen.hexbytes(1, 40)), "m": m, "pad": pad.map(bool)})


def alter(w, m):
    h = m["how"]
    if h == "flip":
        b = bytearray(w)
        for x in m["bits"]:
            x %= 8 * len(b)
            b[x // 8] ^= 1 << x % 8
        return bytes(b)
    if h == "cut":
        return w[:-m["n"]]
    if h == "cuthead":
        return w[m["n"]:]
    if h == "add":
        return w + gen.B(m["data"])
    if h == "addhead":
        return gen.B(m["data"]) + w
    if h == "swap":
        bl = [w[i:i + 8] for i in range(0, len(w), 8)]
        i, j = m["i"] % len(bl), m["j"] % len(bl)
        bl[i], bl[j] = bl[j], bl[i]
        return b"".join(bl)
    return gen.B(m["data"])


def p_alter(c):
    k, d, m = gen.B(c["kek"]), gen.B(c["data"]), c["m"]
    pad = c["pad"] or len(d) % 8 != 0 or len(d) < 16
    w = kwpad(k, d) if pad else ref.aes_kw(k, d)
    fn = aes_unwrap_key_withpad if pad else aes_unwrap_key
    check(lib(fn, k, w) == d, "genuine wrapped key not unwrapped")
    k2, w2 = k, w
    if m["how"] == "kek":
        b = bytearray(k)
        b[m["bit"] // 8] ^= 1 << m["bit"] % 8
        k2 = bytes(b)
    elif m["how"] == "iv":
        a = bytearray(b"\xa6" * 8 if not pad else b"\xa6\x59\x59\xa6" + struct.pack(">I", len(d)))
        for x in m["bits"]:
            a[x // 8] ^= 1 << x % 8
        if pad:
            w2 = kwpad(k, d, magic=bytes(a[:4]), mli=struct.unpack(">I", a[4:])[0])
            p = len(d) + -len(d) % 8
            mli = struct.unpack(">I", a[4:])[0]
            if a[:4] == b"\xa6\x59\x59\xa6" and p - 8 < mli <= p and not any((d + bytes(8))[mli:p]):
                return ["trivial"]
        else:
            w2 = ref.aes_kw(k, d, bytes(a))
    elif m["how"] == "other":
        # the other variant's wrapped form
        if pad:
            if len(d) % 8 or len(d) < 16:
                return ["trivial"]
            w2 = ref.aes_kw(k, d)
        else:
            w2 = kwpad(k, d)
    else:
        w2 = alter(w, m)
    if (k2, w2) == (k, w):
        return ["trivial"]
    must_fail("%s wrapped key (%s)" % ("padded" if pad else "plain", m["how"]), fn, k2, w2)
    return [m["how"], "pad" if pad else "plain"]


def refuse(tier):
    for n in (16, 24, 32):
        for ln in list(range(0, 66)) + [100, 121, 127, 129, 255, 257]:
            yield {"kek": "0b" * n, "n": ln}
    for n in list(range(0, 40)) + [48, 64]:
        if n not in (16, 24, 32):
            yield {"kek": "0b" * n, "n": 16}


def p_refuse(c):
    k, d = gen.B(c["kek"]), bytes(range(256))[:c["n"]] + b"x" * (c["n"] - 256)
    if len(k) not in (16, 24, 32):
        for fn in (aes_wrap_key, aes_wrap_key_withpad):
            must_fail("key-encryption key of %d octets" % len(k), fn, k, d)
        for fn in (aes_unwrap_key, aes_unwrap_key_withpad):
            must_fail("key-encryption key of %d octets" % len(k), fn, k, b"x" * 24)
        return ["kek"]
    if c["n"] % 8 or c["n"] < 16:
        must_fail("key data of %d octets" % c["n"], aes_wrap_key, k, d)
    else:
        check(lib(aes_wrap_key, k, d) == ref.aes_kw(k, d), "wrapped wrongly")
    # a wrapped key of that length whose integrity check value is right
    must = c["n"] % 8 or c["n"] < 24
    ok, r = attempt(aes_unwrap_key, k, d)
    check(not ok, "random wrapped key of %s octets unwrapped", c["n"])
    if c["n"] >= 8:
        # RFC 3394 for n = 0 and n = 1 blocks, as a lenient implementation has it
        for nb in (0, 1):
            a, rr = b"\xa6" * 8, [d[:8]][:nb]
            ecb = AES.new(k, AES.MODE_ECB)
            for j in range(6):
                for i in range(nb):
                    b = ecb.encrypt(a + rr[i])
                    a, rr[i] = ref.xor(b[:8], struct.pack(">Q", nb * j + i + 1)), b[8:]
            must_fail("wrapped key with %d blocks" % nb, aes_unwrap_key, k, a + b"".join(rr))
    for x in (b"", b"\0", b"x" * 7):
        if c["n"] >= 16 and c["n"] % 8 == 0 and x:
            must_fail("wrapped key followed by %d octets" % len(x), aes_unwrap_key, k, ref.aes_kw(k, d) + x)
            must_fail("wrapped key followed by %d octets" % len(x), aes_unwrap_key_withpad, k, kwpad(k, d) + x)
    if c["n"] == 0:
        ok, r = attempt(aes_wrap_key_withpad, k, d)
        check(not ok, "empty key data wrapped to %s", r)
    else:
        w = lib(aes_wrap_key_withpad, k, d)
        check(w == kwpad(k, d), "padded: wrapped as %s, expected %s", bytes(w).hex(), kwpad(k, d).hex())
        check(lib(aes_unwrap_key_withpad, k, w) == d, "padded: unwrapping gives something else")
    return ["must" if must else "fine"]


def s_pad():
    return st.fixed_dictionaries({"kek": kek, "data": st.one_of(gen.hexbytes(1, 40), st.integers(1, 300).map(lambda n: "7f" * n),
                                                                 gen.hexbytes(0, 20).map(lambda h: h + "00"), data8)})


def p_pad(c):
    k, d = gen.B(c["kek"]), gen.B(c["data"])
    w = lib(aes_wrap_key_withpad, k, d)
    check(w == kwpad(k, d), "wrapped as %s, expected %s", bytes(w).hex(), kwpad(k, d).hex())
    check(lib(aes_unwrap_key_withpad, k, w) == d, "unwrapping gives something else")
    return ["mod%d" % (len(d) % 8)]


def s_badpad():
    return st.fixed_dictionaries({"kek": kek, "data": gen.hexbytes(1, 40), "mli": st.one_of(st.none(), st.integers(-20, 20), st.sampled_from([2**32 - 1, 2**31, 0])),
                                  "pad": st.sampled_from(["00", "01", "ff", "80"]), "extra": st.integers(0, 3)})


def p_badpad(c):
    k, d = gen.B(c["kek"]), gen.B(c["data"])
    total = len(d) + -len(d) % 8 + 8 * c["extra"]
    mli = len(d) if c["mli"] is None else len(d) + c["mli"] if abs(c["mli"]) < 100 else c["mli"]
    mli = max(mli, 0) % 2**32
    p = d + gen.B(c["pad"]) * (total - len(d))
    good = total - 8 < mli <= total and not any(p[mli:])
    w = kwpad(k, d, mli=mli, pad=gen.B(c["pad"]), total=total)
    ok, r = attempt(aes_unwrap_key_withpad, k, w)
    if good:
        check(ok and r == p[:mli], "valid padded form: %s", r)
        return ["good"]
    check(not ok, "length indicator %s for %s octets, padding %s: unwrapped to %s", mli, total, p[mli:].hex(), r)
    return ["bad"]


def every_iv_bit(tier):
    """Wrapped under an initial value that differs in one bit or octet, for
    every position."""
    for n in (16, 24, 32):
        for pad in (False, True):
            for bits in [[b] for b in range(64)] + [list(range(8 * i, 8 * i + 8)) for i in range(8)]:
                for size in (16, 32) if not pad else (8, 16, 21):
                    yield {"kek": "0f" * n, "data": "5b" * size, "m": {"how": "iv", "bits": bits}, "pad": pad}


def every_bit(tier):
    """Every single bit of the wrapped key and the key-encryption key."""
    for n in (16, 24, 32):
        for pad, size in ((False, 16), (False, 24), (True, 5), (True, 16), (True, 17)):
            p = max(size + -size % 8, 8)
            for b in range(8 * (p + 8)):
                yield {"kek": "0f" * n, "data": "5b" * size, "m": {"how": "flip", "bits": [b]}, "pad": pad}
            for b in range(128):
                yield {"kek": "0f" * n, "data": "5b" * size, "m": {"how": "kek", "bit": b}, "pad": pad}


def longs(tier):
    """Key data of many lengths (all residues, blocks, digits and octets of
    the length indicator)."""
    ns = sorted(set(range(66, 1100, 1 if tier != "quick" else 7)) | {2 ** e + d for e in range(7, 15) for d in range(-8, 9)} | {10 ** 4, 99999})
    for n in ns:
        if n < 5000 or n % 8 in (0, 1, 7) or tier != "quick":
            yield {"kek": "a7" * (16 + 8 * (n % 3)), "n": n}


def p_long(c):
    k, n = gen.B(c["kek"]), c["n"]
    d = (bytes(i * i % 251 for i in range(1, 1022)) * (n // 1021 + 1))[:n]
    want = kwpad(k, d)
    w = lib(aes_wrap_key_withpad, k, d)
    check(w == want, "%s octets wrapped wrongly", n)
    check(lib(aes_unwrap_key_withpad, k, want) == d, "%s octets unwrapped wrongly", n)
    for what, x in (("cut", want[:-8]), ("last", want[:-1] + bytes([want[-1] ^ 1])), ("first", bytes([want[0] ^ 128]) + want[1:]), ("extended", want + want[-8:]),
                    ("short indicator", kwpad(k, d, mli=n - n % 8 if n % 8 else n - 8)), ("long indicator", kwpad(k, d, mli=n + 8)),
                    ("high octets of the indicator", kwpad(k, d, mli=n + 2 ** 16)), ("other high octets of the indicator", kwpad(k, d, mli=n + 2 ** 24))):
        must_fail("padded, %s octets, %s" % (n, what), aes_unwrap_key_withpad, k, x)
    if n % 8:
        must_fail("padded, %s octets, padding" % n, aes_unwrap_key_withpad, k, kwpad(k, d, pad=b"\1"))
        must_fail("key data of %d octets" % n, aes_wrap_key, k, d)
    else:
        w = lib(aes_wrap_key, k, d)
        check(w == ref.aes_kw(k, d) and lib(aes_unwrap_key, k, w) == d, "%s octets: wrapped wrongly", n)
        for x in (w[:-8], w[:-1] + bytes([w[-1] ^ 1]), w + w[-8:], w[8:]):
            must_fail("plain, %s octets" % n, aes_unwrap_key, k, x)
    return ["mod%d" % (n % 8)]


SUBTESTS = [
    Enum("long", longs, p_long),
    Enum("every-iv-bit", every_iv_bit, p_alter, exhaustive=True),
    Enum("every-bit", every_bit, p_alter, exhaustive=True),
    Enum("lengths", refuse, p_refuse, exhaustive=True),
    Search("wrap", s_wrap(), p_wrap, quick=3000, thorough=100000),
    Search("padded", s_pad(), p_pad, quick=3000, thorough=100000),
    Search("altered", s_alter(), p_alter, quick=8000, thorough=300000),
    Search("bad-padding", s_badpad(), p_badpad, quick=3000, thorough=100000),
]
