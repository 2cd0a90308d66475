"""C10: base64url and integer codecs."""
from hypothesis import strategies as st

from lib import gen
from lib.core import Enum, Search, attempt, check, lib

ID = "C10"
RULE = ("Case: octet strings, texts over and next to the base64url alphabet (every octet value at every position of short texts, line "
        "breaks, padding and foreign characters anywhere, impossible lengths), integers (all small ones, powers of two and their "
        "neighbours, octet boundaries, random up to 8192 bits), octet arrays with leading zeros. Oracle: bit-by-bit encoder/decoder. "
        "Trivial: the empty octet string.")

import jwkest  # noqa: E402
from jwkest import BadSyntax  # noqa: E402
import jwkest.jwk  # noqa: E402

deser = getattr(jwkest.jwk, "deser", jwkest.base64url_to_long)

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def enc(b):
    """RFC 4648 section 5 without padding, bit by bit."""
    bits = "".join("{:08b}".format(x) for x in b)
    bits += "0" * (-len(bits) % 6)
    return "".join(ALPHA[int(bits[i:i + 6], 2)] for i in range(0, len(bits), 6))


def dec(t):
    """Octets, or None when it is not base64url; left over bits dropped."""
    if len(t) % 4 == 1 or any(c not in ALPHA for c in t):
        return None
    bits = "".join("{:06b}".format(ALPHA.index(c)) for c in t)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))


def octets(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


# ------------------------------------------------------------- octet strings
s_bytes = st.fixed_dictionaries({"b": st.one_of(
    gen.hexbytes(0, 70), gen.hexbytes(0, 400),
    st.tuples(st.sampled_from(["00", "ff", "fb", "3e", "fbef", "ffff3f"]), st.integers(0, 300)).map(lambda t: t[0] * t[1]),
    st.tuples(st.integers(500, 3000), gen.hexbytes(1, 7)).map(lambda t: t[1] * t[0]))})


def p_bytes(c):
    b = gen.B(c["b"])
    e = lib(jwkest.b64e, b)
    check(isinstance(e, bytes) and e == enc(b).encode(), "b64e(%s) = %s, expected %s", b, e, enc(b))
    check(lib(jwkest.b64d, e) == b, "b64d(b64e(%s)) = %s", b, lib(jwkest.b64d, e))
    v = int.from_bytes(b, "big")
    check(lib(jwkest.base64_to_long, e) == v and lib(jwkest.base64_to_long, e.decode()) == v, "base64_to_long(%s)", e)
    check(lib(jwkest.base64url_to_long, e) == v and lib(jwkest.base64url_to_long, e.decode()) == v, "base64url_to_long(%s)", e)
    arr = list(b)
    check(lib(jwkest.intarr2long, arr) == v, "intarr2long(%s)", arr)
    check(lib(jwkest.intarr2bin, arr) == b, "intarr2bin(%s)", arr)
    if b:
        check(lib(deser, e) == v and lib(deser, e.decode()) == v, "deser(%s)", e)
    return ["trivial"] if not b else ["mod%d" % (len(b) % 3)]


s_text = st.fixed_dictionaries({"t": st.one_of(gen.text_payload, st.text(max_size=200), st.integers(0, 500).map(lambda n: "\u20ac" * n))})


def p_text(c):
    t = c["t"]
    e = lib(jwkest.b64e_enc_dec, t)
    check(e == enc(t.encode("utf-8")) and isinstance(e, str), "b64e_enc_dec(%s) = %s", t, e)
    check(lib(jwkest.b64d_enc_dec, e) == t, "b64d_enc_dec(%s)", e)
    return ["text"] if t else ["trivial"]


# ------------------------------------------------------------- strictness
def strict(raw):
    """raw: octets handed to the decoders."""
    ascii_ = all(x < 128 for x in raw)
    text = raw.decode("latin-1")
    core = text.rstrip("=")         # trailing padding may be tolerated
    want = dec(core)
    ok, got = attempt(jwkest.b64d, raw)
    if ok:
        check(want is not None, "b64d(%s) accepted: %s", raw, got)
        check(got == want, "b64d(%s) = %s, expected %s", raw, got, want)
    else:
        check(isinstance(got, BadSyntax), "b64d(%s): %s instead of BadSyntax", raw, got)
        check(want is None or core != text, "b64d(%s) refused: %s", raw, got)
    # strings
    if ascii_:
        want8 = None
        if want is not None:
            try:
                want8 = want.decode("utf-8")
            except UnicodeDecodeError:
                pass
        ok, got = attempt(jwkest.b64d_enc_dec, text)
        check(ok == (want8 is not None) or core != text, "b64d_enc_dec(%s): %s", text, got)
        check(not ok or got == want8, "b64d_enc_dec(%s) = %s", text, got)
        if not ok and want is None:
            check(isinstance(got, BadSyntax), "b64d_enc_dec(%s): %s instead of BadSyntax", text, got)
    # integers: no padding at all
    wi = dec(text)
    for f in (jwkest.base64url_to_long, deser):
        for arg in [raw] + ([text] if ascii_ else []):
            ok, got = attempt(f, arg)
            if wi:
                check(ok and got == int.from_bytes(wi, "big"), "%s(%s) = %s", f.__name__, arg, got)
            elif wi is None and (f is not deser or want is None):
                check(not ok, "%s(%s) accepted: %s", f.__name__, arg, got)
                check(isinstance(got, ValueError), "%s(%s): %s instead of ValueError", f.__name__, arg, got)
    return want is None


def octet_cases(tier):
    return [{"o": o, "n": n} for o in range(256) for n in range(9)]


def p_octet(c):
    n = 0
    for pos in range(c["n"] + 1):
        for fill in (b"A", b"_", b"z9-Q"):
            base = (fill * 9)[:c["n"]]
            n += strict(base[:pos] + bytes([c["o"]]) + base[pos:])
    return ["bad" if n else "good"]


s_strict = st.fixed_dictionaries({"t": st.lists(st.one_of(
    st.text(alphabet=ALPHA, max_size=12), st.text(alphabet=ALPHA, min_size=1, max_size=4),
    st.sampled_from(["\n", "\r\n", "=", "==", "+", "/", " ", "\t", ".", "\x00", "\xe5", "~", "A\n", "===", "\x0b", "\x85", ":", "[", "`", "@", "{", ","])),
    max_size=6).map("".join)})


def p_strict(c):
    bad = strict(c["t"].encode("latin-1"))
    return ["bad" if bad else "good"]


s_uni = st.fixed_dictionaries({"t": st.one_of(
    st.tuples(st.text(alphabet=ALPHA, max_size=8), st.sampled_from(["\uff21", "\u0661", "\u00e5", "\u2028", "\u0131", "\u212a", "\ud7ff", "\U0001d400"]),
              st.text(alphabet=ALPHA, max_size=8)).map("".join))})


def p_uni(c):
    """Text outside ASCII is never base64url."""
    for f in (jwkest.b64d_enc_dec, jwkest.base64url_to_long, deser):
        ok, got = attempt(f, c["t"])
        check(not ok, "%s(%s) accepted: %s", f.__name__, c["t"], got)
    ok, got = attempt(jwkest.b64d, c["t"].encode("utf-8"))
    check(not ok and isinstance(got, BadSyntax), "b64d(%s): %s", c["t"].encode("utf-8"), got)
    return ["uni"]


# ------------------------------------------------------------- integers
def integer(v):
    o = octets(v)
    b = lib(jwkest.long_to_base64, v)
    want = enc(o or b"\0")
    check(b == want and isinstance(b, str), "long_to_base64(%s) = %s, expected %s", v, b, want)
    for f in (jwkest.base64_to_long, jwkest.base64url_to_long, deser):
        check(lib(f, b) == v, "%s(%s) = %s", f.__name__, b, lib(f, b))
        check(lib(f, b.encode()) == v, "%s(%s) = %s", f.__name__, b.encode(), lib(f, b.encode()))
    arr = list(lib(jwkest.long2intarr, v))
    check(arr == list(o) or (v == 0 and arr == [0]), "long2intarr(%s) = %s", v, arr)
    check(lib(jwkest.intarr2long, arr) == v, "intarr2long(%s)", arr)
    check(lib(jwkest.intarr2bin, arr) == (o if arr else b""), "intarr2bin(%s)", arr) if v else None
    s = lib(jwkest.long2hexseq, v)
    check(s == (o or b"\0"), "long2hexseq(%s) = %s", v, s)


def int_cases(tier):
    top = 70000 if tier == "quick" else 300000
    r = [{"lo": "%x" % i, "hi": "%x" % min(i + 500, top)} for i in range(0, top, 500)]
    for e in range(1, 4200 if tier == "quick" else 9000, 16):
        r.append({"e": e})
    return r


def p_int_range(c):
    if "e" in c:
        for e in range(c["e"], c["e"] + 16):
            for d in (-1, 0, 1):
                if e < 600 or e % 8 in (0, 1, 7):
                    integer((1 << e) + d)
        return ["powers"]
    for v in range(int(c["lo"], 16), int(c["hi"], 16)):
        integer(v)
    return ["small"]


s_int = st.fixed_dictionaries({"v": st.one_of(
    st.integers(0, 2**64), st.integers(0, 2**600), st.integers(0, 2**4200),
    st.tuples(st.integers(1, 255), st.integers(0, 1024)).map(lambda t: t[0] << (8 * t[1])),
    st.tuples(st.integers(1, 2**30), st.integers(0, 900), st.integers(0, 2**30)).map(lambda t: (t[0] << t[1]) | t[2]),
    gen.hexbytes(1, 60).map(lambda h: int(h, 16))).map(lambda v: "%x" % v), "lead": st.integers(0, 5)})


def p_int(c):
    v = int(c["v"], 16)
    integer(v)
    # leading zero octets do not count
    b = bytes(c["lead"]) + octets(v)
    if b:
        e = enc(b)
        for f in (jwkest.base64_to_long, jwkest.base64url_to_long, deser):
            check(lib(f, e) == v, "%s(%s) = %s, expected %s", f.__name__, e, lib(f, e), v)
        check(lib(jwkest.intarr2long, list(b)) == v, "intarr2long(%s)", list(b))
        check(lib(jwkest.intarr2bin, list(b)) == b, "intarr2bin(%s)", list(b))
    return ["trivial"] if not v else ["bits%d" % (v.bit_length() // 512 * 512)]


def length_cases(tier):
    return [{"n": n} for n in list(range(0, 1100)) + [4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 300001]]


def p_length(c):
    """Every length, and a foreign character or line break anywhere in it."""
    n = c["n"]
    b = (bytes(i * i % 251 for i in range(1, 1022)) * (n // 1021 + 1))[:n]
    p_bytes({"b": b.hex()}) if n < 9000 else None
    e = lib(jwkest.b64e, b)
    check(e == enc(b).encode() and lib(jwkest.b64d, e) == b, "%s octets", n)
    for at in {0, 1, 2, 3, 4, 56, 57, 63, 64, 65, 75, 76, 77, len(e) // 2, len(e) - 1, len(e)}:
        if not 0 <= at <= len(e):
            continue
        for x in (b"\n", b"\r\n", b"+", b"/", b" ", b"=A", b".", b"\x00", b"\xc3\xa5", b"\xff"):
            t = e[:at] + x + e[at:]
            ok, got = attempt(jwkest.b64d, t)
            check(not ok and isinstance(got, BadSyntax), "%s at %s of %s characters: %s", x, at, len(e), got)
        if at < len(e):
            t = e[:at] + b"+" + e[at + 1:]
            ok, got = attempt(jwkest.b64d, t)
            check(not ok and isinstance(got, BadSyntax), "+ at %s of %s characters: %s", at, len(e), got)
    for cut in range(1, 5):
        strict(e[:-cut])
        strict(e + b"A" * cut)
    return ["trivial"] if not n else []


SUBTESTS = [
    Enum("lengths", length_cases, p_length),
    Enum("every-octet", octet_cases, p_octet, exhaustive=True),
    Enum("integers", int_cases, p_int_range, exhaustive=False),
    Search("octets", s_bytes, p_bytes, 2500),
    Search("texts", s_text, p_text, 1500),
    Search("strict", s_strict, p_strict, 5000),
    Search("unicode", s_uni, p_uni, 800),
    Search("integer", s_int, p_int, 2500),
]
