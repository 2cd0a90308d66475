"""C29: digests, token hashes, key derivation from a shared secret."""
import hashlib

from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C29"
RULE = ("Case: text or octets (empty, non-ASCII, surrogate-free, long), algorithm name (known, unknown, odd). Oracle: hashlib. "
        "Trivial: none.")

from jwkest import constant_time_compare, safe_str_cmp  # noqa: E402
from jwkest.jwk import DIGEST_HASH, SYMKey, keyrep, sha256_digest, sha384_digest, sha512_digest  # noqa: E402
from jwkest.jws import left_hash  # noqa: E402

FN = {"256": sha256_digest, "384": sha384_digest, "512": sha512_digest}
text = st.one_of(gen.text_payload, st.text(max_size=200), st.integers(0, 300).map(lambda n: "\u00e5" * n),
                 st.sampled_from([55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 100000]).map(lambda n: "a" * n))
msg = st.one_of(text.map(lambda t: {"t": t}), gen.hexbytes(0, 200).map(lambda h: {"b": h}),
                st.sampled_from([0, 1, 55, 56, 64, 111, 112, 128, 5000]).map(lambda n: {"b": "ff" * n}))


def val(m):
    return (m["t"], m["t"].encode("utf-8")) if "t" in m else (gen.B(m["b"]),) * 2


def p_digest(c):
    v, b = val(c["m"])
    for n, fn in FN.items():
        want = hashlib.new("sha" + n, b).digest()
        for x in (v, b):
            check(lib(fn, x) == want, "SHA-%s of %s", n, x)
            check(lib(DIGEST_HASH["SHA-" + n], x) == want, "DIGEST_HASH SHA-%s of %s", n, x)
    return ["text" if "t" in c["m"] else "bytes"]


def p_left(c):
    v, b = val(c["m"])
    for alg in ref.JWS_ALGS:
        for x in (v, b):
            want = ref.b64u(hashlib.new("sha" + alg[2:], b).digest()[:int(alg[2:]) // 16])
            if alg.startswith("HS"):
                got = lib(left_hash, x, alg)
                check(got == want, "left hash (%s) of %s is %s, expected %s", alg, x, got, want)
                if alg == "HS256":
                    check(lib(left_hash, x) == want, "left hash by default")
            else:
                # only the HS names are documented; other names: right or nothing
                ok, got = attempt(left_hash, x, alg)
                check(not ok or got in (None, want), "left hash (%s) of %s is %s", alg, x, got)
    ok, got = attempt(left_hash, v, c["odd"])
    check(not ok or got is None, "left hash for unknown algorithm %s is %s", c["odd"], got)
    return ["text" if "t" in c["m"] else "bytes"]


ODD = ["", "none", "HS", "HS1", "HS128", "hs256", "HS257", "SHA256", "256", "HS2560", " HS256", "foo", "HS224", "MD5", "A128KW", None, 5]


def s_kek():
    return st.fixed_dictionaries({"m": st.one_of(gen.hexbytes(1, 100).map(lambda h: {"b": h}), text.filter(bool).map(lambda t: {"t": t})),
                                  "route": st.sampled_from(["key", "jwk", "jwkb", "pad"]), "odd": st.sampled_from(["", "none", "A129KW", "a128kw", "foo", "A128", "HS256 ", None])})


SIZES = {"A128KW": 16, "A192KW": 24, "A256KW": 32, "A128GCM": 16, "A256GCM": 32,
         "HS256": 32, "HS384": 48, "HS512": 64}


def derived(b, n):
    return (hashlib.sha256 if n <= 32 else hashlib.sha384 if n <= 48 else hashlib.sha512)(b).digest()[:n]


def p_kek(c):
    v, b = val(c["m"])
    r = c["route"]
    if r == "key":
        k = lib(SYMKey, key=v)
    elif r == "pad":
        import base64
        k = lib(keyrep, {"kty": "oct", "k": base64.urlsafe_b64encode(b).decode()})
    else:
        k = lib(keyrep, {"kty": "oct", "k": ref.b64u(b) if r == "jwk" else ref.b64u(b).encode()})
    for alg, n in SIZES.items():
        for _ in range(2):
            ok, got = attempt(k.encryption_key, alg=alg)
            if alg.endswith("KW"):
                check(ok, "no key encryption key for %s: %s", alg, got)
            if ok:
                check(got == derived(b, n), "%s key of %s is %s", alg, v, got)
    # the content encryption names, where supported: left-truncated SHA-2 of full length
    for alg in ref.ENCS:
        ok, got = attempt(k.encryption_key, alg=alg)
        if ok:
            n = ref.ENC_KEYLEN[alg]
            want = derived(b, n)
            check(got == want, "%s key of %s is %s, expected %s", alg, v, got, want)
    must_fail("unknown algorithm %r" % (c["odd"],), k.encryption_key, alg=c["odd"])
    return [r, "text" if "t" in c["m"] else "bytes"]


def s_cmp():
    t = st.text(max_size=20)
    return st.one_of(
        st.tuples(t, t), t.map(lambda x: (x, x)), st.tuples(t, st.integers(0, 19), st.integers(0, 20)).map(
            lambda a: (a[0], a[0][:a[1]] + chr((ord(a[0][a[1]]) ^ (1 << a[2])) % 0xd800) + a[0][a[1] + 1:]) if a[1] < len(a[0]) else (a[0], a[0] + "x")),
        st.tuples(t, t).map(lambda x: (x[0], x[0] + x[1])), t.map(lambda x: (x, x[::-1])), t.map(lambda x: (x, x[1:] + x[:1])),
        t.map(lambda x: (x, "".join(sorted(x)))), st.tuples(t, t).map(lambda x: (x[0] + x[1], x[1] + x[0]))).map(list)


def p_cmp(c):
    a, b = c
    check(lib(safe_str_cmp, a, b) is (a == b), "safe_str_cmp(%s, %s)", a, b)
    x, y = a.encode(), b.encode()
    check(lib(constant_time_compare, x, y) is (x == y), "constant_time_compare(%s, %s)", x, y)
    check(lib(constant_time_compare, y, x) is (x == y), "constant_time_compare(%s, %s)", y, x)
    if len(x) == len(y) and x:
        for i in (0, len(x) // 2, len(x) - 1):
            z = bytearray(x)
            z[i] ^= 0x80
            check(lib(constant_time_compare, x, bytes(z)) is False, "constant_time_compare(%s, %s)", x, bytes(z))
    return ["equal" if a == b else "different"]


def lengths(tier):
    for n in list(range(0, 300)) + [511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 22) + 1]:
        yield {"n": n}


def p_len(c):
    """Every length, as octets and as ASCII and non-ASCII text."""
    from lib import rng
    n = c["n"]
    raw = (rng.fixed_bytes(b"x", 1021) * (n // 1021 + 1))[:n]
    for m in ({"b": raw.hex()}, {"t": raw.hex()[:n]}, {"t": "\u00e5" * n}):
        p_digest({"m": m})
        p_left({"m": m, "odd": "foo"})
        if n:
            v, b = val(m)
            k = lib(SYMKey, key=v)
            for alg, size in SIZES.items():
                ok, got = attempt(k.encryption_key, alg=alg)
                if ok or alg.endswith("KW"):
                    check(ok and got == derived(b, size), "%s key of %s octets is %s", alg, n, got)
    return []


def differences(tier):
    for n in list(range(0, 40)) + [63, 64, 65, 128, 255, 256, 257, 1000, 70000]:
        yield {"n": n}


def p_diff(c):
    """Two texts that differ in exactly one bit of one octet, at any position."""
    from lib import rng
    n = c["n"]
    x = (rng.fixed_bytes(b"x", 1021) * (n // 1021 + 1))[:n]
    t = "".join(chr(33 + o % 90) for o in x)
    check(lib(constant_time_compare, x, bytes(bytearray(x))) is True and lib(safe_str_cmp, t, "".join(list(t))) is True, "equal ones")
    check(lib(constant_time_compare, x, x + b"\0") is False and lib(constant_time_compare, x + b"\0", x) is False, "longer")
    check(lib(safe_str_cmp, t, t + "!") is False and lib(safe_str_cmp, t + "!", t) is False, "longer")
    at = range(n) if n < 300 else [0, 1, 254, 255, 256, n // 2, n - 2, n - 1]
    for i in at:
        for b in range(8):
            z = bytearray(x)
            z[i] ^= 1 << b
            check(lib(constant_time_compare, x, bytes(z)) is False, "octet %s of %s differs", i, n)
        for ch in ("\0", "~", chr(ord(t[i]) ^ 1), chr(ord(t[i]) + 256), chr(ord(t[i]) + 65536)):
            check(lib(safe_str_cmp, t, t[:i] + ch + t[i + 1:]) is (t[i] == ch), "character %s of %s differs", i, n)
    return ["trivial"] if not n else []


SUBTESTS = [
    Enum("lengths", lengths, p_len),
    Enum("differences", differences, p_diff),
    Search("digest", st.fixed_dictionaries({"m": msg}), p_digest, quick=4000, thorough=100000),
    Search("left-hash", st.fixed_dictionaries({"m": msg, "odd": st.sampled_from(ODD)}), p_left, quick=4000, thorough=100000),
    Search("derived-key", s_kek(), p_kek, quick=4000, thorough=100000),
    Search("compare", s_cmp(), p_cmp, quick=8000, thorough=200000),
]
