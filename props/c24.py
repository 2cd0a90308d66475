"""C24: the ECDSA primitive."""
from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C24"
RULE = ("Case: curve, hash integer (0, order and neighbours, all ones, longer than the order), private scalar, nonce; signature values "
        "in and out of range, of any length, constructed so that the two products are equal, opposite or neutral, or so that the nonce point's x is not below the order. Oracle: textbook "
        "ECDSA over Cryptodome's points. All cases are non-trivial.")

from jwkest.ecc import NISTEllipticCurve  # noqa: E402


def hashint(crv):
    """Hash integers; longer than the order only with the top bit set, as
    an integer does not tell the length of the hash otherwise."""
    n = ref.CURVES[crv].n
    b = n.bit_length()
    return st.one_of(
        st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, (1 << b) - 1), st.integers(-3, 3).map(lambda x: n + x),
        st.integers(0, 5), st.sampled_from([(1 << b) - 1, (1 << b) - 2, 1 << (b - 1), 1 << (b - 2)]),
        st.integers(0, b - 1).map(lambda e: 1 << e),
        st.sampled_from([512, 384, 528, 1024, 527, 385]).flatmap(lambda m: st.integers(0, (1 << (m - 1)) - 1).map(lambda v: v | 1 << (m - 1))),
        st.integers(1, 80).flatmap(lambda e: st.integers(0, (1 << (b + e - 1)) - 1).map(lambda v: v | 1 << (b + e - 1))))


def trunc(crv, h):
    return ref.ecdsa_h(ref.CURVES[crv], h, h.bit_length())


def one(fn):
    return st.sampled_from(gen.CURVES).flatmap(lambda c: st.fixed_dictionaries(dict(fn(c), crv=st.just(c))))


hx = lambda s: s.map(lambda v: "%x" % v)
s_sign = one(lambda c: {"h": hx(hashint(c)), "d": hx(gen.ec_scalar(c)), "k": st.one_of(st.none(), hx(gen.ec_scalar(c)), hx(gen.ec_scalar(c))),
                        "rng": gen.rng_spec, "zero": st.sampled_from([False] * 9 + [True]),
                        "up": st.sampled_from([0] * 8 + [1, 2])})


def p_sign(c):
    crv = c["crv"]
    cv, lc = ref.CURVES[crv], NISTEllipticCurve.by_name(crv)
    h, d = int(c["h"], 16), int(c["d"], 16)
    k = int(c["k"], 16) if c["k"] else None
    if c["zero"] and k:
        # a hash for which s would be zero: another nonce has to be taken
        h = -(cv.mul(k, cv.G)[0] % cv.n) * d % cv.n
    z = trunc(crv, h)
    if k and c.get("up"):
        # a nonce not below the order: refused, or as its residue
        ok, sig = attempt(lc.sign, h, d, k + c["up"] * cv.n)
        if not ok:
            return [crv, "nonce refused"]
    else:
        sig = lib(lc.sign, h, d, k) if k else lib(lc.sign, h, d)
    check(isinstance(sig, bytes) and len(sig) == 2 * cv.size, "signature of %s octets", len(sig))
    r, s = ref.b2i(sig[:cv.size]), ref.b2i(sig[cv.size:])
    want = ref.ecdsa_sign_int(cv, z, d, k) if k else None
    if want:
        check((r, s) == want, "hash %s: (r, s) = %s, expected %s", h, (r, s), want)
    check(ref.ecdsa_verify_int(cv, z, r, s, cv.pub(d)), "hash %s: signature %s does not verify", h, sig.hex())
    check(lib(lc.verify, h, sig, cv.pub(d)) is True, "own signature for hash %s not accepted", h)
    return [crv, "nonce" if want else "redraw" if k else "random", "long" if h >> cv.n.bit_length() else "short"]


def rs(crv):
    n = ref.CURVES[crv].n
    return st.one_of(st.integers(1, n - 1), st.sampled_from([0, 1, 2, n - 1, n, n + 1, 2 * n, (1 << 8 * ref.CURVES[crv].size) - 1, n // 2]),
                     st.integers(0, (1 << 8 * ref.CURVES[crv].size) - 1))


s_verify = one(lambda c: {"h": hx(hashint(c)), "d": hx(gen.ec_scalar(c)), "k": hx(gen.ec_scalar(c)), "r": hx(rs(c)), "s": hx(rs(c)),
                          "e": hx(st.integers(1, 2**520)),
                          "how": st.sampled_from(["genuine", "genuine", "negs", "r", "s", "rs", "rn", "sn", "flip", "hash", "key", "hashn", "lowbits",
                                                  "equal", "neutral", "forge", "opposite", "swap", "zero-h", "negkey"])})


def p_verify(c):
    crv, how = c["crv"], c["how"]
    cv, lc = ref.CURVES[crv], NISTEllipticCurve.by_name(crv)
    n = cv.n
    h, d, k, e = int(c["h"], 16), int(c["d"], 16), int(c["k"], 16), int(c["e"], 16)
    if how == "zero-h":
        h = 0
    pub = cv.pub(d)
    z = trunc(crv, h)
    r, s = ref.ecdsa_sign_int(cv, z, d, k) or (1, 1)
    if how == "negs":
        s = n - s
    elif how == "r":
        r = int(c["r"], 16)
    elif how == "s":
        s = int(c["s"], 16)
    elif how == "rs":
        r, s = int(c["r"], 16), int(c["s"], 16)
    elif how == "rn":
        r += n
    elif how == "sn":
        s += n
    elif how == "flip":
        b = 1 << e % (16 * cv.size)
        if e % (16 * cv.size) < 8 * cv.size:
            s ^= b
        else:
            r ^= 1 << (e % (8 * cv.size))
    elif how == "hash":
        h ^= 1 << e % max(h.bit_length(), 1)
    elif how == "hashn":
        h = z + n
        if h.bit_length() > n.bit_length():
            h = z
    elif how == "lowbits" and h.bit_length() > n.bit_length():
        h ^= 1
    elif how == "key":
        pub = cv.pub(e % (n - 1) + 1)
    elif how == "negkey":
        pub = cv.neg(pub)
    elif how == "swap":
        r, s = s, r
    elif how in ("equal", "neutral", "opposite"):
        # u1 G == u2 Q (doubling), u1 G == -u2 Q (sum is neutral)
        h = (r * d if how == "equal" else -r * d) % n
        s = int(c["s"], 16) % n or 1
    elif how == "forge":
        # r = (a G + b Q).x, s = r / b, h = a s: valid without knowing d
        a, b = e % n, k
        R = cv.add(cv.mul(a, cv.G), cv.mul(b, pub))
        if R is not None:
            r = R[0] % n
            s = r * pow(b, -1, n) % n
            h = a * s % n
    z = trunc(crv, h)
    size = cv.size
    if r >> 8 * size or s >> 8 * size:
        return ["trivial"]
    sig = ref.i2b(r, size) + ref.i2b(s, size)
    want = ref.ecdsa_verify_int(cv, z, r, s, pub)
    ok, got = attempt(lc.verify, h, sig, pub)
    check(ok, "verification fails with %s: %s", type(got).__name__, got)
    check(bool(got) == want, "hash %s, signature %s, point %s: verification says %s, the standard %s", h, sig.hex(), pub, got, want)
    return [crv, how, "valid" if want else "invalid"]


s_wrap = one(lambda c: {"h": hx(hashint(c)), "s": hx(gen.ec_scalar(c)), "odd": st.integers(0, 1),
                        "i": hx(st.one_of(st.integers(0, 300), st.integers(0, ref.CURVES[c].p - ref.CURVES[c].n - 1000)))})


def p_wrap(c):
    """Valid signatures whose nonce point has x not below the order: the
    key is made from the point, r = x - order."""
    crv = c["crv"]
    cv, lc = ref.CURVES[crv], NISTEllipticCurve.by_name(crv)
    n = cv.n
    h, s = int(c["h"], 16), int(c["s"], 16)
    x = n + int(c["i"], 16)
    while cv.y_for_x(x, c["odd"]) is None or x == n:
        x += 1
    if x >= cv.p:
        return ["trivial"]
    R = (x, cv.y_for_x(x, c["odd"]))
    r = x - n
    z = trunc(crv, h)
    pub = cv.mul(pow(r, -1, n), cv.add(cv.mul(s, R), cv.neg(cv.mul(z, cv.G))))
    if pub is None:
        return ["trivial"]
    want = ref.ecdsa_verify_int(cv, z, r, s, pub)
    check(want, "reference does not accept its construction")
    sig = ref.i2b(r, cv.size) + ref.i2b(s, cv.size)
    ok, got = attempt(lc.verify, h, sig, pub)
    check(ok and got, "valid signature whose nonce point has x = order + %s rejected: %s", r, got)
    if ref.ecdsa_verify_int(cv, z, r + 1, s, pub) is False:
        ok, got = attempt(lc.verify, h, ref.i2b(r + 1, cv.size) + ref.i2b(s, cv.size), pub)
        check(not ok or not got, "signature with another r accepted")
    return [crv]


s_len = one(lambda c: {"h": hx(hashint(c)), "d": hx(gen.ec_scalar(c)), "k": hx(gen.ec_scalar(c)), "x": gen.hexbytes(1, 8),
                       "how": st.sampled_from(["cut", "cuthead", "add", "addhead", "padr", "pads", "padboth", "strip", "empty", "double", "half", "other", "der"])})


def p_len(c):
    crv, how = c["crv"], c["how"]
    cv, lc = ref.CURVES[crv], NISTEllipticCurve.by_name(crv)
    h, d, k = int(c["h"], 16), int(c["d"], 16), int(c["k"], 16)
    r, s = ref.ecdsa_sign_int(cv, trunc(crv, h), d, k) or (1, 1)
    R, S = ref.i2b(r, cv.size), ref.i2b(s, cv.size)
    sig = R + S
    x = gen.B(c["x"])
    bad = {"cut": sig[:-1], "cuthead": sig[1:], "add": sig + x, "addhead": x + sig, "padr": b"\0" + sig, "pads": R + b"\0" + S,
           "padboth": b"\0" + R + b"\0" + S, "strip": R.lstrip(b"\0") + S.lstrip(b"\0"), "empty": b"", "double": sig + sig,
           "half": R, "other": b"\0" * len(x) + R + b"\0" * len(x) + S,
           "der": b"\x30" + bytes([4 + len(R) + len(S)]) + b"\x02" + bytes([len(R)]) + R + b"\x02" + bytes([len(S)]) + S}[how]
    if len(bad) == len(sig):
        return ["trivial"]
    ok, got = attempt(lc.verify, h, bad, cv.pub(d))
    check(not ok or not got, "signature of %s octets (%s) accepted: %s", len(bad), how, bad.hex())
    return [crv, how]


def every_bit(tier):
    """Every single bit of signature and hash."""
    for crv in gen.CURVES:
        size = ref.CURVES[crv].size
        base = {"crv": crv, "h": "a5" * size if crv != "P-521" else "1" + "a5" * 65, "d": "123456789abcdef", "k": "fedcba987654321", "r": "1", "s": "1"}
        step = 1 if tier != "quick" or crv == "P-256" else 3
        for b in range(0, 16 * size, step):
            yield dict(base, how="flip", e="%x" % (b or 16 * size))
        for b in range(0, int(base["h"], 16).bit_length(), 2 * step):
            yield dict(base, how="hash", e="%x" % (b or int(base["h"], 16).bit_length()))


def edges(tier):
    for crv in gen.CURVES:
        for i in range(len(ref.CURVES[crv].edges())):
            for a, b in ((1, 1), (5, 7), (123456789 << 90, 987654321 << 100 | 1)) + (((1 << 250) - 3, (1 << 249) - 7),) * (tier != "quick"):
                yield {"crv": crv, "i": i, "a": a, "b": b}


def p_edges(c):
    """Public keys with extreme x coordinates (private key unknown), forged
    valid signatures; and nonce points with extreme coordinates."""
    crv = c["crv"]
    cv, lc = ref.CURVES[crv], NISTEllipticCurve.by_name(crv)
    n = cv.n
    Q = cv.edges()[c["i"]]
    a, b = c["a"], c["b"]
    check(lib(lc.on_curve, Q), "%s not on %s", Q, crv)
    R = cv.add(cv.mul(a, cv.G), cv.mul(b, Q))
    r = R[0] % n
    s = r * pow(b, -1, n) % n
    h = a * s % n
    cases = [(h, r, s, Q), (h + 1, r, s, Q), (h, r, n - s, Q), (h, r, s, cv.neg(Q))]
    # the extreme point as the point of the nonce
    r, s = Q[0] % n, b % n
    if r:
        cases.append((a, r, s, cv.mul(pow(r, -1, n), cv.add(cv.mul(s, Q), cv.neg(cv.mul(a, cv.G))))))
    for h, r, s, pub in cases:
        want = ref.ecdsa_verify_int(cv, trunc(crv, h), r, s, pub)
        ok, got = attempt(lc.verify, h, ref.i2b(r, cv.size) + ref.i2b(s, cv.size), pub)
        check(ok and bool(got) == want, "hash %s, r %s, s %s, point %s: verification says %s, the standard %s", h, r, s, pub, got, want)
    return [crv]


SUBTESTS = [
    Enum("extreme-points", edges, p_edges),
    Enum("every-bit", every_bit, p_verify),
    Search("sign", s_sign, p_sign, quick=1000, thorough=30000),
    Search("verify", s_verify, p_verify, quick=1800, thorough=60000),
    Search("wrapped-r", s_wrap, p_wrap, quick=300, thorough=10000),
    Search("length", s_len, p_len, quick=1200, thorough=40000),
]
