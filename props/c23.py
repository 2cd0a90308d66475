"""C23: elliptic-curve arithmetic obeys the group law."""
from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C23"
RULE = ("Case: points given by scalars (special ones: zero, order and neighbours, powers of two, sparse patterns, halves) in relations "
        "(equal, opposite, neutral, arbitrary), affine and projective with arbitrary scaling; or a small curve (of even or odd order, so with points of order two) on which "
        "all points, pairs and scalars are tried. Oracle: Cryptodome's curves / own affine arithmetic. All cases are non-trivial.")

from jwkest import elliptic  # noqa: E402
from jwkest.ecc import ECCException, NISTEllipticCurve, P256, P384, P521  # noqa: E402
from jwkest.jwk import ECKey  # noqa: E402

LC = {"P-256": P256, "P-384": P384, "P-521": P521}


def scalar(crv):
    n = ref.CURVES[crv].n
    b = n.bit_length()
    pat = st.tuples(st.sampled_from([0b1, 0b10, 0b11, 0b101, 0b110, 0b111, 0b1011, 0b10101, 0b1111]), st.integers(1, 6)).map(
        lambda t: sum(t[0] << (i * (t[0].bit_length() + t[1])) for i in range(b // (t[0].bit_length() + t[1]))))
    return st.one_of(
        st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 20), st.integers(-20, 20).map(lambda x: n + x),
        st.integers(0, b + 3).flatmap(lambda e: st.sampled_from([(1 << e) - 1, 1 << e, (1 << e) + 1])),
        st.integers(0, b).flatmap(lambda e: st.integers(0, b).map(lambda f: abs((1 << e) - (1 << f)))),
        pat, st.sampled_from([n // 2, n // 2 + 1, 2 * n, 2 * n + 1, 2 * n - 1, 3 * n + 5, n * n, (1 << b) - 1]),
        st.integers(0, 2**600), st.sampled_from(gen.EC_SPECIAL[crv])).map(lambda k: "%x" % k)


def pt(crv, k):
    return ref.CURVES[crv].mul(int(k, 16), ref.CURVES[crv].G)


def pcase(fn):
    return st.sampled_from(gen.CURVES).flatmap(lambda c: st.fixed_dictionaries(dict(fn(c), crv=st.just(c))))


def proj(point, z, p):
    if point is None:
        return None
    z = z % p or 1
    return (point[0] * z * z % p, point[1] * z * z * z % p, z, z * z % p, z * z * z % p)


def pars(crv):
    c = ref.CURVES[crv]
    return 3, -c.b, c.p     # y^2 = x^3 - p x - q


s_add = pcase(lambda c: {"a": scalar(c), "b": scalar(c), "rel": st.sampled_from(["any", "any", "same", "opposite", "double", "other"]),
                         "z": st.tuples(st.integers(1, 2**520), st.integers(1, 2**520)).map(lambda t: ["%x" % x for x in t])})


def eq(got, want, what, *a):
    g = None if got is None else tuple(got)
    check(g == want, what + ": %s, expected %s", *(a + (g, want)))


def p_add(c):
    crv = c["crv"]
    cv = ref.CURVES[crv]
    P = pt(crv, c["a"])
    Q = {"any": lambda: pt(crv, c["b"]), "same": lambda: P, "opposite": lambda: cv.neg(P), "double": lambda: cv.add(P, P),
         "other": lambda: cv.add(P, cv.G)}[c["rel"]]()
    want = cv.add(P, Q)
    lc = LC[crv]
    for q in {-cv.b, lc.b}:
        args = (lc.a, q, lc.p)
        eq(lib(elliptic.add, *args + (P, Q)), want, "add %s + %s", P, Q)
        eq(lib(elliptic.add, *args + (Q, P)), want, "add %s + %s", Q, P)
        for z1, z2 in ((1, 1), (1, int(c["z"][1], 16)), (int(c["z"][0], 16), int(c["z"][1], 16))):
            r = lib(elliptic.addf, *args + (proj(P, z1, cv.p), proj(Q, z2, cv.p)))
            eq(lib(elliptic.from_projective, r, cv.p), want, "addf %s + %s", P, Q)
            if r is not None:
                check(r[3] == r[2] ** 2 % cv.p and r[4] == r[2] ** 3 % cv.p, "powers of Z are inconsistent: %s", r)
        r = lib(elliptic.doublef, *args + (proj(P, int(c["z"][0], 16), cv.p),))
        eq(lib(elliptic.from_projective, r, cv.p), cv.add(P, P), "doublef %s", P)
    n = lib(elliptic.neg, P, cv.p)
    eq(n, cv.neg(P), "neg %s", P)
    eq(lib(elliptic.from_projective, lib(elliptic.neg, proj(P, 7, cv.p), cv.p), cv.p), cv.neg(P), "neg (projective) %s", P)
    eq(lib(elliptic.from_projective, lib(elliptic.to_projective, P), cv.p), P, "to and from projective %s", P)
    check(lib(elliptic.element, P, lc.a, lc.b, lc.p), "point %s not recognised as on the curve", P)
    if P:
        check(not lib(elliptic.element, (P[0], (P[1] + 1) % cv.p), lc.a, lc.b, lc.p), "point off the curve recognised")
        check(lib(lc.on_curve, P) and not lc.on_curve((P[0], (P[1] + 1) % cv.p)), "on_curve %s", P)
    return [crv, c["rel"]] + (["neutral"] if None in (P, Q, want) else [])


s_mul = pcase(lambda c: {"a": scalar(c), "k": scalar(c), "slow": st.integers(0, 9).map(lambda x: x == 0)})


def p_mul(c):
    crv = c["crv"]
    cv, lc = ref.CURVES[crv], LC[crv]
    P = pt(crv, c["a"])
    k = int(c["k"], 16)
    want = cv.mul(k, P)
    args = (lc.a, lc.b, lc.p)
    eq(lib(elliptic.mulp, *args + (P, k)), want, "%s * %s", k, P)
    r = lib(elliptic.mulf, *args + (proj(P, k + 3, cv.p), k))
    eq(lib(elliptic.from_projective, r, cv.p), want, "mulf %s * %s", k, P)
    if c["slow"]:
        eq(lib(elliptic.mul, *args + (P, k)), want, "mul %s * %s", k, P)
    if P == cv.G:
        eq(lib(lc.public_key_for, k), want, "public_key_for %s", k)
    return [crv, "neutral" if want is None else "point"]


s_muladd = pcase(lambda c: {"a": scalar(c), "b": scalar(c), "u": scalar(c), "v": scalar(c),
                            "rel": st.sampled_from(["any", "any", "any", "same", "opposite", "G", "cancel"])})


def p_muladd(c):
    crv = c["crv"]
    cv, lc = ref.CURVES[crv], LC[crv]
    a, b, u, v = [int(c[x], 16) for x in "abuv"]
    if c["rel"] == "same":
        b = a
    elif c["rel"] == "opposite":
        b = -a % cv.n
    elif c["rel"] == "G":
        a = 1
    elif c["rel"] == "cancel" and b % cv.n:
        v = -u * a * pow(b, -1, cv.n) % cv.n
    P, Q = cv.mul(a, cv.G), cv.mul(b, cv.G)
    want = cv.mul(a * u + b * v, cv.G)
    r = lib(elliptic.muladdp, lc.a, lc.b, lc.p, P, u, Q, v)
    eq(r, want, "%s * %s + %s * %s", u, P, v, Q)
    return [crv, c["rel"], "neutral" if want is None else "point"]


s_key = pcase(lambda c: {"rng": gen.rng_spec, "d": scalar(c), "e": scalar(c)})


def p_key(c):
    crv = c["crv"]
    cv = ref.CURVES[crv]
    lc = NISTEllipticCurve.by_name(crv)
    check(lc.name() == crv, "name %s", lc.name())
    d, P = lib(lc.key_pair)
    check(isinstance(d, int) and 1 <= d < cv.n, "private scalar %s", d)
    eq(P, cv.pub(d), "public point for %s", d)
    k = lib(ECKey().load_key, lc)
    check(1 <= k.d < cv.n and (k.x, k.y) == cv.pub(k.d) and k.crv == crv, "generated key %s %s %s", k.d, k.x, k.crv)
    e = int(c["e"], 16) % (cv.n - 1) + 1
    f = int(c["d"], 16) % (cv.n - 1) + 1
    E, F = cv.pub(e), cv.pub(f)
    z = ref.i2b(cv.mul(e, F)[0], cv.size)
    for name, r in (("first", lib(lc.dh_z, e, F)), ("second", lib(lc.dh_z, f, E))):
        check(r == z, "%s party's secret %s, expected %s", name, r, z)
    for T in (E, (E[0], cv.p - E[1])):
        x, s = lib(lc.compress, T)
        eq(lib(lc.uncompress, (x, s)), T, "uncompress(compress(%s))", T)
    y = cv.y_for_x((E[0] + 1) % cv.p, 0)
    if y is None:
        must_fail("uncompressing an x coordinate without point", lc.uncompress, ((E[0] + 1) % cv.p, 0))
    return [crv, "z0" if z[0] == 0 else "z"]


s_rngkey = pcase(lambda c: {"raw": st.one_of(
    st.integers(-3, 3).map(lambda x: ref.CURVES[c].n + x), st.integers(0, 3), st.just((1 << ref.CURVES[c].bits) - 1),
    st.integers(-3, 3).map(lambda x: (1 << ref.CURVES[c].bits) - 4 + x)).map(lambda v: "%x" % v)})


def p_rngkey(c):
    """The random source delivering (the octets of) boundary values."""
    from lib import rng
    crv = c["crv"]
    cv = ref.CURVES[crv]
    lc = NISTEllipticCurve.by_name(crv)
    v = int(c["raw"], 16)
    sh = -cv.bits % 8
    raws = {(v << sh) % (1 << 8 * cv.size), v % (1 << 8 * cv.size)}
    for raw in sorted(raws):
        for order in ("big", "little"):
            b = raw.to_bytes(cv.size, order)
            rng.script(b)
            try:
                d, P = lib(lc.key_pair)
            finally:
                rng.script(None)
            check(1 <= d < cv.n, "private scalar %s for random octets %s", d, b.hex())
            eq(P, cv.pub(d), "public point for %s", d)
    return [crv]


# ------------------------------------------------------------ small curves
def small_curves(limit):
    """(p, q, n): curves y^2 = x^3 - p x - q over GF(n) of order > 1."""
    for n in (7, 11, 13, 17, 19, 23, 29, 31, 37, 43):
        if n > limit:
            return
        for p in range(0, n, 1 if n < 20 else 5):
            for q in range(0, n, 1 if n < 20 else 3):
                if (4 * p ** 3 - 27 * q * q) % n == 0:
                    continue
                pts = [(x, y) for x in range(n) for y in range(n) if (x * x * x - p * x - q - y * y) % n == 0]
                if pts:
                    yield p, q, n, pts


def small(tier):
    for p, q, n, pts in small_curves(19 if tier == "quick" else 43):
        yield {"p": p, "q": q, "n": n}


def nadd(p, n, a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % n == 0:
            return None
        s = (3 * a[0] * a[0] - p) * pow(2 * a[1], -1, n)
    else:
        s = (b[1] - a[1]) * pow(b[0] - a[0], -1, n)
    x = (s * s - a[0] - b[0]) % n
    return x, (s * (a[0] - x) - a[1]) % n


def p_small(c):
    p, q, n = c["p"], c["q"], c["n"]
    pts = [None] + [(x, y) for x in range(n) for y in range(n) if (x * x * x - p * x - q - y * y) % n == 0]
    for P in pts:
        check(lib(elliptic.element, P, p, q, n), "element %s", P)
        if P:
            check(elliptic.curve_q(P[0], P[1], p, n) == q % n, "curve_q %s", P)
        eq(lib(elliptic.neg, P, n), P and (P[0], -P[1] % n), "neg %s on %s", P, c)
        for z in (1, 3):
            eq(lib(elliptic.from_projective, lib(elliptic.neg, proj(P, z, n), n), n), P and (P[0], -P[1] % n), "neg (projective) %s on %s", P, c)
            eq(lib(elliptic.from_projective, lib(elliptic.doublef, p, q, n, proj(P, z, n)), n), nadd(p, n, P, P), "doublef %s on %s", P, c)
        for Q in pts:
            want = nadd(p, n, P, Q)
            eq(lib(elliptic.add, p, q, n, P, Q), want, "add %s + %s on %s", P, Q, c)
            for z in (1, 2, n - 1):
                r = lib(elliptic.addf, p, q, n, proj(P, z, n), proj(Q, 3, n))
                eq(lib(elliptic.from_projective, r, n), want, "addf %s + %s on %s", P, Q, c)
        mult = [None]
        for k in range(1, 3 * len(pts) + 2):
            mult.append(nadd(p, n, mult[-1], P))
        for k, want in enumerate(mult):
            eq(lib(elliptic.mulp, p, q, n, P, k), want, "%s * %s on %s", k, P, c)
            eq(lib(elliptic.mul, p, q, n, P, k), want, "%s * %s (mul) on %s", k, P, c)
        for Q in (pts[::3] if n > 10 else pts):
            for u in range(0, len(pts) + 2, 2):
                for v in range(0, len(pts) + 2, 3):
                    want = None
                    for _ in range(u % len(pts)):
                        want = nadd(p, n, want, P)
                    for _ in range(v % len(pts)):
                        want = nadd(p, n, want, Q)
                    eq(lib(elliptic.muladdp, p, q, n, P, u, Q, v), want, "%s * %s + %s * %s on %s", u, P, v, Q, c)
        if P:
            check(lib(elliptic.y_from_x, P[0], p, q, n, P[1] % 2) == P[1], "y_from_x %s on %s", P, c)
    for a in range(1, n):
        i = lib(elliptic.inv, a, n)
        check(0 <= i < n and a * i % n == 1, "inv(%s, %s) = %s", a, n, i)
    return ["order%d" % len(pts)]


def names(tier):
    for n in ["P-256", "P-384", "P-521", "P-192", "P-224", "p-256", "P256", "", "secp256k1", "P-25", "P-5211"]:
        yield {"name": n}


def p_names(c):
    if c["name"] in ref.CURVES:
        cv = ref.CURVES[c["name"]]
        for x in (c["name"], c["name"].encode()):
            lc = lib(NISTEllipticCurve.by_name, x)
            check(lc.p == cv.p and lc.N == cv.n and tuple(lc.G) == cv.G and lc.bits == cv.bits and lc.bytes == cv.size,
                  "parameters of %s differ", c["name"])
            check((lc.a - 3) % cv.p == 0 and (lc.b + cv.b) % cv.p == 0, "coefficients of %s differ", c["name"])
        return []
    e = must_fail("curve %r" % c["name"], NISTEllipticCurve.by_name, c["name"])
    check(isinstance(e, ECCException), "%s %s", type(e).__name__, e)
    return []


# ------------------------------------------------------- all the domains
# standard parameters (SEC 2 / FIPS 186): p, order, b, G
STD = {192: (0xfffffffffffffffffffffffffffffffeffffffffffffffff, 0xffffffffffffffffffffffff99def836146bc9b1b4d22831,
             0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
             (0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, 0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811)),
       224: (0xffffffffffffffffffffffffffffffff000000000000000000000001, 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d,
             0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
             (0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34))}
STD.update({cv.bits: (cv.p, cv.n, cv.b, cv.G) for cv in ref.CURVES.values()})
BITS = [192, 224, 128, 160]


def wmul(p, n, k, P):
    r = None
    for b in bin(k)[2:]:
        r = nadd(p, n, r, r)
        if b == "1":
            r = nadd(p, n, r, P)
    return r


def s_dom():
    def more(bits):
        n = STD[bits][1] if bits in STD else 1 << bits
        k = st.one_of(st.integers(0, n), st.integers(0, n), st.integers(0, 9), st.integers(-4, 4).map(lambda x: n + x), st.integers(0, bits).map(lambda e: 1 << e),
                      st.integers(0, bits).map(lambda e: (1 << e) - 1)).map(lambda v: "%x" % v)
        return st.fixed_dictionaries({"bits": st.just(bits), "a": k, "b": k, "u": k, "v": k, "rel": st.sampled_from(["any", "any", "same", "opposite", "G"]),
                                      "z": st.integers(1, 1 << 200).map(lambda v: "%x" % v), "rng": gen.rng_spec})
    return st.sampled_from(BITS).flatmap(more)


def p_dom(c):
    bits = c["bits"]
    lc = lib(NISTEllipticCurve, bits)
    p, G = lc.p, tuple(lc.G)
    check(lc.bits == bits == p.bit_length() and lc.bytes == bits // 8 and all(pow(x, p - 1, p) == 1 for x in (2, 3, 5, 7, 11)), "%s: prime %s", bits, p)
    check(0 <= G[0] < p and 0 <= G[1] < p and (G[1] * G[1] - (G[0] ** 3 - lc.a * G[0] - lc.b)) % p == 0, "%s: base point %s off the curve", bits, G)
    check((lc.a - 3) % p == 0, "%s: coefficient %s", bits, lc.a)
    if bits in STD:
        check((p, lc.N, -lc.b % p, G) == STD[bits], "parameters for %s bits are not the standard ones: %s", bits, (p, lc.N, lc.b, G))
        check(wmul(3, p, lc.N, G) is None, "order")
    check(lc.name() == "P-%d" % bits, "name %s", lc.name())
    a, b, u, v, z = [int(c[x], 16) for x in ("a", "b", "u", "v", "z")]
    P = wmul(3, p, a, G)
    Q = {"any": lambda: wmul(3, p, b, G), "same": lambda: P, "opposite": lambda: P and (P[0], -P[1] % p), "G": lambda: G}[c["rel"]]()
    args = (lc.a, lc.b, p)
    want = nadd(3, p, P, Q)
    eq(lib(elliptic.add, *args + (P, Q)), want, "add %s + %s", P, Q)
    eq(lib(elliptic.from_projective, lib(elliptic.addf, *args + (proj(P, z, p), proj(Q, z + 1, p))), p), want, "addf %s + %s", P, Q)
    eq(lib(elliptic.from_projective, lib(elliptic.doublef, *args + (proj(P, z, p),)), p), nadd(3, p, P, P), "doublef %s", P)
    eq(lib(lc.public_key_for, a), P, "public_key_for %s", a)
    uP = wmul(3, p, u, P)
    eq(lib(elliptic.mulp, *args + (P, u)), uP, "%s * %s", u, P)
    eq(lib(elliptic.muladdp, *args + (P, u, Q, v)), nadd(3, p, uP, wmul(3, p, v, Q)), "%s * %s + %s * %s", u, P, v, Q)
    for T in (P, uP):
        if T:
            check(lib(lc.on_curve, T) and not lc.on_curve((T[0], (T[1] + 1) % p)), "on_curve %s", T)
            for T in (T, (T[0], -T[1] % p)):
                eq(lib(lc.uncompress, lib(lc.compress, T)), T, "uncompress(compress(%s))", T)
    if uP:
        check(lib(lc.dh_z, u, P) == ref.i2b(uP[0], bits // 8), "shared secret")
    if bits in STD:
        d, D = lib(lc.key_pair)
        check(1 <= d < lc.N, "private scalar %s", d)
        eq(D, wmul(3, p, d, G), "public point for %s", d)
    return [str(bits), c["rel"]]


def table(tier):
    for b in sorted(STD) + [128, 160]:
        yield {"bits": b}
    for b in (0, 1, 127, 129, 255, 257, 512, 520, 522, -256):
        yield {"bits": b, "unknown": True}


def p_table(c):
    from jwkest import curves
    b = c["bits"]
    if c.get("unknown"):
        must_fail("curve of %s bits" % b, NISTEllipticCurve, b)
        must_fail("curve of %s bits" % b, curves.get_curve, b)
        return []
    check(b in curves.implemented_keys() and (b in curves.implemented_keys(True)) == (b in STD), "implemented: %s", curves.implemented_keys())
    bits, p, n, a, q, G = lib(curves.get_curve, b)
    if b in STD:
        check((bits, p, n, a, -q % p, tuple(G)) == (b,) + STD[b][:2] + (3,) + STD[b][2:], "parameters of %s bits: %s", b, (p, n, a, q, G))
    else:
        check(bits == b and n is None, "parameters of %s bits", b)
    return []


SUBTESTS = [
    Enum("domains", table, p_table, exhaustive=True),
    Enum("names", names, p_names, exhaustive=True),
    Enum("small-curves", small, p_small, exhaustive=True),
    Search("add", s_add, p_add, quick=1600, thorough=100000),
    Search("mul", s_mul, p_mul, quick=1000, thorough=50000),
    Search("muladd", s_muladd, p_muladd, quick=800, thorough=35000),
    Search("other-domains", s_dom(), p_dom, quick=400, thorough=12000),
    Search("keys", s_key, p_key, quick=320, thorough=15000),
    Search("random-boundaries", s_rngkey, p_rngkey, quick=200, thorough=2000),
]
