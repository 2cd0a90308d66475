"""C12: private key material never leaves through public representations."""
import json

from hypothesis import strategies as st

from lib import gen, ref, routes
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C12"
RULE = ("Case: an RSA or EC private key from any import route (or generated by the library), a history of up to 6 uses (sign, verify, "
        "encrypt, decrypt, exports, hashing, key-set operations, failing operations), then every public output. Oracle: outputs parsed "
        "and scanned for private members and for the private numbers in decimal, hex, base64(url), octets; public copies used against "
        "the independent reference. Trivial: EC private value below 64 bits (only the structural scan applies).")

from jwkest.ecc import P256, P384, P521  # noqa: E402
from jwkest.jwe import JWE  # noqa: E402
from jwkest.jwk import KEYS, ECKey, make_public_copy  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

NAMES = {"d", "p", "q", "dp", "dq", "di", "qi", "oth", "k"}


def secrets_of(k):
    """The private numbers of the key, from the key object itself for a
    generated key."""
    r = []
    if k["kty"] == "RSA":
        r = [k["d"], k["p"], k["q"], k["d"] % (k["p"] - 1), k["d"] % (k["q"] - 1), pow(k["q"], -1, k["p"]), pow(k["p"], -1, k["q"])]
    else:
        r = [k["d"]]
    return [v for v in r if v.bit_length() >= 64]


def needles(vals, width):
    import base64
    out = set()
    for v in vals:
        o = ref.i2b(v)
        for b in (o, ref.i2b(v, max(width, len(o)))):
            out |= {b.hex(), base64.b64encode(b).decode().rstrip("="), ref.b64u(b)}
        out |= {str(v), "%x" % v, "%X" % v}
    return out


class Scan(object):
    def __init__(self, nums, width):
        self.vals = set(secrets_of(nums))
        self.small = nums["d"]
        self.needles = needles(self.vals, width)
        self.octets = {ref.i2b(v) for v in self.vals}

    def value(self, what, v, jwk=False):
        """Any Python value made of plain data."""
        if isinstance(v, bool) or v is None:
            return
        if isinstance(v, int):
            check(v not in self.vals, "%s contains a private number", what)
        elif isinstance(v, (bytes, bytearray)):
            for o in self.octets:
                check(o not in bytes(v), "%s contains private octets", what)
            try:
                self.value(what, bytes(v).decode("ascii"))
            except UnicodeDecodeError:
                pass
        elif isinstance(v, str):
            for n in self.needles:
                check(n not in v, "%s contains a private value", what)
        elif isinstance(v, dict):
            if jwk or "kty" in v:
                check(not NAMES & set(v), "%s has private members %s", what, sorted(NAMES & set(v)))
            for a, b in v.items():
                self.value(what, a)
                self.value(what + "." + str(a)[:20], b)
        elif isinstance(v, (list, tuple, set)):
            for i in v:
                self.value(what, i)
        else:
            check(False, "%s contains an unexpected object %s", what, type(v))

    def text(self, what, t):
        self.value(what, t)
        self.value(what, json.loads(t))


def walk(v, depth=6):
    """Plain data within an object."""
    if depth == 0 or v is None or isinstance(v, (bool, int, str, bytes)):
        return v if not isinstance(v, type) else None
    if isinstance(v, dict):
        return [[str(k), walk(x, depth - 1)] for k, x in v.items()]
    if isinstance(v, (list, tuple, set)):
        return [walk(x, depth - 1) for x in v]
    r = {}
    if hasattr(v, "__dict__"):
        r.update({str(k): walk(x, depth - 1) for k, x in vars(v).items()})
    if type(v).__name__ == "Integer" or type(v).__name__.startswith("Integer"):
        return int(v)
    for s in getattr(type(v), "__slots__", ()):
        r[s] = walk(getattr(v, s, None), depth - 1)
    return [[a, b] for a, b in r.items()]


OPS = ["sign", "sign-jwk", "sign-json", "verify", "encrypt", "encrypt-jwk", "decrypt", "fail-decrypt", "fail-verify", "private-export", "to_dict",
       "str", "hash", "thumbprint", "add_kid", "eq", "keyset", "copy", "verify()", "deserialize", "epk", "headers", "inactive"]


def nums_of(c, k):
    if c.get("gen"):
        return {"kty": "EC", "d": k.d, "crv": k.crv, "x": k.x, "y": k.y}
    if c["key"]["t"] == "RSA":
        return dict(gen.RSA_KEYS[c["key"]["i"]], kty="RSA")
    x, y = gen._ecpub(c["key"]["crv"], c["key"]["d"])
    return {"kty": "EC", "d": int(c["key"]["d"], 16), "crv": c["key"]["crv"], "x": x, "y": y}


def sigalg(nums):
    return "RS256" if nums["kty"] == "RSA" else {v[0]: a for a, v in ref.ES.items()}[nums["crv"]]


def header(tok):
    return json.loads(ref.unb64u(tok.split(".")[0]))


def token_headers(scan, what, tok):
    h = header(tok)
    scan.value(what + " header", h)
    if isinstance(h.get("jwk"), dict):
        scan.value(what + " header jwk", h["jwk"], jwk=True)
    if isinstance(h.get("epk"), dict):
        scan.value(what + " header epk", h["epk"], jwk=True)
    return h


def do(op, k, nums, scan, ks):
    alg = sigalg(nums)
    ealg = "RSA-OAEP" if nums["kty"] == "RSA" else "ECDH-ES+A128KW"
    enc = "A128CBC-HS256"
    rkey = ref.RKey(**{m: v for m, v in nums.items() if m != "bits"})
    if op == "sign":
        ok, t = attempt(JWS("x", alg=alg).sign_compact, [k])
        if ok:
            token_headers(scan, "JWS", t)
    elif op == "sign-jwk":
        for how in (k, k.serialize(True), json.dumps(k.serialize(True))):
            ok, t = attempt(lambda: JWS("x", alg=alg, jwk=how).sign_compact())
            if ok:
                token_headers(scan, "JWS with jwk", t)
    elif op == "sign-json":
        for flat in (True, False):
            ok, t = attempt(JWS("x", alg=alg, jwk=k).sign_json, [k], flatten=flat)
            if ok:
                scan.text("JSON JWS", t)
                d = json.loads(t)
                for s in d.get("signatures", [d]):
                    scan.value("JSON JWS header", json.loads(ref.unb64u(s["protected"])))
    elif op in ("verify", "fail-verify"):
        t = ref.jws_sign('{"alg": "%s"}' % alg, b"payload", rkey, alg, b"\5" * 80)
        if op != "verify":
            t = t[:-8] + ("AAAAAAAA" if t[-8:] != "AAAAAAAA" else "BBBBBBBB")
        attempt(JWS().verify_compact, t, [k])
    elif op in ("encrypt", "encrypt-jwk"):
        ways = [{}] if op == "encrypt" else [{"jwk": k}, {"jwk": k.serialize(True)}, {"jwk": json.dumps(k.serialize(True))}]
        for kw in ways:
            for keys in ([k], None):
                ok, t = attempt(lambda: JWE(b"x", alg=ealg, enc=enc, **kw).encrypt(keys))
                if ok:
                    token_headers(scan, "JWE", t)
    elif op == "epk":
        if nums["kty"] == "EC":
            for e in (k, k.serialize(True)):
                ok, t = attempt(lambda: JWE(b"x", alg=ealg, enc=enc, epk=e).encrypt([k]))
                if ok:
                    token_headers(scan, "JWE with epk", t)
    elif op == "headers":
        for how in (k, k.serialize(True), json.dumps(k.serialize(True))):
            for cl in (JWS, JWE):
                ok, h = attempt(lambda: cl("x", alg="RS256", jwk=how).headers())
                if ok:
                    scan.value("headers()", h)
                    scan.value("headers() jwk", h["jwk"], jwk=True)
        ok, h = attempt(lambda: JWS("x", alg="RS256").headers(extra={"jwk": k}))
        if ok:
            scan.value("headers(extra) jwk", h["jwk"], jwk=True)
    elif op in ("decrypt", "fail-decrypt"):
        t = ref.jwe_make({"alg": ealg, "enc": enc}, b"other", rkey, b"\1" * 32, b"\2" * 16, b"\3" * 200, eph_d=12345)
        if op != "decrypt":
            t = t[:-8] + ("AAAAAAAA" if t[-8:] != "AAAAAAAA" else "BBBBBBBB")
        attempt(JWE().decrypt, t, [k])
    elif op == "private-export":
        attempt(k.serialize, True)
        attempt(k.serialize, private=True)
    elif op == "to_dict":
        attempt(k.to_dict)
        attempt(k.keys)
    elif op == "str":
        attempt(str, k)
    elif op == "hash":
        attempt(hash, k)
    elif op == "thumbprint":
        attempt(k.thumbprint, "SHA-384")
    elif op == "add_kid":
        lib(k.add_kid)
    elif op == "eq":
        attempt(lambda: k == make_public_copy(k))
    elif op == "copy":
        attempt(make_public_copy, k)
    elif op == "verify()":
        attempt(k.verify)
    elif op == "deserialize":
        attempt(k.deserialize)
    elif op == "inactive":
        k.inactive_since = 1500000000
    elif op == "keyset":
        ks.append(k)
        outputs(scan, k, ks)


def outputs(scan, k, ks):
    """Every public representation of the key and of key sets."""
    for what, v in (("serialize()", lib(k.serialize)), ("serialize(False)", lib(k.serialize, False)),
                    ("serialize(private=False)", lib(k.serialize, private=False))):
        scan.value(what, v, jwk=True)
    for what, f in (("dump_jwks", ks.dump_jwks), ("str(KEYS)", lambda: str(ks)), ("repr(KEYS)", lambda: repr(ks)), ("format", lambda: "%s" % ks)):
        t = lib(f)
        scan.text(what, t)
        for d in json.loads(t)["keys"]:
            scan.value(what, d, jwk=True)
    scan.value("kids", ks.kids())
    scan.value("key_types", ks.key_types())


def copies(c, scan, k, nums):
    """Public copies are working public keys and nothing more."""
    p = lib(make_public_copy, k)
    check(p is not k and type(p) is type(k), "public copy is a %s", type(p))
    check(gen.same(lib(p.serialize), lib(k.serialize)), "public copy exports %s, the key %s", p.serialize(), k.serialize())
    scan.value("serialize(True) of a public copy", lib(p.serialize, True), jwk=True)
    scan.value("to_dict of a public copy", lib(p.to_dict), jwk=True)
    scan.value("text form of a public copy", lib(str, p))
    scan.value("state of a public copy", walk(p))
    check(lib(lambda: p == k) and lib(lambda: k == p), "a public copy is not equal to the key")
    must_fail("private value of a public copy", lambda: {"RSA": lambda: p.key.d, "EC": lambda: p.get_key(private=True)}[nums["kty"]]())
    if nums["kty"] == "EC":
        must_fail("decryption key of a public copy", p.decryption_key)
        check(not p.d, "private value in a public copy")
    else:
        check(not p.key.has_private() and not (p.d or p.p or p.q), "private parts in a public copy")
    how = c["check"]
    if not how:
        return
    alg = sigalg(nums)
    ealg = "RSA-OAEP" if nums["kty"] == "RSA" else "ECDH-ES+A128KW"
    rkey = ref.RKey(**{m: v for m, v in nums.items() if m != "bits"})
    p2 = lib(make_public_copy, p) if c["twice"] else p
    for x in (k, p2):
        x.alg = x.use = x.kid = ""
    if how == "sign":
        t = lib(JWS("x", alg=alg).sign_compact, [k])
        check(lib(JWS().verify_compact, t, [p2]) == "x", "a public copy does not verify")
        t = ref.jws_sign('{"alg": "%s"}' % alg, b"payload", rkey, alg, b"\5" * 80)
        check(lib(JWS().verify_compact, t, [p2]) == "payload", "a public copy does not verify")
        must_fail("signing with a public copy", JWS("x", alg=alg).sign_compact, [p2])
    else:
        t = lib(JWE(b"x", alg=ealg, enc="A128CBC-HS256").encrypt, [p2])
        check(ref.jwe_open(t, rkey)[1] == b"x", "wrong plaintext")
        must_fail("decrypting with a public copy", JWE().decrypt, t, [p2])
        check(lib(JWE().decrypt, t, [k]) == b"x", "the key itself does not decrypt")


def p_history(c):
    if c.get("gen"):
        k = lib(lambda: ECKey(**c["meta"]).load_key({"P-256": P256, "P-384": P384, "P-521": P521}[c["gen"]]))
    else:
        k = routes.make(c)
    nums = nums_of(c, k)
    width = ref.CURVES[nums["crv"]].size if nums["kty"] == "EC" else 0
    scan = Scan(nums, width)
    ks = KEYS()
    ks.append(k)
    if c["other"]:
        other = lib(make_public_copy, k)
        ks.append(other)
    for op in c["ops"]:
        do(op, k, nums, scan, ks)
        outputs(scan, k, ks)
    outputs(scan, k, ks)
    copies(c, scan, k, nums)
    return [nums["kty"]] + c["ops"] + ([c["check"]] if c["check"] else []) + ([] if scan.vals else ["trivial"])


def s_history():
    asym = st.one_of(gen.rsa_spec(), gen.ec_spec())
    base = st.one_of(*[routes.strategy(asym).filter(lambda c: c["private"])] * 4 + [
        st.fixed_dictionaries({"gen": st.sampled_from(gen.CURVES), "meta": st.fixed_dictionaries({"kid": gen.opt_kid}), "rng": gen.rng_spec})])
    return st.tuples(base, st.lists(st.sampled_from(OPS), max_size=6), st.sampled_from([None, "sign", "encrypt"]), st.booleans(), st.booleans()).map(
        lambda t: dict(t[0], ops=t[1], check=t[2], twice=t[3], other=t[4]))


def keysets():
    """Dumps of key sets holding many private keys."""
    return st.lists(routes.strategy(st.one_of(gen.rsa_spec(), gen.ec_spec())), min_size=1, max_size=5).map(lambda l: {"keys": l})


def p_keyset(c):
    ks = KEYS()
    scans = []
    for k in c["keys"]:
        o = routes.make(k)
        ks.append(o)
        if k["private"]:
            scans.append((Scan(nums_of(k, o), 66), o))
    for s, o in scans:
        outputs(s, o, ks)
    return [] if any(s.vals for s, _ in scans) else ["trivial"]


# ------------------------------------------------------------- other members
SECRET = ["c2VjcmV0LXNlY3JldC1zZWNyZXQ", "VGhpcyBpcyBub3QgZm9yIHlvdXIgZXllcw"]
PRIV = ["d", "p", "q", "dp", "dq", "qi", "di", "oth", "k", "priv"]


def others(tier):
    """Keys of types the library merely stores, and members it doesn't know."""
    for kty in ("OKP", "AKP", "LMS", "x", "rsa", "ec"):
        for names in [[n] for n in PRIV] + [["d", "p", "q"], PRIV]:
            for how in ("load_dict", "load_jwks", "add", "keyrep"):
                yield {"jwk": dict({"kty": kty, "crv": "Ed25519", "x": "AAECAw", "kid": "1"}, **{n: SECRET[0] for n in names}), "how": how}
    r = gen.RSA_KEYS[gen.RSA_SMALL[0]]
    rsa = {"kty": "RSA", "n": ref.b64u(ref.i2b(r["n"])), "e": ref.b64u(ref.i2b(r["e"])), "d": ref.b64u(ref.i2b(r["d"])),
           "p": ref.b64u(ref.i2b(r["p"])), "q": ref.b64u(ref.i2b(r["q"]))}
    x, y = gen._ecpub("P-256", "abcdef0123456789abcdef")
    ec = {"kty": "EC", "crv": "P-256", "x": ref.b64u(ref.i2b(x, 32)), "y": ref.b64u(ref.i2b(y, 32)),
          "d": ref.b64u(ref.i2b(0xabcdef0123456789abcdef, 32))}
    for base in (rsa, ec):
        for names in (["oth"], ["priv"], ["k"], ["oth", "priv", "k"]):
            for how in ("load_dict", "load_jwks", "add", "keyrep"):
                v = [{"r": SECRET[0], "d": SECRET[1], "t": SECRET[0]}] if names[0] == "oth" else SECRET[0]
                yield {"jwk": dict(base, **{n: v for n in names}), "how": how}


def p_others(c):
    from jwkest.jwk import keyrep
    ks = KEYS()
    d = json.loads(json.dumps(c["jwk"]))
    if c["how"] == "load_dict":
        ok, _ = attempt(ks.load_dict, {"keys": [d]})
    elif c["how"] == "load_jwks":
        ok, _ = attempt(ks.load_jwks, json.dumps({"keys": [d]}))
    elif c["how"] == "add":
        ok, _ = attempt(ks.add, d)
    else:
        ok, k = attempt(keyrep, d)
        if ok:
            ks.append(k)
    if not ok or not len(ks):
        return ["trivial"]
    k = ks.keys()[0]
    for op in (lambda: str(k), lambda: hash(k), k.to_dict, lambda: make_public_copy(k)):
        attempt(op)
    ks.append(lib(make_public_copy, k))
    own = {ref.unb64u(c["jwk"][n]) for n in ("d", "p", "q") if n in c["jwk"] and isinstance(c["jwk"][n], str)} | {ref.unb64u(s) for s in SECRET}
    words = set(SECRET) | {ref.b64u(o) for o in own} | {str(ref.b2i(o)) for o in own} | {o.hex() for o in own}

    def scan(what, t):
        for w in words:
            check(w not in t, "%s contains a private value: %s", what, t)
        for o in own:
            check(o.decode("latin-1") not in t, "%s contains a private value: %s", what, t)
    for what, f in (("dump_jwks", ks.dump_jwks), ("str", lambda: str(ks)), ("repr", lambda: repr(ks)),
                    ("serialize", lambda: repr(k.serialize())), ("serialize(False)", lambda: repr(k.serialize(False))),
                    ("public copy", lambda: repr(walk(ks.keys()[1]))), ("public copy", lambda: str(ks.keys()[1]))):
        scan(what, lib(f))
    for j in json.loads(ks.dump_jwks())["keys"]:
        check(not set(PRIV) & set(j), "dump has private members %s", j)
    return [c["jwk"]["kty"], c["how"]]


SUBTESTS = [
    Enum("other-members", others, p_others, exhaustive=True),
    Search("history", s_history(), p_history, quick=1000, thorough=25000),
    Search("key sets", keysets(), p_keyset, quick=400, thorough=8000),
]
