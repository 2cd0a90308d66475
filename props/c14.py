"""C14: key equality and hashing agree and distinguish different keys."""
from hypothesis import strategies as st

from lib import gen, ref, routes
from lib.core import Enum, Search, attempt, check, lib, without_asserts

ID = "C14"
RULE = ("Case: a pool of 2-4 keys (each with type, numbers, metadata, route; biased towards same or nearly the same material and metadata) and "
        "a sequence of operations (hashing, comparing, set/dict use, exports, id assignment, metadata changes, copies), equality and "
        "hashes of all pairs decided after every step. Oracle: equality of (type, metadata, public numbers) records; foreign objects "
        "are never equal. Trivial: no two keys of the pool share material or metadata.")

from jwkest.jwk import ECKey, Key, RSAKey, SYMKey, key_eq, keyrep, make_public_copy, rsa_eq  # noqa: E402

HASH = ["SHA-256", "SHA-384", "SHA-512"]


def near(spec):
    if spec["t"] == "oct":
        b = gen.B(spec["k"])
        return st.sampled_from([b + b"\0", b"\0" + b, b[:-1] or b"a", bytes([b[0] ^ 1]) + b[1:], b[:-1] + bytes([b[-1] ^ 1])]).map(
            lambda x: {"t": "oct", "k": x.hex()})
    if spec["t"] == "EC":
        n = ref.CURVES[spec["crv"]].n
        return st.sampled_from([n - int(spec["d"], 16)] * 2 + [int(spec["d"], 16) % (n - 1) + 1]).map(lambda d: dict(spec, d="%x" % d))
    return gen.rsa_spec()


def near_text(v):
    """Values that a careless comparison takes for v."""
    import unicodedata
    return st.sampled_from([v.swapcase(), v.upper(), v.lower(), v + " ", " " + v, v + "\0", v[:-1], v[1:], v + v, v[::-1], v + "=", "0" + v,
                            unicodedata.normalize("NFD", v), unicodedata.normalize("NFKC", v), v + "\n", v.casefold(), v.replace("-", "_")])


def near_meta(meta):
    """The same metadata but for one value that is nearly the same, or moved to another place."""
    if meta.get("certs"):
        return st.one_of(near_meta({k: v for k, v in meta.items() if k != "certs"}), st.sampled_from(routes.CERTS).map(lambda x: dict(meta, certs=x)))
    have = [m for m in ("kid", "use", "alg") if meta.get(m)]
    if not have:
        return st.just(meta)
    one = st.sampled_from(have).flatmap(lambda m: near_text(meta[m]).map(lambda v: dict(meta, **{m: v})))
    moved = st.permutations(["kid", "use", "alg"]).map(lambda p: dict(meta, **{a: meta.get(b) for a, b in zip(("kid", "use", "alg"), p)}))
    return st.one_of(one, one, moved)


def s_pool():
    one = routes.strategy()

    def more(c):
        rel = st.one_of(
            # the same key again: another route, private or public
            st.just((c["key"], c["meta"])),
            st.just((c["key"], c["meta"])),
            # one thing different
            near(c["key"]).map(lambda k: (k, c["meta"])),
            near_meta(c["meta"]).map(lambda m: (c["key"], m)),
            near_meta(c["meta"]).map(lambda m: (c["key"], m)),
            st.tuples(st.sampled_from(["kid", "use", "alg"]), st.sampled_from(["", "sig", "1", "RS256"])).map(
                lambda t: (c["key"], dict(c["meta"], **{t[0]: t[1]}))),
            one.map(lambda o: (o["key"], o["meta"])))
        again = st.tuples(rel, st.booleans()).flatmap(
            lambda t: st.sampled_from(routes.routes(t[0][0], t[1], t[0][1])).map(
                lambda r: {"key": t[0][0], "meta": t[0][1], "private": t[1], "route": r, "form": "full"}))
        return st.lists(again, min_size=1, max_size=3).map(lambda l: [c] + l)
    ops = st.one_of(
        st.tuples(st.sampled_from(["hash", "serialize", "private", "thumbprint", "add_kid", "str", "verify", "set", "dict", "deserialize", "copy",
                                   "re-import", "to_dict", "extra", "twin", "twin", "kid-twin"]), st.integers(0, 3)).map(lambda t: {"op": t[0], "i": t[1]}),
        st.tuples(st.sampled_from(HASH), st.integers(0, 3)).map(lambda t: {"op": "get_hash", "h": t[0], "i": t[1]}),
        st.tuples(st.sampled_from(["kid", "use", "alg"]), st.sampled_from(["", "sig", "1", "RS256"]), st.integers(0, 3)).map(
            lambda t: {"op": "set-" + t[0], "v": t[1], "i": t[2]}),
        st.tuples(st.sampled_from(["kid", "use", "alg"]), st.integers(0, 16), st.integers(0, 3)).map(
            lambda t: {"op": "near-" + t[0], "v": t[1], "i": t[2]}))
    return st.tuples(one.flatmap(more), st.lists(ops, max_size=6)).map(lambda t: {"pool": t[0], "ops": t[1]})


FOREIGN = [None, 0, 1, "", "key", b"key", [], {}, (), object(), Key, RSAKey, 1.5, True, set()]


def norm(m):
    return {k: v for k, v in m.items() if v}


def uncert(m):
    return {k: v for k, v in m.items() if k != "certs"}


def p_pool(c):
    keys, model = [], []
    for k in c["pool"]:
        keys.append(routes.make(k))
        model.append((ref.jwk_public(gen.rkey(k["key"], False)), dict(norm(k["meta"]))))

    def all_pairs(what):
        hs = [lib(hash, k) for k in keys]
        for i in range(len(keys)):
            for j in range(len(keys)):
                a, b = keys[i], keys[j]
                eq = model[i] == model[j]
                check(lib(lambda: a == b) is eq, "%s: %s == %s is %s", what, model[i], model[j], not eq)
                check(lib(lambda: a != b) is (not eq), "%s: %s != %s is %s", what, model[i], model[j], eq)
                if eq:
                    check(hs[i] == hs[j], "%s: equal keys with hashes %s", what, hs)
        # containers are nothing but equality and hash
        uniq = []
        for m in model:
            if m not in uniq:
                uniq.append(m)
        check(len(lib(set, keys)) == len(uniq), "%s: a set of the keys has %s members", what, len(set(keys)))
        for i, a in enumerate(keys):
            check(lib(lambda: a in set(keys)) and lib(keys.index, a) == model.index(model[i]), "%s: looking a key up", what)

    for i, a in enumerate(keys):
        for j, b in enumerate(keys):
            check(lib(lambda: a == b) is (model[i] == model[j]), "%s == %s is %s", model[i], model[j], model[i] != model[j])
    all_pairs("at first")
    for o in c["ops"]:
        i = o["i"] % len(keys)
        k, op = keys[i], o["op"]
        if op == "hash":
            lib(hash, k)
        elif op == "get_hash":
            lib(k.get_hash, o["h"])
        elif op == "serialize":
            lib(k.serialize)
        elif op == "private":
            lib(k.serialize, True)
        elif op == "thumbprint":
            lib(k.thumbprint, "SHA-512")
        elif op == "add_kid":
            lib(k.add_kid)
            model[i][1]["kid"] = k.kid
        elif op in ("twin", "kid-twin"):
            # the same key afresh, from the exported form
            if op == "kid-twin":
                lib(k.add_kid)
                model[i][1]["kid"] = k.kid
            if len(keys) < 7:
                keys.append(lib(keyrep, lib(k.serialize, True)))
                model.append((model[i][0], uncert(model[i][1])))
        elif op == "str":
            lib(str, k)
        elif op == "to_dict":
            lib(k.to_dict)
        elif op == "verify":
            lib(k.verify)
        elif op == "deserialize":
            lib(k.deserialize)
        elif op == "set":
            lib(set, keys)
        elif op == "dict":
            lib(lambda: {x: 1 for x in keys})
        elif op == "copy":
            keys[i] = lib(make_public_copy, k)
        elif op == "re-import":
            keys[i] = lib(keyrep, lib(k.serialize, True))
            model[i] = (model[i][0], uncert(model[i][1]))
        elif op == "extra":
            keys[i] = lib(keyrep, dict(lib(k.serialize, True), foo="bar"))
            model[i] = (model[i][0], uncert(model[i][1]))
        elif op.startswith("near-"):
            m = op[5:]
            old = model[i][1].get(m) or "Ab"
            v = [old.swapcase(), old.upper(), old.lower(), old + " ", old[:-1], old[1:], old + old, old[::-1], old][o["v"] % 9]
            setattr(k, m, v)
            model[i] = (model[i][0], norm(dict(model[i][1], **{m: v})))
        else:
            m = op[4:]
            setattr(k, m, o["v"])
            model[i] = (model[i][0], norm(dict(model[i][1], **{m: o["v"]})))
        all_pairs("after %s" % (o,))
    for a in keys:
        for f in FOREIGN + [a.serialize(), str(a), a.key]:
            check(lib(lambda: a == f) is False and lib(lambda: a != f) is True, "key equal to %s", f)
            if f is not a.key:
                check(lib(lambda: f == a) is False, "%s equal to a key", f)
    tags = [k["key"]["t"] for k in c["pool"]] + [o["op"] for o in c["ops"]]
    if any(model[0] == m for m in model[1:]):
        tags.append("equal")
    elif not any(model[0][0] == m[0] or model[0][1] == m[1] for m in model[1:]):
        tags.append("trivial")
    return tags


def odd():
    """Keys that hold nothing usable, or of a type the library does not know:
    comparing them with anything works and is symmetric."""
    return [lambda: RSAKey(), lambda: ECKey(), lambda: SYMKey(), lambda: Key(), lambda: Key(kty="OKP", x="AA", crv="Ed25519"), lambda: Key(kty="RSA"),
            lambda: Key(kty="oct"), lambda: Key(kty="EC"), lambda: RSAKey(kid="1"), lambda: ECKey(kid="1"), lambda: SYMKey(kid="1"),
            lambda: Key(kid="1"), lambda: keyrep({"kty": "OKP", "kid": "1", "crv": "Ed25519", "x": "AA"}), lambda: keyrep({"kty": "rsa", "n": "AQAB"}),
            lambda: RSAKey(key=gen._rsaobj(0, True)), lambda: RSAKey(key=gen._rsaobj(0, False)), lambda: RSAKey(key=gen._rsaobj(1, False)),
            lambda: SYMKey(key=b"abc"), lambda: SYMKey(key="abc"), lambda: SYMKey(k="YWJj"), lambda: SYMKey(key=b"abcd"),
            lambda: gen.lkey({"t": "EC", "crv": "P-256", "d": "77"}), lambda: gen.lkey({"t": "EC", "crv": "P-256", "d": "77"}, private=False),
            lambda: gen.lkey({"t": "EC", "crv": "P-384", "d": "77"})]


# classes of the above that are equal
SAME = [{14, 15}, {17, 18, 19}, {21, 22}]


def odd_cases(tier):
    n = len(odd())
    for i in range(n):
        for j in range(n):
            yield {"i": i, "j": j}


def p_odd(c):
    i, j = c["i"], c["j"]
    a, b = lib(odd()[i]), lib(odd()[j])
    eq = i == j or any({i, j} <= s for s in SAME)
    check(lib(lambda: a == b) is eq, "%s == %s is %s", vars(a), vars(b), not eq)
    check(lib(lambda: b == a) is eq, "== is not symmetric for %s, %s", vars(a), vars(b))
    check(lib(lambda: a == a) is True, "%s not equal to itself", vars(a))
    ok, ha = attempt(hash, a)
    ok2, hb = attempt(hash, b)
    if eq and ok and ok2:
        check(ha == hb, "hashes of equal keys")
    check(lib(lambda: a == b) is eq and lib(lambda: b == a) is eq, "equality changed by hashing")
    return []


def every_bit(tier):
    """Keys that differ in one bit of their material, or in one octet of length."""
    for n in list(range(1, 41)) + [63, 64, 65, 66, 128, 129, 300]:
        yield {"what": "oct", "n": n}
    for i in range(0, len(gen.RSA_KEYS), 1 if tier != "quick" else 4):
        yield {"what": "n", "i": i}
    yield {"what": "e", "i": 0}
    for crv in gen.CURVES:
        yield {"what": "EC", "crv": crv}


def p_bit(c):
    if c["what"] == "oct":
        base = bytes((i * 37 + 1) % 256 for i in range(c["n"]))
        one = [lib(lambda: SYMKey(k=ref.b64u(base))), lib(lambda: SYMKey(key=base))]
        others = [(int.from_bytes(base, "big") ^ 1 << b).to_bytes(len(base), "big") for b in range(8 * len(base))]
        others += [base + b"\0", b"\0" + base, base[:-1], base[1:], base + base, base[::-1]]
        others = [lib(lambda: SYMKey(k=ref.b64u(o)) if i % 2 else SYMKey(key=o)) for i, o in enumerate(others) if o and o != base]
    elif c["what"] == "EC":
        n = ref.CURVES[c["crv"]].n
        ds = [1, 2, 3, n - 1, n - 2, n - 3, n // 2, n // 2 + 1, 5, 1 << 64]
        ks = [gen.lkey({"t": "EC", "crv": c["crv"], "d": "%x" % d}, private=d % 2 == 0) for d in ds]
        for i, a in enumerate(ks):
            for j, b in enumerate(ks):
                check(lib(lambda: a == b) is (i == j), "%s: scalars %s and %s", c["crv"], ds[i], ds[j])
        return ["EC"]
    else:
        k = gen.rkey({"t": "RSA", "i": c["i"]}, False)

        def made(n, e):
            return lib(RSAKey, n=ref.b64u(ref.i2b(n)), e=ref.b64u(ref.i2b(e)))
        one = [made(k.n, k.e)]
        if c["what"] == "n":
            others = [made(k.n ^ 1 << b, k.e) for b in range(1, k.n.bit_length())]
        else:
            others = [made(k.n, e) for e in (3, 5, 17, 257, 65539, 65537 + (1 << 32)) if e != k.e]
        for o in others:
            check(lib(rsa_eq, one[0].key, o.key) is False and lib(key_eq, one[0].key, o.key) is False, "%s, %s: rsa_eq", o.n, o.e)
        same = made(k.n, k.e)
        check(lib(rsa_eq, one[0].key, same.key) is True and lib(key_eq, one[0].key, same.key) is True, "the same key: rsa_eq")
    h = lib(hash, one[0])
    for o in one:
        check(lib(lambda: o == one[0]) is True and lib(hash, o) == h, "the same key from another form")
        for x in others:
            check(lib(lambda: o == x) is False and lib(lambda: x == o) is False, "%s equals %s", x.serialize(), o.serialize())
    check(len(lib(set, one + others)) == 1 + len(others), "a set of %s different keys has other members", 1 + len(others))
    return [c["what"]]


def anew(tier):
    """One elliptic-curve key object that is given one generated key after another."""
    cs = ["P-256", "P-384", "P-521"]
    for a in cs:
        for b in cs:
            for first in (True, False):
                yield {"curves": [a, b, a], "hash": first}


def p_anew(c):
    from jwkest.ecc import P256, P384, P521
    k, seen = ECKey(kid="k", use="sig"), []
    for crv in c["curves"]:
        lib(k.load_key, {"P-256": P256, "P-384": P384, "P-521": P521}[crv])
        check(k.crv == crv, "the key is on %s but says %s", crv, k.crv)
        twin = lib(keyrep, lib(k.serialize, True))
        check(lib(lambda: k == twin) is True and lib(lambda: twin == k) is True, "not equal to the import of its export (curves %s)", c["curves"])
        if c["hash"]:
            check(lib(hash, k) == lib(hash, twin), "hash differs from that of its equal (curves %s)", c["curves"])
            check(lib(k.thumbprint, "SHA-256") == lib(twin.thumbprint, "SHA-256"), "thumbprint differs from that of its equal")
        for old in seen:
            check(lib(lambda: k == old) is False and lib(lambda: old == k) is False, "equal to a key it held before (curves %s)", c["curves"])
        seen.append(twin)
    check(lib(hash, k) == lib(hash, seen[-1]), "hash differs from that of its equal (curves %s)", c["curves"])
    return c["curves"]


SUBTESTS = [
    Enum("every-bit", every_bit, p_bit),
    Enum("odd keys", odd_cases, p_odd, exhaustive=True),
    Enum("generated-anew", anew, p_anew),
    Search("pool", s_pool(), p_pool, quick=2500, thorough=60000),
    without_asserts(ID, 'odd keys', 8),
    without_asserts(ID, 'every-bit', 16),
]
