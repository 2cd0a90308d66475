"""C13: key thumbprints identify the key and only the key."""
import itertools

from hypothesis import strategies as st

from lib import gen, ref, routes
from lib.core import Enum, Search, Violation, attempt, check, lib, must_fail

ID = "C13"
RULE = ("Case: key, metadata, import route, digest; sequences of up to 8 operations (thumbprints with other digests and member lists, "
        "hashing, id assignment, metadata changes, exports, copies, imports) each followed by the thumbprint; pairs of nearly equal "
        "keys. Oracle: RFC 7638 implementation on the known numbers; invariance. Trivial: pairs of equal keys, EC scalar < 6 in the "
        "RFC subtest.")
LEVEL_NOTE = ("Generated-input search. EC keys: the library leaves kty out of the thumbprint of EC keys, fixed by an existing test; this is a "
              "known finding and that exact value is accepted as such, every other deviation is a violation.")

from jwkest.jwk import KEYS, keyrep, make_public_copy  # noqa: E402

HASH = ["SHA-256", "SHA-384", "SHA-512"]
FINDING = "C13-ec-thumbprint-without-kty"


def want(spec, h, members=None):
    return ref.thumbprint(gen.rkey(spec, False), h, members)


def variant(spec, h):
    return want(spec, h, ["crv", "x", "y"]) if spec["t"] == "EC" else None


def p_rfc(c):
    k = routes.make(c)
    got = lib(k.thumbprint, c["h"])
    w = want(c["key"], c["h"])
    known = got != w and got == variant(c["key"], c["h"])
    if not known:
        check(got == w, "thumbprint %s, RFC 7638 says %s", got, w)
    if c["kid"]:
        lib(k.add_kid)
        kid = k.kid
        ws = {ref.b64u(want(c["key"], "SHA-256"))}
        if known:
            ws = {ref.b64u(variant(c["key"], "SHA-256"))}
        check(isinstance(kid, str) and kid in ws, "automatic key id %s, expected %s", kid, sorted(ws))
        check(lib(k.serialize)["kid"] == kid, "the key is exported with another id")
    if known:
        raise Violation("thumbprint of an EC key computed without kty", FINDING)
    return [c["key"]["t"], c["h"], c["route"]]


def s_rfc():
    return st.tuples(routes.strategy(), st.sampled_from(HASH), st.booleans()).map(lambda t: dict(t[0], h=t[1], kid=t[2]))


MEMBERS = {"RSA": ["e", "kty", "n"], "EC": ["crv", "kty", "x", "y"], "oct": ["k", "kty"]}


def p_members(c):
    k = routes.make(c)
    # metadata members too, where their JSON form is the same for everybody
    extra = [m for m in c["extra"] if c["meta"].get(m) and c["meta"][m].isascii() and c["meta"][m].isalnum()]
    ms = list(c["members"])
    for i, m in enumerate(extra):
        ms.insert(i % len(ms), m)
    given = list(ms)
    w = ref.thumbprint(gen.rkey(c["key"], False), c["h"], ms, {m: c["meta"][m] for m in extra})
    got = lib(k.thumbprint, c["h"], ms)
    check(ms == given, "the member list was changed to %s", ms)
    check(got == w, "thumbprint over members %s is wrong", ms)
    got = lib(k.thumbprint, c["h"], members=tuple(ms))
    check(got == w, "thumbprint over members %s is wrong the second time", ms)
    return [c["key"]["t"], c["h"]]


def s_members():
    return routes.strategy().flatmap(lambda c: st.tuples(st.permutations(MEMBERS[c["key"]["t"]]), st.integers(1, 4), st.sampled_from(HASH),
                                                           st.permutations(["kid", "use", "alg"]), st.integers(0, 3)).map(
        lambda t: dict(c, members=list(t[0])[:t[1] if t[2] != "SHA-256" else 4], h=t[2], extra=list(t[3])[:t[4]])))


def ops():
    return st.one_of(
        st.sampled_from(["hash", "get_hash", "add_kid", "serialize", "private", "to_dict", "str", "verify", "eq", "public_copy", "re-import",
                         "re-import-public", "keyset", "deserialize", "keys"]).map(lambda o: {"op": o}),
        st.sampled_from(HASH).map(lambda h: {"op": "get_hash", "h": h}),
        st.tuples(st.sampled_from(HASH), st.booleans()).map(lambda t: {"op": "members", "h": t[0], "rev": t[1]}),
        st.tuples(st.sampled_from(["kid", "use", "alg"]), st.text(max_size=4)).map(lambda t: {"op": "set", "m": t[0], "v": t[1]}))


def s_invariant():
    return st.tuples(routes.strategy(), st.lists(ops(), min_size=1, max_size=8), st.sampled_from(HASH)).map(
        lambda t: dict(t[0], ops=t[1], h=t[2]))


def p_invariant(c):
    k = routes.make(c)
    spec = c["key"]
    first = {h: lib(k.thumbprint, h) for h in HASH} if c["h"] != "SHA-384" else {}
    for o in c["ops"]:
        op = o["op"]
        if op == "hash":
            lib(hash, k)
        elif op == "get_hash":
            h = o.get("h")
            got = lib(k.get_hash, h) if h else lib(k.get_hash)
            check(got == ref.b2i(lib(k.thumbprint, h or "SHA-256")), "get_hash(%s) is not the thumbprint as a number", h)
        elif op == "add_kid":
            lib(k.add_kid)
            check(k.kid == ref.b64u(lib(k.thumbprint, "SHA-256")), "automatic id %s", k.kid)
        elif op == "serialize":
            lib(k.serialize)
        elif op == "private":
            lib(k.serialize, True)
        elif op == "to_dict":
            lib(k.to_dict)
        elif op == "keys":
            lib(k.keys)
        elif op == "str":
            lib(str, k)
        elif op == "verify":
            lib(k.verify)
        elif op == "deserialize":
            lib(k.deserialize)
        elif op == "eq":
            lib(lambda: k == make_public_copy(k))
        elif op == "public_copy":
            k = lib(make_public_copy, k)
        elif op == "re-import":
            k = lib(keyrep, lib(k.serialize, True))
        elif op == "re-import-public":
            k = lib(keyrep, lib(k.serialize))
        elif op == "keyset":
            ks = KEYS()
            ks.append(k)
            k, = KEYS().load_jwks(lib(ks.dump_jwks))
        elif op == "members":
            m = MEMBERS[spec["t"]][:]
            if o["rev"]:
                m.reverse()
            check(lib(k.thumbprint, o["h"], m) == want(spec, o["h"], MEMBERS[spec["t"]]), "thumbprint over all members %s", m)
        elif op == "set":
            setattr(k, o["m"], o["v"])
        for h in HASH if op in ("members", "add_kid", "get_hash") else [c["h"]]:
            got = lib(k.thumbprint, h)
            if h not in first:
                first[h] = got
            check(got == first[h], "thumbprint %s changed from %s to %s after %s", h, first[h], got, o)
            check(got in (want(spec, h), variant(spec, h)), "thumbprint %s is %s", h, got)
    return [spec["t"]] + [o["op"] for o in c["ops"]]


def s_pair():
    def near(k):
        if k["t"] == "oct":
            b = gen.B(k["k"])
            return st.one_of(gen.oct_spec(), st.sampled_from([b + b"\0", b"\0" + b, b[::-1], b + b, b[:-1] or b"a", bytes([b[0] ^ 1]) + b[1:]]).map(
                lambda x: {"t": "oct", "k": x.hex()}))
        if k["t"] == "EC":
            n = ref.CURVES[k["crv"]].n
            d = int(k["d"], 16)
            return st.one_of(gen.ec_spec(), st.sampled_from([n - d, d % (n - 1) + 1]).map(lambda x: dict(k, d="%x" % x)))
        return gen.rsa_spec()
    return gen.any_key.flatmap(lambda k: st.tuples(st.just(k), near(k), st.sampled_from(HASH)).map(
        lambda t: {"a": t[0], "b": t[1], "h": t[2]}))


def p_pair(c):
    a, b = gen.lkey(c["a"], kid="1"), gen.lkey(c["b"], private=False, kid="1")
    ta, tb = lib(a.thumbprint, c["h"]), lib(b.thumbprint, c["h"])
    check((ta == tb) == (c["a"] == c["b"]), "keys %s and %s: thumbprints %s", c["a"], c["b"], "equal" if ta == tb else "differ")
    a.add_kid(), b.add_kid()
    check((a.kid == b.kid) == (c["a"] == c["b"]), "automatic ids")
    return ["trivial"] if c["a"] == c["b"] else [c["a"]["t"] + "/" + c["b"]["t"]]


SUBTESTS = [
    Search("rfc7638", s_rfc(), p_rfc, quick=1500, thorough=40000),
    Search("members", s_members(), p_members, quick=800, thorough=20000),
    Search("invariant", s_invariant(), p_invariant, quick=1000, thorough=30000),
    Search("different keys", s_pair(), p_pair, quick=1200, thorough=30000),
]
