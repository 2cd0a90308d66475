"""C15: a key set holds exactly the keys put into it, in order."""
import json
import unicodedata

from hypothesis import strategies as st

from lib import gen, ref, routes
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C15"
RULE = ("Case: a sequence of up to 9 operations (load_dict, load_jwks, add, append, wrap_add, id changes, failing loads with the bad key at "
        "any position, dumps, reloads) on two key sets, every read operation compared with a list model after every step. Oracle: plain "
        "list of (type, metadata, public JWK). Trivial: fewer than two keys in the end.")

from jwkest.ecc import P256, P384, P521  # noqa: E402
from jwkest.jwk import KEYS, load_jwks  # noqa: E402

ODD = [{"kty": "OKP", "crv": "Ed25519", "x": "AAAA"}, {"kty": "okp"}, {"kty": "rsa"}, {"kty": "Oct"}, {"kty": "foo", "kid": "1"}, {"kty": "ec", "use": "sig"}, {"kty": "Custom"}, {"kty": "octet"},
       {"kty": "RSAx", "kid": "1"}]
BAD = [  # specifications no key can be made of
    None, 5, "x", [], ["kty"], {}, {"kid": "1"}, {"kty": "RSA", "n": "+/", "e": "AQAB"}, {"kty": "RSA", "n": "AQAB", "e": "A"},
    {"kty": "RSA", "n": [1], "e": "AQAB"}, {"kty": "RSA", "n": "AQAB", "e": "AA"},
    {"kty": "EC", "crv": "P-256", "x": "AQ", "y": "AQ"}, {"kty": "EC", "crv": "P-256", "x": "AQ"}, {"kty": "EC", "crv": "P-256"},
    {"kty": "EC", "crv": "P-999", "x": "AQ", "y": "AQ"}, {"kty": "EC", "crv": "P-256", "x": "?", "y": "AQ"}, {"kty": "oct", "k": "a b"},
    {"kty": "oct", "k": "A"}, {"kty": "oct", "k": ["A"]}]
BADDOC = ["", "{", "null", "[]", "5", "{}", '{"key": []}', '"keys"', '{"keys": 5}', '{"keys": null}', '{"keys": {"kty": "oct"}}', '{"keys": "abc"}',
          '{"keys": [{"kty": "oct", "k": "AQID"}]', '{"keys": [{"kty": "oct", "k": "AQID"}]} x', '{"keys": true}', '{"Keys": []}', '\u00e5']


def keyspec():
    return st.one_of(routes.strategy().map(lambda c: dict(c, route="jwk-text")), routes.strategy(gen.oct_spec(1, 20)).map(lambda c: dict(c, route="jwk-text")),
                     st.sampled_from(ODD).map(lambda d: {"odd": d}),
                     st.text(alphabet="RSAECoctx", min_size=1, max_size=6).filter(lambda t: t not in ("RSA", "EC", "oct")).map(lambda t: {"odd": {"kty": t}}))


def s_ops():
    which = st.integers(0, 1)
    spell = st.fixed_dictionaries({"indent": st.sampled_from([None, 1]), "ascii": st.booleans(), "bytes": st.booleans(), "extra": st.booleans(),
                                   "more": st.booleans()})
    op = st.one_of(
        st.tuples(st.sampled_from(["load_dict", "load_jwks", "add", "add-noenc"]), st.lists(keyspec(), max_size=4), spell).map(
            lambda t: {"op": t[0], "keys": t[1], "spell": t[2]}),
        routes.strategy().map(lambda c: {"op": "append", "key": c}),
        st.integers(0, 5).map(lambda i: {"op": "append-again", "i": i}),
        st.tuples(st.one_of(gen.rsa_spec(), st.text(min_size=1, max_size=20).map(lambda t: {"t": "oct", "k": t.encode("utf-8", "replace").hex()}),
                            st.sampled_from(gen.CURVES).map(lambda c: {"t": "curve", "crv": c})), gen.opt_kid, st.sampled_from(["", "sig", "enc"])).map(
            lambda t: {"op": "wrap_add", "key": t[0], "kid": t[1], "use": t[2]}),
        st.tuples(st.sampled_from(["load_dict", "load_jwks", "add"]), st.lists(keyspec(), max_size=3), st.sampled_from(BAD), st.lists(keyspec(), max_size=2)).map(
            lambda t: {"op": "bad", "how": t[0], "keys": t[1], "bad": t[2], "after": t[3]}),
        st.sampled_from(BADDOC).map(lambda t: {"op": "baddoc", "doc": t}),
        st.sampled_from([None, 5, "bytes", []]).map(lambda v: {"op": "badwrap", "v": v}),
        st.tuples(st.integers(0, 9), gen.opt_kid).map(lambda t: {"op": "kid", "i": t[0], "kid": t[1]}),
        st.tuples(st.integers(0, 9), st.sampled_from(["inactive", "inactive", "hash", "thumbprint", "private", "text"])).map(
            lambda t: {"op": "touch", "i": t[0], "what": t[1]}),
        st.just({"op": "reload"}), st.just({"op": "transfer"}))
    return st.lists(st.tuples(which, op).map(lambda t: dict(t[1], s=t[0])), min_size=1, max_size=9).map(lambda l: {"ops": l})


def spec_of(k):
    """(JWK to load, record)"""
    if "odd" in k:
        d = dict(k["odd"])
        return d, {"kty": d["kty"], "kid": d.get("kid", ""), "jwk": {m: d[m] for m in ("kty", "kid", "use", "alg") if d.get(m)}}
    d = routes.jwk_dict(k["key"], k["private"], k["meta"], k["form"])
    pub, _ = routes.expected(k["key"], None, k["private"], k["meta"])
    return d, {"kty": k["key"]["t"], "kid": k["meta"]["kid"], "jwk": pub}


def spellings(x):
    """Other ids that look like it."""
    out = [x.swapcase(), x.upper(), x.lower(), x + " ", " " + x, x[:-1], x + x, x.casefold(), "0" + x, x.replace("=", ""), x + "="]
    out += [unicodedata.normalize(f, x) for f in ("NFC", "NFD", "NFKC")]
    return [v for v in out if v != x]


def compare(ks, model, what):
    """Every read operation against the model."""
    check(lib(len, ks) == len(model), "%s: size %s, expected %s", what, len(ks), len(model))
    it = lib(list, ks)
    got = lib(ks.keys)
    check(len(it) == len(model) == len(got) and all(a is b for a, b in zip(it, got)), "%s: iteration and keys() differ", what)
    for k, m in zip(it, model):
        if "obj" in m:
            check(k is m["obj"], "%s: another key object than the one added", what)
        if m["jwk"] is None:     # generated by the library
            m["jwk"] = dict({"kty": m["kty"], "crv": m["crv"]}, **{a: lib(k.serialize)[a] for a in ("x", "y")})
            m["jwk"].update({a: m[a] for a in ("kid", "use") if m[a]})
        check(k.kty == m["kty"] and k.kid == m["kid"], "%s: key %s instead of %s", what, (k.kty, k.kid), m)
        check(gen.same(lib(k.serialize), m["jwk"]), "%s: key %s instead of %s", what, k.serialize(), m["jwk"])
        m["obj"] = k

    def objs(ms):
        return [m["obj"] for m in ms]

    def ident(a, b):
        return isinstance(a, list) and len(a) == len(b) and all(x is y for x, y in zip(a, b))
    for t in ["RSA", "rsa", "EC", "ec", "Ec", "oct", "OCT", "OKP", "okp", "foo", "none", ""] + [
            f(m["kty"]) for m in model for f in (str, str.lower, str.upper, str.swapcase)]:
        check(ident(lib(lambda: ks[t]), objs([m for m in model if m["kty"].lower() == t.lower()])), "%s: lookup by type %s", what, t)
    ids = [m["kid"] for m in model]
    for i in ["", "1", "nope"] + ids + [v for x in sorted(set(ids))[:3] for v in spellings(x)]:
        check(ident(lib(ks.by_kid, i), objs([m for m in model if m["kid"] == i])), "%s: lookup by id %s", what, i)
    check(lib(ks.kids) == [m["kid"] for m in model if m["kid"]], "%s: ids %s", what, ks.kids())
    check(sorted(lib(ks.key_types)) == sorted({m["kty"] for m in model}), "%s: types %s", what, ks.key_types())
    d = lib(ks.as_dict)
    left = list(model)
    for t, l in d.items():
        mine = [m for m in model if m["kty"].lower() == t.lower()]
        # keys of one type are together and in order
        check(bool(l) and all(any(k is m["obj"] for m in mine) for k in l), "%s: as_dict()[%s] is %s", what, t, l)
    for n in ("RSA", "EC", "oct"):
        mine = objs([m for m in model if m["kty"] == n])
        check(not mine or [k for k in d.get(n, []) if k.kty == n] == mine, "%s: as_dict()[%s]", what, n)
    flat = [k for l in d.values() for k in l]
    check(len(flat) == len(model) and all(sum(k is m["obj"] for k in flat) == sum(x["obj"] is m["obj"] for x in model) for m in left),
          "%s: as_dict() holds %s keys", what, len(flat))
    txt = lib(ks.dump_jwks)
    check(txt == lib(str, ks) == lib(repr, ks), "%s: text forms differ", what)
    dump = json.loads(txt)
    check(list(dump) == ["keys"] and gen.same(dump["keys"], [m["jwk"] for m in model]), "%s: dump %s", what, txt)


def document(o):
    specs, recs = [], []
    for k in o["keys"]:
        d, r = spec_of(k)
        if o.get("spell", {}).get("extra"):
            d = dict(d, ext=True, key_ops=["sign"])
        specs.append(d)
        recs.append(r)
    return specs, recs


def p_ops(c):
    sets = [lib(KEYS), lib(KEYS)]
    models = [[], []]
    for o in c["ops"]:
        ks, model = sets[o["s"]], models[o["s"]]
        op = o["op"]
        if op in ("load_dict", "load_jwks", "add", "add-noenc"):
            specs, recs = document(o)
            doc = {"keys": specs}
            if o["spell"]["more"]:
                doc = {"x": 1, "keys": specs, "y": []}
            if op == "load_dict":
                before = json.dumps(doc)
                lib(ks.load_dict, doc)
                check(json.dumps(doc) == before, "the document was changed")
            elif op == "load_jwks":
                t = json.dumps(doc, indent=o["spell"]["indent"], ensure_ascii=o["spell"]["ascii"])
                r = lib(ks.load_jwks, t.encode("utf-8") if o["spell"]["bytes"] else t)
                check(r is ks, "load_jwks returned %s", r)
            else:
                for d in specs:
                    lib(ks.add, d, **({"enc": None} if op != "add" else {}))
            model += recs
        elif op == "append":
            k = routes.make(o["key"])
            lib(ks.append, k)
            model.append({"kty": k.kty, "kid": o["key"]["meta"]["kid"], "jwk": routes.expected(o["key"]["key"], None, False, o["key"]["meta"])[0], "obj": k})
        elif op == "append-again":
            if model:
                m = model[o["i"] % len(model)]
                lib(ks.append, m["obj"])
                model.append(m)
        elif op == "wrap_add":
            k = o["key"]
            if k["t"] == "curve":
                v = {"P-256": P256, "P-384": P384, "P-521": P521}[k["crv"]]
                m = {"kty": "EC", "crv": k["crv"], "use": o["use"], "jwk": None}
            else:
                v = gen._rsaobj(k["i"], True) if k["t"] == "RSA" else gen.B(k["k"]).decode("utf-8")
                m = {"kty": k["t"], "jwk": dict(ref.jwk_public(gen.rkey(k, False)), **{a: o[a] for a in ("kid", "use") if o[a]})}
            lib(ks.wrap_add, v, use=o["use"], kid=o["kid"])
            model.append(dict(m, kid=o["kid"]))
        elif op == "bad":
            specs, recs = document(o)
            doc = {"keys": specs + [o["bad"]] + [spec_of(k)[0] for k in o["after"]]}
            n = len(model)
            if o["how"] == "add":
                must_fail("adding %s" % json.dumps(o["bad"]), ks.add, o["bad"])
                recs = []
            elif o["how"] == "load_dict":
                must_fail("loading %s" % json.dumps(o["bad"]), ks.load_dict, doc)
            else:
                must_fail("loading %s" % json.dumps(o["bad"]), ks.load_jwks, json.dumps(doc))
                must_fail("loading %s" % json.dumps(o["bad"]), load_jwks, json.dumps(doc))
            check(len(ks) in (n, n + len(recs)), "%s keys after a failed load with %s good keys before the bad one, %s before", len(ks), len(recs), n)
            if len(ks) > n:
                model += recs
        elif op == "baddoc":
            must_fail("loading %s" % o["doc"], ks.load_jwks, o["doc"])
        elif op == "badwrap":
            v = b"bytes" if o["v"] == "bytes" else o["v"]
            must_fail("wrapping %r" % (v,), ks.wrap_add, v)
        elif op == "kid":
            if model:
                m = model[o["i"] % len(model)]
                m["obj"].kid = m["kid"] = o["kid"]
                m["jwk"].pop("kid", None)
                if o["kid"]:
                    m["jwk"]["kid"] = o["kid"]
        elif op == "touch":
            # what users do with the keys of a set must not matter to the set
            if model:
                k = model[o["i"] % len(model)]["obj"]
                if o["what"] == "inactive":
                    k.inactive_since = 1500000000
                else:
                    attempt({"hash": lambda: hash(k), "thumbprint": lambda: k.thumbprint("SHA-256"), "private": k.to_dict,
                             "text": lambda: str(k)}[o["what"]])
        elif op in ("reload", "transfer"):
            txt = lib(ks.dump_jwks)
            new = lib(KEYS().load_jwks, txt)
            check(len(new) == len(model) and all(lib(lambda: a == b) for a, b in zip(new, ks) if not (b.x5c or b.x5t or b.x5u)), "dumping and loading gives other keys: %s", txt)
            l = lib(load_jwks, txt)
            check(isinstance(l, list) and len(l) == len(model) and all(lib(lambda: a == b) for a, b in zip(l, ks) if not (b.x5c or b.x5t or b.x5u)), "load_jwks(dump) gives other keys")
            strip = [{a: b for a, b in m.items() if a != "obj"} for m in model]
            strip = [dict(m, jwk=dict(m["jwk"])) for m in strip]
            if op == "reload":
                sets[o["s"]] = new
                models[o["s"]] = strip
            else:
                lib(sets[1 - o["s"]].load_jwks, txt)
                models[1 - o["s"]] += strip
        for a, b in zip(sets, models):
            compare(a, b, "after %s" % op)
    check(len(lib(KEYS)) == 0, "a new key set is not empty")
    tags = [o["op"] for o in c["ops"]]
    if max(map(len, models)) < 2:
        tags.append("trivial")
    return tags


def many(tier):
    for n in (10, 31, 64, 100, 257, 1000):
        for kinds in (1, 2, 5):
            yield {"n": n, "kinds": kinds}


def p_many(c):
    """Large sets; ids repeat, so do types."""
    n = c["n"]
    specs, recs = [], []
    for i in range(n):
        kid = "" if i % 7 == 3 else "k%d" % (i % (n // c["kinds"] + 1))
        j = i % c["kinds"]
        if j == 1:
            s = {"t": "EC", "crv": gen.CURVES[i % 3], "d": "%x" % (i + 1)}
        elif j == 2:
            s = {"t": "RSA", "i": i % 21}
        else:
            s = {"t": "oct", "k": "%06x" % i}
        d = dict(ref.jwk_public(gen.rkey(s, False)), **({"kid": kid} if kid else {}))
        specs.append(d)
        recs.append({"kty": s["t"], "kid": kid, "jwk": d})
    ks = lib(KEYS)
    lib(ks.load_dict, {"keys": specs[:n // 2]})
    for d in specs[n // 2:n // 2 + 3]:
        lib(ks.add, d)
    lib(ks.load_jwks, json.dumps({"keys": specs[n // 2 + 3:]}))
    check(lib(len, ks) == n, "%s keys, expected %s", len(ks), n)
    for k, r in zip(list(ks), recs):
        r["obj"] = k
        check(gen.same(lib(k.serialize), r["jwk"]) and k.kid == r["kid"], "key %s, expected %s", k.serialize(), r["jwk"])
    check(lib(ks.kids) == [r["kid"] for r in recs if r["kid"]], "ids %s", ks.kids())
    for kid in {r["kid"] for r in recs}:
        got = lib(ks.by_kid, kid)
        want = [r["obj"] for r in recs if r["kid"] == kid]
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "lookup by id %s: %s keys, expected %s", kid, len(got), len(want))
    for t in ("RSA", "EC", "oct", "rsa"):
        got = lib(lambda: ks[t])
        want = [r["obj"] for r in recs if r["kty"].lower() == t.lower()]
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "lookup by type %s: %s keys, expected %s", t, len(got), len(want))
    check(sorted(lib(ks.key_types)) == sorted({r["kty"] for r in recs}), "types %s", ks.key_types())
    d = lib(ks.as_dict)
    check(sum(len(l) for l in d.values()) == n, "as_dict() has %s keys", sum(len(l) for l in d.values()))
    dump = json.loads(lib(ks.dump_jwks))
    check(gen.same(dump, {"keys": [r["jwk"] for r in recs]}), "dump of %s keys differs", n)
    new = lib(KEYS().load_jwks, json.dumps(dump))
    check(len(new) == n and all(lib(lambda: a == b) for a, b in zip(new, ks)), "dumping and loading gives other keys")
    return ["n%d" % n]


SUBTESTS = [
    Enum("many", many, p_many),
    Search("operations", s_ops(), p_ops, quick=1500, thorough=40000),
]
