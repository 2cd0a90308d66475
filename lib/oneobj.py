"""One verifying object used for many tokens, some of them put together from
the parts of others; the reference verifier decides each of them."""
import json

from hypothesis import strategies as st

from . import gen, ref
from .core import attempt, check, lib

FAMILY = {"oct": ["HS256", "HS384", "HS512"], "RSA": ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"]}
SPELL = ['{"alg":"%s"}', '{"alg":"%s","x":1}', '{"typ":"JWT","alg":"%s"}', ' {"alg": "%s"}\n']


def algs_of(spec):
    if spec["t"] == "EC":
        return [a for a in ref.ES if ref.ES[a][0] == spec["crv"]]
    if spec["t"] == "RSA":
        return [a for a in FAMILY["RSA"] if gen.rsa_ok(a, gen.RSA_KEYS[spec["i"]]["bits"])]
    return FAMILY["oct"]


def strategy(pin):
    """pin: strategy for how the object is made: index of an algorithm or None"""
    key = st.one_of(gen.oct_spec(1, 40), gen.oct_spec(1, 40), gen.rsa_spec(), gen.ec_spec().filter(lambda s: s["crv"] in ("P-256", "P-384", "P-521")))
    tok = st.fixed_dictionaries({"k": st.integers(0, 2), "a": st.integers(0, 5), "h": st.integers(0, 3), "p": st.sampled_from(["7b7d", "31", "78797a", ""])})
    genuine = st.integers(0, 3).map(lambda i: [i, i, i])
    mixed = st.lists(st.integers(0, 3), min_size=3, max_size=3)
    step = st.fixed_dictionaries({"from": st.one_of(genuine, genuine, mixed), "keys": st.sampled_from([7, 7, 7, 1, 2, 4, 3, 0]),
                                  "how": st.sampled_from(["compact", "compact", "verbose", "verbose", "kw"]), "sigalg": st.sampled_from([None, None, None, 0, 1]),
                                  "bytes": st.booleans(), "flip": st.sampled_from([0, 0, 0, 0, 1])})
    return st.fixed_dictionaries({"keys": st.lists(key, min_size=1, max_size=3), "toks": st.lists(tok, min_size=1, max_size=4), "pin": pin,
                                  "steps": st.lists(step, min_size=2, max_size=7)})


def run(c):
    from jwkest.jws import JWS
    specs = []
    for s in c["keys"]:
        if not any(gen.same_key(s, o) for o in specs):
            specs.append(s)
    rks = [gen.rkey(s) for s in specs]
    pubs = [gen.lkey(s, private=False) for s in specs]
    toks = []
    for i, t in enumerate(c["toks"]):
        k = t["k"] % len(specs)
        al = algs_of(specs[k])
        alg = al[t["a"] % len(al)]
        toks.append((alg, ref.jws_sign(SPELL[t["h"]] % alg, gen.B(t["p"]), rks[k], alg, bytes([90 + i]) * 70).split(".")))
    pinned = None if c["pin"] is None else toks[c["pin"] % len(toks)][0]
    v = JWS(alg=pinned) if pinned else JWS()
    fresh = True
    okd = rejected = 0
    for n, s in enumerate(c["steps"]):
        h, p, g = [i % len(toks) for i in s["from"]]
        parts = [toks[h][1][0], toks[p][1][1], toks[g][1][2]]
        if s["flip"]:
            raw = bytearray(ref.unb64u(parts[2]))
            raw[-1] ^= 1
            parts[2] = ref.b64u(bytes(raw))
        tok = ".".join(parts)
        alg = toks[h][0]
        mine = [i for i in range(len(specs)) if s["keys"] >> i & 1]
        keys = [pubs[i] for i in mine]
        sigalg = None if s["sigalg"] is None else (alg if s["sigalg"] == 0 else FAMILY["oct"][n % 3])
        si, sig = tok.rsplit(".", 1)
        good = any(ref.jws_sig_ok(alg, rks[i], si.encode(), ref.unb64u(sig)) for i in mine)
        want = good and sigalg in (None, alg) and pinned in (None, alg)
        t = tok.encode() if s["bytes"] else tok
        if s["how"] == "compact":
            ok, r = attempt(v.verify_compact, t, keys, False, sigalg)
        elif s["how"] == "verbose":
            ok, r = attempt(v.verify_compact_verbose, t, keys, False, sigalg)
        else:
            ok, r = attempt(lambda: v.verify_compact(jws=t, keys=keys, sigalg=sigalg))
        what = "use %d of one object (pinned: %s), algorithm %s, wanted %s" % (n + 1, pinned, alg, sigalg)
        check(want or not ok, "%s: accepted %s", what, tok)
        # an object without a pin keeps to the algorithm it has seen
        if pinned or fresh:
            check(ok or not want, "%s: rejected %s (%s)", what, tok, r)
        fresh = False
        if ok:
            msg = r["msg"] if s["how"] == "verbose" else r
            check(gen.same_payload({"b": ref.unb64u(parts[1]).hex()}, msg), "%s: returned %s for %s", what, msg, tok)
            if s["how"] == "verbose":
                check(r["key"] in keys and ref.jws_sig_ok(alg, rks[[i for i in mine if pubs[i] is r["key"]][0]], si.encode(), ref.unb64u(sig)),
                      "%s: another key reported", what)
            okd += 1
        else:
            rejected += 1
    return ["accepted" if okd else "none accepted", "rejected" if rejected else "none rejected"] + ([] if okd and len(c["steps"]) > 1 else ["trivial"])


# ---------------------------------------------------------------- decryption
def jwe_strategy():
    from . import jweg
    fams = st.sampled_from([["A128KW", "A192KW", "A256KW"], ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"], ["RSA-OAEP", "RSA1_5"]])

    def toks(fam):
        one = st.tuples(st.sampled_from(fam), st.sampled_from(ref.ENCS)).flatmap(lambda ae: jweg.made(*ae))
        return st.lists(one, min_size=1, max_size=3)
    genuine = st.integers(0, 2).map(lambda i: [i] * 5)
    mixed = st.lists(st.integers(0, 2), min_size=5, max_size=5)
    step = st.fixed_dictionaries({"from": st.one_of(genuine, genuine, mixed), "keys": st.sampled_from([7, 7, 7, 1, 2, 4, 3, 0]),
                                  "pin": st.sampled_from([None, None, None, 0, 1]), "bytes": st.booleans(), "flip": st.sampled_from([0, 0, 0, 1])})
    return st.one_of(fams, fams, st.just(list(ref.KM_ALGS))).flatmap(lambda f: st.fixed_dictionaries({
        "toks": toks(f), "obj": st.sampled_from(["plain", "plain", "args", "factory"]), "kids": st.booleans(),
        "steps": st.lists(step, min_size=2, max_size=6)}))


def jwe_run(c):
    from jwkest.jwe import JWE, factory
    from . import jweg
    ms = c["toks"]
    made = []
    for i, m in enumerate(ms):
        h = jweg.header(m)
        if c["kids"]:
            h["kid"] = "key%d" % i
        made.append(jweg.make(m, h).split("."))
    rks = [gen.rkey(m["key"]) for m in ms]
    keys_ = [gen.lkey(m["key"], kid="key%d" % i) for i, m in enumerate(ms)]
    hs = [json.loads(ref.unb64u(t[0])) for t in made]
    v = {"plain": lambda: JWE(), "args": lambda: JWE(alg=hs[0]["alg"], enc=hs[0]["enc"]), "factory": lambda: lib(factory, ".".join(made[0]))}[c["obj"]]()
    okd = rejected = 0
    for n, s in enumerate(c["steps"]):
        src = [i % len(ms) for i in s["from"]]
        parts = [made[i][p] for p, i in enumerate(src)]
        if s["flip"] and parts[3 + n % 2]:
            raw = bytearray(ref.unb64u(parts[3 + n % 2]))
            raw[n % len(raw)] ^= 1
            parts[3 + n % 2] = ref.b64u(bytes(raw))
        tok = ".".join(parts)
        h = hs[src[0]]
        mine = [i for i in range(len(ms)) if s["keys"] >> i & 1]
        pin = None if s["pin"] is None else h["alg"] if s["pin"] == 0 else list(ref.KM_ALGS)[n % len(ref.KM_ALGS)]
        # must: a key of the token's own name opens it; may: some key does
        must = may = False
        pt = None
        for i in mine:
            if jweg.km_kty(h["alg"]) != rks[i].kty:
                continue
            try:
                pt = ref.jwe_open(tok, rks[i])[1]
                may = True
                must = must or h.get("kid", "key%d" % i) == "key%d" % i
            except (ref.RefError, ValueError, TypeError, AttributeError, KeyError):
                pass
        must, may = must and pin in (None, h["alg"]), may and pin in (None, h["alg"])
        ok, r = attempt(v.decrypt, tok.encode() if s["bytes"] else tok, [keys_[i] for i in mine], alg=pin)
        what = "use %d of one object (%s), pinned to %s" % (n + 1, c["obj"], pin)
        check(may or not ok, "%s: decrypted %s to %s", what, tok, r)
        # what a factory made is about its token
        if c["obj"] != "factory" or not c["kids"]:
            check(ok or not must, "%s: does not decrypt %s: %s", what, tok, r)
        if ok:
            check(r == pt, "%s: decrypted %s to %s", what, tok, r)
            okd += 1
        else:
            rejected += 1
    return ["decrypted" if okd else "none decrypted", "rejected" if rejected else "none rejected", c["obj"]] + ([] if okd else ["trivial"])
