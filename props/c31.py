"""C31: operations do not disturb keys, inputs or each other."""
import json
import sys
import threading

from hypothesis import strategies as st

from lib import gen, pristine, ref, routes
from lib.core import Enum, Search, Violation, attempt, check, lib

ID = "C31"
TECHNIQUE = ("stateful property-based testing: generated operation histories over a shared pool, deep snapshots after every step, each "
             "outcome compared with the same operation alone in a forked pristine process; generated line-level thread interleavings")
LEVEL_NOTE = ("Generated-input search: every history and schedule generated held; not a proof for others. Known finding: sign_json adds "
              "'alg' to the caller's protected header dictionary (fixed by an existing test).")
RULE = ("Case: a pool of 2-4 keys, shared payloads/headers/key lists/key set, and a history of 2-8 operations (sign, verify, encrypt, "
        "decrypt, JSON forms, export, recognise, load, copy, compare; succeeding or failing; objects created early and used later), or "
        "1-2 threads with a line-level schedule. Oracle: snapshots of all inputs and library tables; outcome of the same operation alone "
        "in a pristine process. Trivial: histories in which no operation succeeds.")
FINDING = "C31-sign-json-adds-alg"

from jwkest import jwe, jwk, jws, jwt  # noqa: E402
from jwkest.ecc import P256, P384, P521  # noqa: E402
from jwkest.jwe import JWE, factory  # noqa: E402
from jwkest.jwk import KEYS, keyrep, make_public_copy  # noqa: E402
from jwkest.jws import JWS  # noqa: E402


# ------------------------------------------------------------ snapshots
def plain(v, depth=5):
    if isinstance(v, (str, int, float, bytes, bool)) or v is None:
        return repr(v)
    if depth == 0:
        return type(v).__name__
    if isinstance(v, dict):
        return ["dict"] + [[plain(a, depth - 1), plain(b, depth - 1)] for a, b in v.items()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [plain(i, depth - 1) for i in v]
    return [type(v).__name__, id(v)]


TABLES = [(jws, ["SIGNER_ALGS", "ALG2CURVE"]), (jws.JWx, ["args"]), (JWS, ["args"]), (JWE, ["args"]), (jwe, ["SUPPORTED", "KEYLEN", "ENCALGLEN1", "ENCALGLEN2"])] + [
    (c, ["args"]) for c in (jwe.JWE_SYM, jwe.JWE_RSA, jwe.JWE_EC)] + [(jwk, ["DIGEST_HASH", "ALG2KEYLEN"])] + [
    (c, ["members", "public_members", "longs", "required"]) for c in (jwk.Key, jwk.RSAKey, jwk.ECKey, jwk.SYMKey)]


PARAMS = {c.name(): sorted(k for k, v in vars(c).items() if isinstance(v, (int, str, tuple)) and not k.startswith("_")) for c in (P256, P384, P521)}


def tables():
    out = {}
    for o, ns in TABLES:
        for n in ns:
            v = getattr(o, n, None)
            out["%s.%s" % (getattr(o, "__name__", o), n)] = plain(v)
    for c in (P256, P384, P521):
        out["curve " + c.name()] = [c.name(), plain({k: vars(c).get(k) for k in PARAMS[c.name()]}), c.int2bytes(1).hex()]
    return out


def key_state(k):
    r = {"type": type(k).__name__}
    for m in ("kty", "kid", "use", "alg", "x5c", "x5t", "x5u", "crv", "n", "e", "d", "p", "q", "x", "y", "k"):
        if hasattr(k, m):
            v = getattr(k, m)
            r[m] = plain(v)
    for f in (False, True):
        r["export", f] = attempt(k.serialize, f)[1] if type(k) is not jwk.SYMKey else k.serialize()
        if isinstance(r["export", f], Exception):
            r["export", f] = type(r["export", f]).__name__
    if isinstance(k, jwk.RSAKey):
        r["obj"] = [k.key.n, k.key.e, k.key.has_private(), k.key.d if k.key.has_private() else None]
    elif isinstance(k, jwk.ECKey):
        r["curve"] = k.curve.name()
    else:
        r["key"] = plain(k.key)
    r["extra"] = plain(k.extra_args)
    return {str(a): b for a, b in r.items()}


class Pool(object):
    """Everything operations share."""

    def __init__(self, c):
        self.specs = c["keys"]
        self.keys = [lib(routes.build, k["route"], k["key"], k["private"], k["meta"]) for k in c["keys"]]
        self.list = list(self.keys)
        self.set = KEYS()
        for k in self.keys:
            self.set.append(k)
        self.payloads = [gen.payload_value(p) for p in c["payloads"]]
        self.headers = [json.loads(json.dumps(h)) for h in c["headers"]]
        self.doc = {"keys": [routes.jwk_dict(k["key"], k["private"], k["meta"]) for k in c["keys"]]}
        self.token = None

    def snapshot(self):
        return {"keys": [key_state(k) for k in self.keys], "list": [id(k) for k in self.list], "set": [id(k) for k in self.set],
                "payloads": plain(self.payloads), "headers": plain(self.headers), "doc": plain(self.doc), "tables": tables()}


def where(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] != b.get(k):
                return where(a[k], b.get(k), path + "/" + str(k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, path + "/%d" % i)
    return "%s: %s became %s" % (path, a, b)


# ------------------------------------------------------------ operations
ES_OF = {v[0]: a for a, v in ref.ES.items()}
ENC = ["A128CBC-HS256", "A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128CBC-HS256", "A128GCM"]


def algs(spec):
    if spec["t"] == "RSA":
        s = [a for a in ("RS256", "RS384", "RS512", "PS256", "PS384") if gen.rsa_ok(a, gen.RSA_KEYS[spec["i"]]["bits"])]
        e = ["RSA-OAEP", "RSA1_5", "RSA-OAEP-256"]
    elif spec["t"] == "EC":
        s, e = [ES_OF[spec["crv"]]], ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"]
    else:
        s, e = ["HS256", "HS384", "HS512"], ["A128KW", "A192KW", "A256KW"]
    return s, e


def container(pool, o, i):
    how = o["keys"]
    return {"one": lambda: [pool.keys[i]], "list": lambda: pool.list, "set": lambda: pool.set, "tuple": lambda: tuple(pool.list),
            "rest": lambda: [k for j, k in enumerate(pool.keys) if j != i]}[how]()


def tamper(tok, t):
    if not t:
        return tok
    parts = tok.split(".")
    n = t % len(parts)
    p = parts[n]
    if p:
        j = (t * 7) % len(p)
        parts[n] = p[:j] + ("A" if p[j] != "A" else "B") + p[j + 1:]
    return ".".join(parts)


def ref_jws(pool, o, i, alg):
    spec = pool.specs[i]
    h = {"alg": alg}
    if o["kid"] and spec["meta"]["kid"]:
        h["kid"] = spec["meta"]["kid"]
    from lib import rng
    rnd = rng.fixed_bytes(b"c31-%d" % o["v"], 200)
    return ref.jws_sign(json.dumps(h), b'{"a": [1, 2]}' if o["v"] % 2 else b"plain text", gen.rkey(spec["key"]), alg, rnd)


def ref_jwe(pool, o, i, alg, enc):
    spec = pool.specs[i]
    h = {"alg": alg, "enc": enc}
    if o["kid"] and spec["meta"]["kid"]:
        h["kid"] = spec["meta"]["kid"]
    if o["v"] % 3 == 1:
        h["zip"] = "DEF"
    from lib import rng
    r = rng.fixed_bytes(b"c31e-%d" % o["v"], 800)
    r1 = bytes(x or 1 for x in r[200:])
    bits = gen.RSA_KEYS[spec["key"]["i"]]["bits"] if spec["key"]["t"] == "RSA" else 0
    rnd = r1[:(bits + 7) // 8] if alg == "RSA1_5" else r1[:20] if alg == "RSA-OAEP" else r1[:32]
    return ref.jwe_make(h, b"secret %d" % o["v"], gen.rkey(spec["key"]), r[:ref.ENC_KEYLEN[enc]], r[100:100 + ref.ivlen(enc)], rnd, eph_d=o["v"] + 7)


def opened_jws(pool, tok):
    """A token as its header, payload and who could have signed it."""
    h = json.loads(ref.unb64u(tok.split(".")[0]))
    payload = ref.unb64u(tok.split(".")[1])
    who = []
    for i, s in enumerate(pool.specs):
        if s["key"]["t"] == (ref.alg_kty(h["alg"]) if h.get("alg") in ref_algs() else None):
            if s["key"]["t"] == "EC" and ES_OF[s["key"]["crv"]] != h["alg"]:
                continue
            if ref.jws_sig_ok(h["alg"], gen.rkey(s["key"]), tok.rsplit(".", 1)[0].encode(), ref.unb64u(tok.rsplit(".", 1)[1])):
                who.append(i)
    return [json.dumps(h, sort_keys=True), payload.hex(), who]


def ref_algs():
    return [a + b for a in ("HS", "RS", "PS", "ES") for b in ("256", "384", "512")]


def opened_jwe(pool, tok):
    h = json.loads(ref.unb64u(tok.split(".")[0]))
    h2 = {k: v for k, v in h.items() if k not in ("epk", "apu", "apv")}
    h2["members"] = sorted(h)
    got = []
    for i, s in enumerate(pool.specs):
        try:
            got.append([i, ref.jwe_open(tok, gen.rkey(s["key"]))[1].hex()])
        except (ref.RefError, KeyError, ValueError, AttributeError):
            pass
    return [json.dumps(h2, sort_keys=True), got]


def spoil(*vals):
    """What was handed out is the caller's, who may do anything with it."""
    for v in vals:
        if isinstance(v, dict):
            spoil(*v.values())
            v.clear()
            v["alg"] = "spoiled"
        elif isinstance(v, list):
            spoil(*v)
            v[:] = ["spoiled"]


def told(v, *more):
    r = repr(v)
    spoil(v, *more)
    return r


def seen(obj):
    t = getattr(obj, "jwt", None)
    h = getattr(t, "headers", None)
    return h if isinstance(h, dict) else {}


def construct(pool, o):
    """First half of an operation: returns the second half."""
    op, v = o["op"], o["v"]
    i = o["i"] % len(pool.keys)
    spec = pool.specs[i]
    sa, ea = algs(spec["key"])
    alg, ealg, enc = sa[v % len(sa)], ea[v % len(ea)], ENC[v % len(ENC)]
    if o["wrongalg"]:
        alg, ealg = ["none", "ES256", "HS256", "RS256", "XX"][v % 5], ["A128KW", "RSA-OAEP", "ECDH-ES", "dir", "XX"][v % 5]
    pay = pool.payloads[v % len(pool.payloads)]
    keys = container(pool, o, i)
    hdr = pool.headers[v % len(pool.headers)] if o["hdr"] else None
    kw = {}
    if o["kid"] and spec["meta"]["kid"]:
        kw["kid"] = spec["meta"]["kid"]
    if op == "sign":
        obj = JWS(pay, alg=alg, **dict(kw, **({"typ": "JWT"} if v % 4 == 1 else {})))
        return lambda: opened_jws(pool, obj.sign_compact(keys, protected=hdr))
    if op == "sign_json":
        text = "text %d" % v
        obj = JWS(text, alg=alg)
        hs = [[dict(hdr or {}, alg=alg), {"kid": "u"}]] * (1 + v % 2) if o["hdr"] else None
        return lambda: opened_json(pool, obj.sign_json(keys, headers=hs, flatten=bool(v & 1)))
    if op == "verify":
        tok = tamper(ref_jws(pool, o, i, sa[v % len(sa)]), o["tamper"])
        obj = JWS() if v % 3 else JWS(alg=alg)
        vk = {"sigalg": alg} if v % 5 == 2 else {}
        if v % 5 == 3:
            return lambda: verbose(pool, obj.verify_compact_verbose(tok, keys, **vk))
        return lambda: told(obj.verify_compact(tok, keys, **vk), seen(obj))
    if op == "verify_json":
        h, p, s = ref_jws(pool, o, i, sa[v % len(sa)]).split(".")
        s = tamper(s, o["tamper"])
        d = {"payload": p, "protected": h, "signature": s} if v & 1 else {"payload": p, "signatures": [{"protected": h, "signature": s}] * (1 + v % 3)}
        obj = JWS()
        return lambda: told(obj.verify_json(json.dumps(d), keys), seen(obj))
    if op == "encrypt":
        pt = [b"plain", "text \u00e5", b"", b"x" * 300][v % 4]
        if v % 3 == 1:
            kw["zip"] = "DEF"
        if ealg.startswith("ECDH") and v % 2:
            kw.update(apu="QWxpY2U", apv="Qm9i")
        if spec["key"]["t"] == "EC" and ealg.startswith("ECDH") and v % 5 == 2 and spec["private"]:
            kw["epk"] = pool.keys[i]
        obj = JWE(pt, alg=ealg, enc=enc, **kw)
        return lambda: opened_jwe(pool, obj.encrypt(keys))
    if op in ("decrypt", "factory-decrypt"):
        tok = tamper(ref_jwe(pool, o, i, ea[v % len(ea)], enc), o["tamper"])
        if op == "factory-decrypt":
            obj = factory(tok)
            return lambda: repr(obj.decrypt(keys=keys)) if obj is not None else "none"
        obj = JWE()
        if o["wrongalg"]:
            return lambda: repr(obj.decrypt(tok, keys, alg=ealg))
        return lambda: repr(obj.decrypt(tok, keys))
    if op == "recognise":
        a, b = ref_jws(pool, o, i, sa[v % len(sa)]), ref_jwe(pool, o, i, ea[v % len(ea)], enc)
        a, b = tamper(a, o["tamper"]), tamper(b, o["tamper"])
        obj = JWS()
        return lambda: [obj.is_jws(a), obj.is_jws(b), factory(a) is not None, factory(b) is not None,
                        obj.is_jws(json.dumps({"payload": "", "signatures": []}))]
    if op == "unpack":
        tok = tamper(ref_jws(pool, o, i, sa[v % len(sa)]), o["tamper"])
        obj = jwt.JWT()

        def run():
            t = obj.unpack(tok)
            r = [json.dumps(t.headers, sort_keys=True), told(t.payload()), len(t.part)]
            spoil(t.headers)
            return r
        return run
    if op == "pack":
        obj = jwt.JWT(**dict(hdr or {}))
        return lambda: obj.pack(parts=[pay, b"x"])
    k = pool.keys[i]
    if op == "export":
        return lambda: [told(k.serialize()), told(k.serialize(True)), sorted(k.keys())]
    if op == "text":
        return lambda: [sorted(str(k)), repr(pool.set), pool.set.dump_jwks(), told(k.to_dict())]
    if op == "thumbprint":
        h = ["SHA-256", "SHA-384", "SHA-512"][v % 3]
        return lambda: [k.thumbprint(h).hex(), k.get_hash(h), hash(k), k.thumbprint(h, ["kty"]).hex()]
    if op == "load":
        def run():
            ks = KEYS()
            ks.load_dict(pool.doc)
            ks.add(pool.doc["keys"][i], **({"enc": None} if v & 1 else {}))
            return [ks.dump_jwks(), [x == y for x, y in zip(ks, pool.keys)]]
        return run
    if op == "badload":
        return lambda: KEYS().load_dict({"keys": pool.doc["keys"] + [{"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}]})
    if op == "copy":
        return lambda: [make_public_copy(x).serialize() for x in pool.keys]
    if op == "compare":
        return lambda: [[a == b for b in pool.keys] for a in pool.keys] + [len(set(pool.keys)), k in pool.list]
    if op == "lookup":
        return lambda: [len(pool.set["RSA"]), len(pool.set["ec"]), told(pool.set.kids()), sorted(pool.set.key_types()), [sorted(a) for a in [pool.set.as_dict()]],
                        len(pool.set.by_kid("1"))]
    if op == "wrap":
        return lambda: [jwk.jwk_wrap(gen._rsaobj(v % 3, True), use="sig", kid="w").serialize()["n"], jwk.jwk_wrap(P256).crv]
    if op == "cert":
        return lambda: jwk.RSAKey(x5c=["AAAA"], x5t="AAAA").serialize()
    raise AssertionError(op)


def opened_json(pool, t):
    d = json.loads(t)
    out = []
    for s in d.get("signatures", [d]):
        out.append(opened_jws(pool, ".".join([s["protected"], d["payload"], s["signature"]])) + [s.get("header")])
    return [sorted(d), out]


def verbose(pool, r):
    return [told(r["msg"]), [i for i, k in enumerate(pool.keys) if k is r.get("key")]]


OPS = ["sign", "sign", "sign", "sign_json", "verify", "verify", "verify_json", "encrypt", "encrypt", "decrypt", "decrypt", "factory-decrypt", "recognise",
       "unpack", "pack", "export", "text", "thumbprint", "load", "badload", "copy", "compare", "lookup", "wrap", "cert"]


def outcome(half):
    try:
        r = half()
    except Violation:
        raise
    except Exception as e:
        return ["error", type(e).__name__]
    return ["ok", json.loads(json.dumps(r))]


def half_or_error(pool, o):
    try:
        return construct(pool, o)
    except Violation:
        raise
    except Exception as e:
        err = type(e).__name__

        def run():
            raise Exc(err)
        return run


class Exc(Exception):
    pass


def finish(half):
    try:
        return outcome(lambda: half())
    except Exc:
        raise


def alone(req):
    """In the pristine process: one operation on its own pool."""
    from lib import rng
    rng.reset(b"c31 alone")
    pool = Pool(req["case"])
    half = half_or_error(pool, req["op"])
    return outcome(half)


def start():
    # of the cryptographic library, not of the one under test
    for i in gen.RSA_SMALL:
        gen._rsaobj(i, True), gen._rsaobj(i, False)
    pristine.start(alone)


def check_outcomes(c, got, what):
    for o, g in got:
        want = pristine.call({"case": {k: c[k] for k in ("keys", "payloads", "headers")}, "op": o})
        check(g == want, "%s: %s gives %s, alone in a fresh process %s", what, o, g, want)


def p_history(c):
    start()
    from lib import rng
    pool = Pool(c)
    before = pool.snapshot()
    pending, got = [], []

    def run(o, half):
        got.append((o, outcome(half)))
        after = pool.snapshot()
        check(after == before, "%s changed %s", o, where(before, after) if after != before else "")
    for o in c["ops"]:
        half = half_or_error(pool, o)
        if o["late"]:
            pending.append((o, half))
            after = pool.snapshot()
            check(after == before, "constructing for %s changed %s", o, where(before, after) if after != before else "")
        else:
            run(o, half)
            if pending and o["v"] % 2:
                run(*pending.pop(0))
    while pending:
        run(*(pending.pop() if c["lifo"] else pending.pop(0)))
    check_outcomes(c, got, "after %d operations" % len(got))
    tags = [o["op"] + (" ok" if g[0] == "ok" else " fails") for o, g in got]
    if not any(g[0] == "ok" for _, g in got):
        tags.append("trivial")
    return tags


def s_pool():
    cheap = st.one_of(st.sampled_from(gen.RSA_SMALL).map(lambda i: {"t": "RSA", "i": i}), gen.oct_spec(1, 40), gen.ec_spec())
    key = st.tuples(cheap, st.sampled_from([True, True, False]), st.fixed_dictionaries({
        "kid": st.sampled_from(["", "", "1", "2"]), "use": st.sampled_from(["", "", "", "sig", "enc"]), "alg": st.just("")})).flatmap(
        lambda t: st.sampled_from(routes.routes(*t)).map(lambda r: {"key": t[0], "private": t[1], "meta": t[2], "route": r}))
    hdr = gen.header_params.filter(lambda h: len(json.dumps(h)) < 300)
    reg = st.fixed_dictionaries({}, optional={"typ": gen.typs, "cty": st.sampled_from(["JWT", "text/plain"]), "kid": st.sampled_from(["1", "2", "3"]),
                                              "alg": st.sampled_from(["HS256", "none", "RS256"]), "x5u": st.just("https://example.com/c"),
                                              "x5c": st.just(["AAAA"]), "jku": st.just("https://example.com/k"), "crit": st.just(["exp"])})
    hdr = st.one_of(hdr, st.tuples(hdr, reg).map(lambda t: dict(t[0], **t[1])))
    # JSON payloads are shared objects of the caller
    # (and may hold byte strings in place of texts)
    pay = st.one_of(gen.claims.map(lambda v: {"jb": v}), gen.claims.map(lambda v: {"j": v}), gen.text_payload.map(lambda t: {"t": t}), gen.hexbytes(0, 40).map(lambda b: {"b": b}))
    return st.tuples(st.lists(key, min_size=2, max_size=4), st.lists(pay, min_size=1, max_size=2), st.lists(hdr, min_size=1, max_size=2))


def s_op():
    return st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "i": st.integers(0, 3), "v": st.integers(0, 59), "keys": st.sampled_from(["one", "one", "list", "set", "tuple", "rest"]),
        "wrongalg": st.sampled_from([False] * 5 + [True]), "hdr": st.booleans(), "kid": st.sampled_from([False, False, True]),
        "tamper": st.sampled_from([0, 0, 0, 1, 2, 3, 4, 9]), "late": st.sampled_from([False, False, True])})


def s_history():
    return st.tuples(s_pool(), st.lists(s_op(), min_size=2, max_size=8), st.booleans(), gen.rng_spec).map(
        lambda t: {"keys": t[0][0], "payloads": t[0][1], "headers": t[0][2], "ops": t[1], "lifo": t[2], "rng": t[3]})


# ------------------------------------------------------------ threads
class Schedule(object):
    """Runs functions in threads, one at a time, changing over at lines of the
    library as the schedule says."""
    FILES = ("jws.py", "jwe.py", "jwk.py", "jwt.py", "__init__.py", "extra.py", "ecc.py",
             "aes_key_wrap.py")

    def __init__(self, fns, runs):
        self.fns, self.runs = fns, runs or [1]
        self.pos = 0
        self.left = self.runs[0]
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(len(fns)))
        self.cur = 0
        self.results = [None] * len(fns)
        self.switches = 0

    def tick(self, me):
        self.left -= 1
        if self.left > 0 or len(self.alive) < 2:
            return
        self.pos += 1
        self.left = self.runs[self.pos % len(self.runs)]
        self.hand(me)
        self.sems[me].acquire()

    def hand(self, me):
        others = sorted(self.alive - {me})
        if others:
            nxt = next((o for o in others if o > me), others[0])
            self.switches += 1
            self.sems[nxt].release()

    def body(self, me):
        self.sems[me].acquire()

        def local(frame, event, arg):
            if event == "line":
                self.tick(me)
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            if "jwkest" in f and f.rsplit("/", 1)[-1] in self.FILES:
                return local
            return None
        sys.settrace(tracer)
        try:
            self.results[me] = self.fns[me]()
        except BaseException as e:
            self.results[me] = e
        finally:
            sys.settrace(None)
            self.alive.discard(me)
            self.hand(me)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        for t in ts:
            t.start()
        self.sems[0].release()
        for t in ts:
            t.join()
        return self.results


def p_threads(c):
    start()
    pool = Pool(c)
    before = pool.snapshot()
    fns = [lambda o=o: outcome(half_or_error(pool, o)) for o in c["ops"]]
    sch = Schedule(fns, c["runs"])
    res = sch.run()
    for r in res:
        if isinstance(r, BaseException):
            raise r
    after = pool.snapshot()
    check(after == before, "concurrent operations changed %s", where(before, after) if after != before else "")
    check_outcomes(c, list(zip(c["ops"], res)), "interleaved with %d other(s)" % (len(res) - 1))
    return [o["op"] for o in c["ops"]] + ([] if sch.switches > len(fns) else ["trivial"])


def s_threads():
    # operations of one kind meet at the same places
    ops = st.one_of(st.lists(s_op(), min_size=2, max_size=3),
                    s_op().flatmap(lambda o: st.lists(s_op().map(lambda x: dict(x, op=o["op"])), min_size=1, max_size=2).map(lambda l: [o] + l)))
    return st.tuples(s_pool(), ops, st.lists(st.one_of(st.integers(1, 4), st.integers(1, 40)), min_size=1, max_size=12)).map(
        lambda t: {"keys": t[0][0], "payloads": t[0][1], "headers": t[0][2], "ops": t[1], "runs": t[2]})


# ------------------------------------------------------------ sign_json
def s_signjson():
    return st.tuples(gen.any_key, st.lists(st.tuples(st.booleans(), gen.header_params, st.booleans(), gen.header_params), min_size=1, max_size=3),
                     st.booleans()).map(lambda t: {"key": t[0], "hs": t[1], "flat": t[2]})


def p_signjson(c):
    """The headers argument of sign_json."""
    spec = c["key"]
    alg = algs(spec)[0][0] if algs(spec)[0] else "RS256"
    k = gen.lkey(spec)
    hs = [((dict(p) if a else None), (dict(u) if b else None)) for a, p, b, u in c["hs"]]
    was = json.dumps(hs)
    exact = json.dumps([((dict(p, alg=alg) if a and p else p), u) for (a, p0, b, u0), (p, u) in zip(c["hs"], hs)])
    attempt(JWS("text", alg=alg).sign_json, [k], headers=hs, flatten=c["flat"])
    now = json.dumps(hs)
    if now != was:
        ok = all((p2 == p1 or (p1 and p2 == dict(p1, alg=alg))) and u1 == u2 for (p1, u1), (p2, u2) in zip(json.loads(was), json.loads(now)))
        raise Violation("sign_json changed the caller's headers from %s to %s" % (was, now), FINDING if ok and len(json.loads(now)) == len(json.loads(was)) else None)
    return ["trivial"] if exact == was else []


SUBTESTS = [
    Search("history", s_history(), p_history, quick=900, thorough=25000),
    Search("interleaved", s_threads(), p_threads, quick=500, thorough=12000),
    Search("sign_json headers", s_signjson(), p_signjson, quick=300, thorough=4000),
]
