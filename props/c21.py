"""C21: every secret and nonce is fresh and unpredictable."""
import contextlib
import hashlib
import io
import json
import os
import random
import runpy
import shutil
import signal
import sys
import tempfile

from hypothesis import strategies as st

from lib import core, gen, jweg, ref, rng
from lib.core import Enum, Search, check, lib

ID = "C21"
RULE = ("Case: sequence of encryptions, signatures, key generations and key tool runs over fresh and reused objects, the process's "
        "ordinary generator being seeded equally or restored before any of them. Every content key, initialization vector, ephemeral "
        "key, nonce (recovered from the signature) and generated key is collected; none may repeat within the case, and each step "
        "must draw at least as many octets from the operating system's source as it has secret octets. 'bits': over 64 samples every "
        "bit position takes both values. Trivial: sequences with fewer than two secrets.")

from jwkest.ecc import NISTEllipticCurve  # noqa: E402
from jwkest.jwe import JWE  # noqa: E402
from jwkest.jwk import ECKey  # noqa: E402
from jwkest.jws import JWS  # noqa: E402

BIG = [i for i, k in enumerate(gen.RSA_KEYS) if k["bits"] == 1048][0]


MSGS = ["message", b"", b"\xff" * 7, "\u00e5" * 300, b"long " * 800, b"x" * 16, {"json": "value"}]


def key_spec(alg):
    t = jweg.km_kty(alg)
    return {"RSA": {"t": "RSA", "i": BIG}, "oct": {"t": "oct", "k": "736563726574"},
            "EC": {"t": "EC", "crv": "P-256", "d": "1234567"}}[t]


def tool(name, argv):
    """Run a command-line tool in this process; returns its output."""
    out = io.StringIO()
    old = sys.argv
    sys.argv = [name] + argv
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(os.path.join(core.REPO, "script", name + ".py"), run_name="__main__")
    finally:
        sys.argv = old
    return out.getvalue()


def nonce(crv, sig, z, d):
    n = ref.CURVES[crv].n
    w = len(sig) // 2
    r, s = ref.b2i(sig[:w]), ref.b2i(sig[w:])
    return pow(s, -1, n) * (z + r * d) % n


class World(object):
    def __init__(self):
        self.objs = {}
        self.seen = {}
        self.octets = {}
        self.state = None
        self.n = 0

    def secret(self, kind, value, length=None):
        self.n += 1
        if length is not None:
            check(len(value) == length, "%s has %d octets, not %d" % (kind, len(value), length))
        v = value.hex() if isinstance(value, bytes) else str(value)
        k = "symmetric" if kind in ("cek", "key") else kind
        check((k, v) not in self.seen, "%s %s repeats that of step %s" % (kind, v, self.seen.get((k, v))))
        self.seen[k, v] = self.n
        if isinstance(value, bytes):
            # nor may one secret be seen in another (random octets agree in
            # eight places with probability 2^-64)
            for i in range(len(value) - 7):
                x = value[i:i + 8]
                if not x[0]:
                    continue    # the simulated source delivers runs of zeros
                check((x not in self.octets or self.octets[x] == self.n), "%s %s has octets in common with the secret of step %s", kind, v,
                      self.octets.get(x))
                self.octets[x] = self.n


def step(w, o):
    if o["seed"] == "seed":
        random.seed(42)
    elif o["seed"] == "restore":
        if w.state is None:
            w.state = random.getstate()
        else:
            random.setstate(w.state)
    before = rng.S.total
    need = 0
    op = o["op"]
    if op == "enc":
        alg, enc = o["alg"], o["enc"]
        spec = o.get("key") or key_spec(alg)
        v = o.get("v") or {}
        key = gen.lkey(spec, private=v.get("priv", False), **v.get("meta", {}))
        msg = MSGS[v.get("msg", 0)]
        hdr = v.get("hdr") or {}
        if not alg.startswith("ECDH"):
            hdr = {k: x for k, x in hdr.items() if k not in ("apu", "apv")}
        name = (alg, enc, json.dumps(v, sort_keys=True))
        obj = w.objs.get(name) if o["reuse"] else None
        if obj is None:
            obj = w.objs[name] = JWE(msg, alg=alg, enc=enc, **hdr)
        if o.get("reply"):
            # the object has just decrypted what somebody else sent
            rspec = key_spec(o["reply"][0])
            q = lib(JWE(b"question", alg=o["reply"][0], enc=o["reply"][1]).encrypt, [gen.lkey(rspec, private=False)])
            _, _, raw, cek = ref.jwe_open(q, gen.rkey(rspec))
            w.secret("cek", cek, ref.ENC_KEYLEN[o["reply"][1]])
            w.secret("iv", raw[2])
            check(lib(obj.decrypt, q, [gen.lkey(rspec)]) == b"question", "decrypted to something else")
            before = rng.S.total
        kw = {}
        if o["give"] == "iv" and not alg.startswith("ECDH"):
            kw["iv"] = hashlib.sha256(b"iv").digest()[:ref.ivlen(enc)]
        if o["give"] == "cek" and alg.startswith("A"):
            kw["cek"] = (hashlib.sha256(b"cek").digest() * 2)[:ref.ENC_KEYLEN[enc]]
        t = lib(obj.encrypt, [key], **kw)
        drawn = rng.S.total - before
        h, pt, raw, cek = ref.jwe_open(t, gen.rkey(spec))
        check(pt == (msg if isinstance(msg, bytes) else msg.encode("utf-8")), "decrypts to %s", pt)
        if "iv" not in kw:
            w.secret("iv", raw[2], ref.ivlen(enc))
            need += ref.ivlen(enc)
        if "cek" not in kw:
            w.secret("cek", cek, ref.ENC_KEYLEN[enc])
            if alg != "ECDH-ES":
                need += ref.ENC_KEYLEN[enc]
        if alg.startswith("ECDH"):
            for m in ("apu", "apv"):
                if h.get(m) and m not in hdr:
                    w.secret(m, ref.unb64u(h[m]))
            w.secret("ephemeral key", h["epk"]["crv"] + h["epk"]["x"])
            need += ref.CURVES[spec["crv"]].size
    elif op == "sign":
        alg = o["alg"]
        crv, hn = ref.ES[alg]
        v = o.get("v") or {}
        spec = {"t": "EC", "crv": crv, "d": v.get("d", "abcdef0123456789")}
        name = (alg, json.dumps(v, sort_keys=True))
        obj = w.objs.get(name) if o["reuse"] else None
        if obj is None:
            obj = w.objs[name] = JWS(MSGS[v.get("msg", 0)], alg=alg)
        t = lib(obj.sign_compact, [gen.lkey(spec, **dict(v.get("meta", {}), **({"use": "sig"} if v.get("meta", {}).get("use") else {})))])
        drawn = rng.S.total - before
        h, p, s = t.split(".")
        dg = ref.HASHES[hn]((h + "." + p).encode()).digest()
        sig = ref.unb64u(s)
        w.secret("nonce", "%s %x" % (crv, nonce(crv, sig, ref.ecdsa_h(ref.CURVES[crv], ref.b2i(dg), 8 * len(dg)), int(spec["d"], 16))))
        need = ref.CURVES[crv].bits // 8
    elif op == "primsign":
        cv = NISTEllipticCurve.by_name(o["crv"])
        h, d = o.get("h", 12345), o.get("d", 67890)
        sig = lib(cv.sign, h, d)
        drawn = rng.S.total - before
        w.secret("nonce", "%s %x" % (o["crv"], nonce(o["crv"], sig, h, d)))
        need = ref.CURVES[o["crv"]].bits // 8
    elif op == "keypair":
        cv = NISTEllipticCurve.by_name(o["crv"])
        if o["via"] == "curve":
            d = lib(cv.key_pair)[0]
        else:
            d = lib(ECKey().load_key, cv).d
        drawn = rng.S.total - before
        check(isinstance(d, int) and 1 <= d < ref.CURVES[o["crv"]].n, "private scalar %s", d)
        w.secret("private scalar", "%s %x" % (o["crv"], d))
        need = ref.CURVES[o["crv"]].bits // 8
    elif op == "symtool":
        out = lib(tool, "gen_symkey", ["-n", str(o["n"])])
        drawn = rng.S.total - before
        k = json.loads(out)["keys"][0]["k"]
        w.secret("key", ref.unb64u(k), o["n"])
        need = o["n"] * 5 // 8
    else:
        d = tempfile.mkdtemp(prefix="c21")
        try:
            lib(tool, "jwk_create", ["-n", "k", "-p", d, "-s", "1024"])
            drawn = rng.S.total - before
            from Cryptodome.PublicKey import RSA
            with open(os.path.join(d, "k.key"), "rb") as f:
                k = RSA.import_key(f.read())
        finally:
            shutil.rmtree(d)
        for v in (k.p, k.q):
            w.secret("prime", "%x" % int(v))
        need = 128
    check(drawn >= need, "%s draws only %s octets from the operating system's random source for %s secret octets", op, drawn, need)


def p_seq(c):
    w = World()
    for o in c["steps"]:
        step(w, o)
    return sorted({o["op"] for o in c["steps"]}) + (["trivial"] if w.n < 2 else [])


seeds = st.sampled_from(["seed", "seed", "restore", "restore", "none"])
metas = st.sampled_from([{}, {}, {"kid": "a"}, {"use": "enc"}, {"kid": "a long id " * 5, "use": "enc"}])
hdrs = st.sampled_from([{}, {}, {"zip": "DEF"}, {"cty": "JWT"}, {"typ": "JWE"}, {"apu": "QWxpY2U"}, {"apv": "Qm9i"}, {"apu": "QWxpY2U", "apv": "Qm9i"}])
enc_v = st.one_of(st.none(), st.fixed_dictionaries({"msg": st.integers(0, 5), "meta": metas, "hdr": hdrs, "priv": st.booleans()}))
sign_v = st.one_of(st.none(), st.fixed_dictionaries({"msg": st.sampled_from([0, 1, 2, 3, 4, 5, 6]), "meta": metas,
                                                     "d": st.sampled_from(["abcdef0123456789", "1", "7777"])}))
replies = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC * 2 + jweg.GCM)).map(list))
enc_op = st.one_of(st.tuples(st.sampled_from(ref.KM_ALGS), st.sampled_from(jweg.CBC * 4 + jweg.GCM)),
                   st.sampled_from([("A128KW", "A128CBC-HS256"), ("RSA1_5", "A128CBC-HS256"), ("ECDH-ES", "A128CBC-HS256")])).flatmap(
    lambda t: st.fixed_dictionaries({"op": st.just("enc"), "alg": st.just(t[0]), "enc": st.just(t[1]), "seed": seeds,
                                     "v": enc_v, "reuse": st.booleans(), "reply": replies, "give": st.sampled_from(["", "", "iv", "cek"])}))
steps = st.one_of(
    enc_op, enc_op, enc_op,
    st.fixed_dictionaries({"op": st.just("sign"), "alg": st.sampled_from(sorted(ref.ES)), "reuse": st.booleans(), "v": sign_v, "seed": seeds}),
    st.fixed_dictionaries({"op": st.just("primsign"), "crv": st.sampled_from(gen.CURVES), "seed": seeds,
                           "h": st.sampled_from([12345, 12345, 0, 1, 2**256 - 1]), "d": st.sampled_from([67890, 67890, 1, 2])}),
    st.fixed_dictionaries({"op": st.just("keypair"), "crv": st.sampled_from(gen.CURVES), "via": st.sampled_from(["curve", "key"]),
                           "seed": seeds}),
    st.fixed_dictionaries({"op": st.just("symtool"), "n": st.sampled_from([1 * 16, 24, 32, 48, 64]), "seed": seeds}))
s_seq = st.tuples(st.lists(steps, min_size=2, max_size=7), st.integers(0, 2**32), st.sampled_from([0, 0, 2, 3])).map(
    lambda t: {"steps": t[0], "rng": {"s": t[1], "z": t[2], "f": False}})


def pairs(tier):
    """Every kind of operation twice from the same state."""
    for sd in ("seed", "restore"):
        for reuse in (False, True):
            for alg in ref.KM_ALGS:
                for enc in ref.ENCS:
                    yield {"steps": [{"op": "enc", "alg": alg, "enc": enc, "seed": sd, "reuse": reuse, "give": ""}] * 2}
                    if reuse and sd == "seed":
                        yield {"steps": [{"op": "enc", "alg": alg, "enc": enc, "seed": sd, "reuse": True, "give": "", "v": {
                            "msg": 4, "meta": {"kid": "a", "use": "enc"}, "hdr": {"zip": "DEF"}, "priv": True}}] * 2}
            if reuse and sd == "seed":
                for alg in ref.KM_ALGS:
                    for i, got in enumerate(ref.KM_ALGS):
                        enc = jweg.CBC[i % 3]
                        yield {"steps": [{"op": "enc", "alg": alg, "enc": enc, "seed": sd, "reuse": reuse, "give": "", "reply": [got, enc]}] * 2}
            for alg in sorted(ref.ES):
                yield {"steps": [{"op": "sign", "alg": alg, "seed": sd, "reuse": reuse}] * 2}
                for i in range(7):
                    yield {"steps": [{"op": "sign", "alg": alg, "seed": sd, "reuse": reuse, "v": {"msg": i, "meta": {"kid": "a"} if i % 2 else {}, "d": "7777"}}] * 2}
        for crv in gen.CURVES:
            yield {"steps": [{"op": "primsign", "crv": crv, "seed": sd}] * 2}
            for via in ("curve", "key"):
                yield {"steps": [{"op": "keypair", "crv": crv, "via": via, "seed": sd}] * 2}
        for n in (1000, 48, 16):
            yield {"steps": [{"op": "symtool", "n": n, "seed": sd}] * 2}
        yield {"steps": [{"op": "rsatool", "seed": sd}] * 2}
        # epk for the other curves
        for crv in gen.CURVES:
            yield {"steps": [{"op": "enc", "alg": "ECDH-ES", "enc": "A128CBC-HS256", "seed": sd, "reuse": True, "give": "",
                              "key": {"t": "EC", "crv": crv, "d": "77777"}}] * 3}


def bits(tier):
    n = 64 if tier == "quick" else 256
    for enc in ref.ENCS:
        for alg in ("A128KW", "RSA1_5"):
            if enc not in jweg.GCM or alg == "A128KW":
                yield {"kind": "enc", "enc": enc, "alg": alg, "n": n}
    for crv in gen.CURVES:
        yield {"kind": "keypair", "crv": crv, "n": n}
        yield {"kind": "nonce", "crv": crv, "n": n}
        yield {"kind": "jws", "crv": crv, "n": n}
    yield {"kind": "symtool", "n": n}


def p_bits(c):
    vals = {}

    def add(name, v, nbits):
        vals.setdefault((name, nbits), []).append(v)
    for i in range(c["n"]):
        random.seed(i % 2)
        if c["kind"] == "enc":
            spec = key_spec(c["alg"])
            t = lib(JWE("m", alg=c["alg"], enc=c["enc"]).encrypt, [gen.lkey(spec, private=False)])
            _, _, raw, cek = ref.jwe_open(t, gen.rkey(spec))
            add("cek", ref.b2i(cek), 8 * ref.ENC_KEYLEN[c["enc"]])
            add("iv", ref.b2i(raw[2]), 8 * ref.ivlen(c["enc"]))
        elif c["kind"] == "keypair":
            add("private scalar", lib(NISTEllipticCurve.by_name(c["crv"]).key_pair)[0], ref.CURVES[c["crv"]].n.bit_length())
        elif c["kind"] == "nonce":
            sig = lib(NISTEllipticCurve.by_name(c["crv"]).sign, 1, 2)
            add("nonce", nonce(c["crv"], sig, 1, 2), ref.CURVES[c["crv"]].n.bit_length())
        elif c["kind"] == "jws":
            alg = [a for a in ref.ES if ref.ES[a][0] == c["crv"]][0]
            d = 99999
            t = lib(JWS("m", alg=alg).sign_compact, [gen.lkey({"t": "EC", "crv": c["crv"], "d": "%x" % d})])
            h, p, s = t.split(".")
            dg = ref.HASHES[ref.ES[alg][1]]((h + "." + p).encode()).digest()
            z = ref.ecdsa_h(ref.CURVES[c["crv"]], ref.b2i(dg), 8 * len(dg))
            add("nonce", nonce(c["crv"], ref.unb64u(s), z, d), ref.CURVES[c["crv"]].n.bit_length())
        else:
            k = ref.unb64u(json.loads(lib(tool, "gen_symkey", ["-n", "48"]))["keys"][0]["k"])
            for j, ch in enumerate(k):
                vals.setdefault(("octet %d" % j, "text"), []).append(ch)
    for (name, nb), vs in vals.items():
        if nb == "text":
            check(len(set(vs)) > 8, "%s of the key takes only the values %s", name, sorted(set(vs)))
            continue
        check(len(set(vs)) == len(vs), "%s repeats", name)
        o, a = 0, (1 << nb) - 1
        for v in vs:
            o |= v
            a &= v
        check(o == (1 << nb) - 1, "bits of the %s never set: %s", name, hex(o ^ ((1 << nb) - 1)))
        check(a == 0, "bits of the %s always set: %s", name, hex(a))
    return [c["kind"]]


def p_forked(c):
    """The same steps in two processes forked from one that has been at work:
    no secret of one is a secret of the other."""
    w = World()
    for o in c["warm"]:
        step(w, o)
    old = set(w.seen)
    got = []
    for i in (0, 1):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            res = {"error": "no answer"}
            try:
                signal.signal(signal.SIGPROF, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_PROF, 60)
                os.close(r)
                # the operating system's source gives each process its own
                rng.reset(b"process %d %d" % (i, c["rng"]["s"]), z=c["rng"]["z"])
                try:
                    for o in c["steps"]:
                        step(w, o)
                    res = {"seen": sorted(list(k) for k in set(w.seen) - old)}
                except BaseException as e:
                    res = {"error": "%s: %s" % (type(e).__name__, e)}
                with os.fdopen(wr, "w") as f:
                    json.dump(res, f)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        res = json.loads(text or '{"error": "no answer"}')
        check("error" not in res, "in a forked process: %s", res.get("error"))
        got.append({tuple(k) for k in res["seen"]})
    both = got[0] & got[1]
    check(not both, "two processes have the same secrets: %s", sorted(both)[:3])
    return sorted({o["op"] for o in c["steps"]}) + (["trivial"] if not got[0] else [])


s_forked = st.tuples(st.lists(steps, min_size=1, max_size=3), st.lists(steps, min_size=1, max_size=3), st.booleans(), st.integers(0, 2**32),
                     st.sampled_from([0, 0, 2])).map(
    lambda t: {"warm": t[0], "steps": t[0] + t[1] if t[2] else t[1], "rng": {"s": t[3], "z": t[4], "f": False}})


SUBTESTS = [
    Enum("pairs", pairs, p_seq),
    Enum("bits", bits, p_bits),
    Search("sequence", s_seq, p_seq, quick=700, thorough=20000),
    Search("forked", s_forked, p_forked, quick=160, thorough=5000),
]
