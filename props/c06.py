"""C06: JWS JSON serialization."""
import json

from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib
from props.c04 import spell

ID = "C06"
RULE = ("Case: text payload, 1-4 signers (algorithm, key, id, protected and unprotected headers), general or flattened; library-made "
        "documents are checked by the reference; reference-made documents with any subset of bad signatures, missing keys, altered, "
        "swapped or removed members, and altered library-made documents are judged by the reference. All cases are non-trivial.")

from jwkest.jws import JWS, factory  # noqa: E402

SMALL = [i for i in gen.RSA_SMALL if gen.rsa_ok("PS512", gen.RSA_KEYS[i]["bits"])][:3]
KID = ["", "a", "b", "c"]


def spec_for(alg):
    if alg[:2] == "HS":
        return st.sampled_from(["61" * 8, "62" * 40, "63" * 100]).map(lambda k: {"t": "oct", "k": k})
    if alg[:2] == "ES":
        return st.sampled_from(["1", "abcdef", "17"]).map(lambda d: {"t": "EC", "crv": ref.ES[alg][0], "d": d})
    return st.sampled_from(SMALL).map(lambda i: {"t": "RSA", "i": i})


algs = st.sampled_from(ref.JWS_ALGS + ["HS256", "HS384", "HS512", "RS256", "RS384"])
signer = algs.flatmap(lambda a: st.fixed_dictionaries({
    "alg": st.just(a), "key": spec_for(a), "kid": st.sampled_from(KID),
    "prot": st.one_of(st.just({}), gen.header_params, gen.typs.map(lambda t: {"typ": t})),
    "unprot": st.one_of(st.none(), st.just({}), gen.header_params), "say": st.booleans()}))
signers = st.lists(signer, min_size=1, max_size=4)
text = gen.text_payload


def norm(c):
    """Unprotected members must not repeat protected ones."""
    for s in c["signers"]:
        if s["unprot"]:
            s["unprot"] = {k: v for k, v in s["unprot"].items() if k not in s["prot"]}
    return c


def unique(ss):
    """Signers whose key is found by its id and algorithm alone."""
    return [dict(s, kid=(s["kid"] or "k") + str(i)) for i, s in enumerate(ss)]


def keys_of(ss, private, extra=()):
    return [gen.lkey(s["key"], private, kid=s["kid"]) for s in list(ss) + list(extra)]


s_made = st.fixed_dictionaries({"signers": signers, "msg": text, "flat": st.booleans(), "nohdr": st.booleans(), "typ": gen.opt_typ,
                                "extra": st.lists(signer, max_size=2), "rot": st.integers(0, 3), "rng": gen.rng_spec}).map(norm)


def judge(doc, keys):
    """The reference's verdict over a parsed document: payload octets, or
    RefError.  keys: (spec, kid, alg) triples."""
    if not isinstance(doc, dict) or not isinstance(doc.get("payload"), str):
        raise ref.RefError("document")
    if "signatures" in doc:
        entries = doc["signatures"]
    else:
        entries = [doc]
    if not isinstance(entries, list) or not entries:
        raise ref.RefError("signatures")
    out = None
    for e in entries:
        if not isinstance(e, dict) or not isinstance(e.get("protected"), str) or not isinstance(e.get("signature"), str):
            raise ref.RefError("entry")
        try:
            h = json.loads(ref.unb64u(e["protected"]).decode("utf-8"))
        except (ValueError, RecursionError):
            raise ref.RefError("protected")
        if not isinstance(h, dict):
            raise ref.RefError("protected")
        allh = dict(e.get("header") or {}, **h)
        if "crit" in allh:
            raise ref.RefError("crit")
        kid, alg = allh.get("kid"), h.get("alg")
        use = [gen.rkey(s) for s, k, a in keys if (not kid or k == kid) and a in ("", alg)]
        tok = ".".join([e["protected"], doc["payload"], e["signature"]])
        out = ref.jws_open(tok, use)[1]
    return out


def verify_all(text_, keys, what):
    """Every way of verifying; returns list of (ok, value)."""
    r = [attempt(JWS().verify_json, text_, keys)]
    ok, f = attempt(factory, text_)
    if ok and f is not None:
        r.append(attempt(f.verify_json, text_, keys))
    check(len({x[0] for x in r}) == 1, "%s: verdicts differ: %s", what, r)
    return r


def p_made(c):
    ss = unique(c["signers"])
    if c["nohdr"]:
        # no headers given: one signature with the object's algorithm
        ss = ss[:1]
        ss[0].update(prot={}, unprot=None)
        keys = keys_of(ss, True)
        doc = lib(lib(JWS, c["msg"], alg=ss[0]["alg"]).sign_json, keys, flatten=c["flat"])
    else:
        hs = []
        for s in ss:
            p = dict(s["prot"])
            if s["say"] or len(ss) > 1:
                p["alg"] = s["alg"]
            if s["say"] or len(ss) > 1:
                p["kid"] = s["kid"]
            hs.append((p, s["unprot"]))
        keys = keys_of(ss, True)
        rot = c["rot"] % len(keys)
        doc = lib(lib(JWS, c["msg"], alg=ss[0]["alg"]).sign_json, keys[rot:] + keys[:rot], headers=hs, flatten=c["flat"])
    check(isinstance(doc, str), "document %s", doc)
    d = json.loads(doc)
    flat = c["flat"] and len(ss) == 1
    entries = [{k: v for k, v in d.items() if k != "payload"}] if flat else d.get("signatures")
    check(set(d) == ({"payload"} | set(entries[0]) if flat else {"payload", "signatures"}), "members %s", sorted(d))
    check(d["payload"] == ref.b64u(c["msg"].encode("utf-8")), "payload %s for %s", d["payload"], c["msg"])
    check(isinstance(entries, list) and len(entries) == len(ss), "%s signatures for %s signers", entries, len(ss))
    for s, e in zip(ss, entries):
        check(set(e) <= {"protected", "header", "signature"} and {"protected", "signature"} <= set(e), "entry %s", e)
        if s["unprot"]:
            check(gen.same(e.get("header"), s["unprot"]), "unprotected %s, expected %s", e.get("header"), s["unprot"])
        else:
            check(not e.get("header"), "unprotected %s, none given", e.get("header"))
        tok = ".".join([e["protected"], d["payload"], e["signature"]])
        try:
            h, p, _ = ref.jws_open(tok, [gen.rkey(s["key"])])
        except ref.RefError as x:
            check(False, "signature of %s is not valid: %s in %s", s, x, doc)
        want = dict(s["prot"], alg=s["alg"], kid=s["kid"])
        check(gen.same(h, want), "protected %s, expected %s", h, want)
    pubs = keys_of(ss, False, unique(c["extra"]))
    for ok, got in verify_all(doc, pubs[::-1], "own document"):
        check(ok, "own document does not verify: %s: %s", got, doc)
        check(gen.same_payload({"t": c["msg"]}, got), "returned %s for %s", got, c["msg"])
    # without the key of one of the signers
    for i, s in enumerate(ss):
        rest = keys_of([x for x in ss if not gen.same_key(x["key"], s["key"])], False)
        for ok, got in verify_all(doc, rest, "without key"):
            check(not ok, "verifies without the key of signer %s: %s", i, got)
    return ["flat" if flat else "general", "%dsigs" % len(ss)]


# ------------------------------------------------------------- reference-made, with faults
FAULTS = ["", "", "", "", "sigbit", "sigcut", "sigempty", "otherkey", "otherpayload", "otherheader", "nosig", "noprot", "none", "nonempty", "nullsig", "alg",
          "unprotalg", "kid", "dupe"]
entry = st.tuples(signer, st.sampled_from(FAULTS), st.integers(0, 1000), st.sampled_from(["", "esc", "raw"]),
                  st.sampled_from(["", "", "right", "wrong"])).map(
    lambda t: dict(t[0], fault=t[1], n=t[2], how=t[3], unkid=t[4], **(
        # names that mean something to the library's Python code only
        {"prot": {["self", "msg", "args"][t[2] % 3]: t[2]}} if t[2] % 10 == 0 else {"unprot": {["self", "msg", "jwt"][t[2] % 3]: {}}} if t[2] % 10 == 1 else {})))
s_foreign = st.fixed_dictionaries({
    "signers": st.lists(entry, min_size=1, max_size=4), "msg": text, "flat": st.booleans(), "calm": st.booleans(),
    "docfault": st.sampled_from([""] * 8 + ["nopayload", "nosigs", "emptysigs", "payload", "nullpayload", "sigsdict", "swap"]),
    "missing": st.one_of(st.none(), st.none(), st.integers(0, 3)), "rot": st.integers(0, 3), "extra": st.lists(signer, max_size=2),
    "keyalg": st.booleans(), "top": st.sampled_from(["", "signature", "all", "first", "wrong", "foreign"]),
    "rnd": gen.hexbytes(70, 70)}).map(norm)


def blend(doc, top):
    """The document with further members at its top: those of a flattened
    document, or unknown ones."""
    es = [e for e in doc["signatures"] if isinstance(e, dict)] if isinstance(doc.get("signatures"), list) else []
    sane = [e for e in es if isinstance(e.get("signature"), str)]
    if not top or not es or not sane:
        return None
    e = sane[0]
    more = {"signature": {"signature": e["signature"]}, "all": e, "first": {k: v for k, v in e.items() if k != "header"},
            "wrong": dict(e, signature=ref.b64u(b"wrong")), "foreign": {"foo": [1], "sig": e["signature"]}}[top]
    # also before the others
    return [dict(doc, **more), dict(more, **doc)]


def fault(e, s, payload, c):
    f, n = s["fault"], s["n"]
    sig = bytearray(ref.unb64u(e["signature"]))
    if f == "sigbit":
        sig[n % len(sig)] ^= 1 << (n % 8)
    elif f == "sigcut":
        sig = sig[:n % len(sig)]
    elif f == "sigempty":
        sig = b""
    elif f == "nullsig":
        sig = bytes(len(sig))
    e["signature"] = ref.b64u(bytes(sig))
    if f == "nosig":
        del e["signature"]
    elif f == "noprot":
        e["header"] = dict(e.get("header") or {}, alg=s["alg"])
        del e["protected"]
    elif f in ("none", "nonempty"):
        e["protected"] = ref.b64u(b'{"alg":"none"}')
        if f == "none":
            e["signature"] = ""
    elif f == "unprotalg":
        e["protected"] = ref.b64u(b"{}")
        e["header"] = {"alg": s["alg"]}


def p_foreign(c):
    ss = c["signers"]
    if c["calm"]:
        for s in ss[1:]:
            s["fault"] = ""
    payload = c["msg"].encode("utf-8")
    entries = []
    for i, s in enumerate(ss):
        mem = list(dict(s["prot"], alg=s["alg"], **({"kid": s["kid"]} if s["kid"] else {})).items())
        key, pl, hd = s["key"], payload, spell(mem, s["how"], "")
        f = s["fault"]
        if f == "otherkey":
            o = (c["extra"] + ss)[0]["key"]
            key = o if o["t"] == key["t"] and o.get("crv") == key.get("crv") else key
        if f == "otherpayload":
            pl = payload + b"x"
        if f == "kid" and s["kid"]:
            hd = spell(mem[:-1] + [("kid", s["kid"] + "x")], s["how"], "")
        tok = ref.jws_sign(hd, pl, gen.rkey(key), s["alg"], gen.B(c["rnd"]))
        h, _, sg = tok.split(".")
        e = {"protected": h, "signature": sg}
        if f == "otherheader":
            e["protected"] = ref.b64u(spell(mem + [("extra", 1)], "", "").encode())
        if f == "alg":
            e["protected"] = ref.b64u(spell([(k, "HS256" if k == "alg" and s["alg"] != "HS256" else v) for k, v in mem] + [("y", 1)], "", "").encode())
        if s["unprot"] is not None:
            e["header"] = dict(s["unprot"])
        if s["unkid"] and not s["kid"]:
            e["header"] = dict(e.get("header") or {}, kid="u" if s["unkid"] == "right" else "w")
        fault(e, s, payload, c)
        entries.append(e)
        if f == "dupe":
            entries.append(dict(e))
    if c["docfault"] == "swap" and len(entries) > 1 and all("signature" in e for e in entries):
        entries[0]["signature"], entries[1]["signature"] = entries[1]["signature"], entries[0]["signature"]
    doc = {"payload": ref.b64u(payload)}
    if c["flat"] and len(entries) == 1:
        doc.update(entries[0])
    else:
        doc["signatures"] = entries
    df = c["docfault"]
    if df == "nopayload":
        del doc["payload"]
    elif df == "nosigs":
        for k in ("signatures", "signature"):
            doc.pop(k, None)
    elif df == "emptysigs":
        doc = {"payload": doc["payload"], "signatures": []}
    elif df == "payload":
        doc["payload"] = ref.b64u(payload + b" ")
    elif df == "nullpayload":
        doc["payload"] = None
    elif df == "sigsdict" and "signatures" in doc:
        doc["signatures"] = entries[0]
    # keys: those of the signers (one may be missing), and others
    kk = []
    for i, s in enumerate(ss):
        if c["missing"] != i:
            kk.append((s["key"], s["kid"] or ("u" if s["unkid"] == "right" else ""), s["alg"] if c["keyalg"] else ""))
    kk += [(s["key"], s["kid"] + "z", "") for s in c["extra"]]
    rot = c["rot"] % (len(kk) or 1)
    kk = kk[rot:] + kk[:rot]
    keys = [gen.lkey(s, False, kid=k, alg=a) for s, k, a in kk]
    try:
        want = judge(doc, kk)
        good = True
    except ref.RefError as e:
        good, why = False, e
    txt = json.dumps(doc)
    for ok, got in verify_all(txt, keys, "document"):
        if good:
            check(ok, "valid document refused: %s: %s", got, txt)
            check(gen.same_payload({"b": want.hex()}, got), "returned %s for %s", got, want)
        else:
            check(not ok, "accepted (%s): %s, keys %s", why, txt, kk)
    for d in blend(doc, c["top"]) or []:
        txt = json.dumps(d)
        for ok, got in verify_all(txt, keys, "document"):
            check(good or not ok, "accepted with other members (%s): %s, keys %s", c["top"], txt, kk)
            # what isn't known has to be ignored; members of both forms may be refused
            check(ok or not good or c["top"] != "foreign", "valid document with unknown members refused: %s: %s", got, txt)
            check(not ok or gen.same_payload({"b": want.hex()}, got), "returned %s", got)
    return ["accepted" if good else "rejected"] + [s["fault"] or "fine" for s in ss][:1] + ([df] if df else [])


# ------------------------------------------------------------- altered documents
s_alt = st.fixed_dictionaries({
    "signers": st.lists(signer, min_size=1, max_size=3), "msg": text, "flat": st.booleans(), "typ": st.just(""),
    "at": st.integers(0, 2), "member": st.sampled_from(["payload", "protected", "signature", "signature"]),
    "how": st.sampled_from(["bit", "bit", "cut", "ext", "empty", "del", "swap", "null"]), "n": st.integers(0, 4000)}).map(norm)


def p_alt(c):
    ss = unique(c["signers"])
    hs = [(dict(s["prot"], alg=s["alg"], kid=s["kid"]), s["unprot"]) for s in ss]
    d = json.loads(lib(lib(JWS, c["msg"], alg=ss[0]["alg"]).sign_json, keys_of(ss, True), headers=hs, flatten=c["flat"]))
    e = d if c["member"] == "payload" or "signatures" not in d else d["signatures"][c["at"] % len(ss)]
    m, how, n = c["member"], c["how"], c["n"]
    raw = bytearray(ref.unb64u(e[m]))
    was = e[m]
    if how == "bit" and raw:
        raw[n // 8 % len(raw)] ^= 1 << n % 8
        e[m] = ref.b64u(bytes(raw))
    elif how == "cut" and raw:
        e[m] = ref.b64u(bytes(raw[:-1 - n % min(len(raw), 5)]))
    elif how == "ext":
        e[m] = ref.b64u(bytes(raw) + bytes([n % 256]))
    elif how == "empty":
        e[m] = ""
    elif how == "del":
        del e[m]
    elif how == "null":
        e[m] = None
    elif how == "swap" and len(ss) > 1 and "signatures" in d:
        o = d["signatures"][(c["at"] + 1) % len(ss)]
        k = m if m != "payload" else "signature"
        o[k], d["signatures"][c["at"] % len(ss)][k] = d["signatures"][c["at"] % len(ss)][k], o[k]
        if k == "protected" and o[k] == d["signatures"][c["at"] % len(ss)][k]:
            return ["trivial"]
    txt = json.dumps(d)
    kk = [(s["key"], s["kid"], "") for s in ss]
    try:
        judge(d, kk)
        good = True
    except ref.RefError:
        good = False
    for ok, got in verify_all(txt, keys_of(ss, False), "altered"):
        check(ok == good, "altered %s (%s): %s: %s", m, how, got, txt)
        check(not ok or gen.same_payload({"t": c["msg"]}, got), "altered: returned %s for %s", got, c["msg"])
    return ["unchanged" if good else m + "-" + how] + (["trivial"] if good else [])


# ------------------------------------------------------------- many signatures
def many(tier):
    """One bad signature at every position of a document of many."""
    for n in (5, 9, 17, 33):
        for bad in [None] + list(range(n)):
            for how in ("sig", "header", "alg") if bad is not None and n < 12 else ("sig",):
                yield {"n": n, "bad": bad, "how": how}


def p_many(c):
    ks = [{"t": "oct", "k": "%02x" % (65 + i) * 8} for i in range(c["n"])]
    doc = {"payload": ref.b64u(b"text"), "signatures": []}
    for i, k in enumerate(ks):
        h, p, s = ref.jws_sign('{"alg":"HS256","kid":"%d"}' % i, b"text", gen.rkey(k), "HS256", b"").split(".")
        if i == c["bad"]:
            if c["how"] == "sig":
                s = ref.b64u(bytes([ref.unb64u(s)[0] ^ 1]) + ref.unb64u(s)[1:])
            elif c["how"] == "header":
                h = ref.b64u(b'{"alg":"HS256","kid":"%d","x":1}' % i)
            else:
                h, s = ref.b64u(b'{"alg":"none","kid":"%d"}' % i), ""
        doc["signatures"].append({"protected": h, "signature": s})
    keys = [gen.lkey(k, kid=str(i)) for i, k in enumerate(ks)]
    for ok, got in verify_all(json.dumps(doc), keys, "document"):
        check(ok == (c["bad"] is None), "signature %s of %s bad (%s): %s", c["bad"], c["n"], c["how"], got)
        check(not ok or got == "text", "returned %s", got)
    return ["good" if c["bad"] is None else c["how"]]


def made_many(tier):
    for n in (1, 2, 5, 9, 17, 33):
        yield {"n": n}


def p_made_many(c):
    n = c["n"]
    ks = [{"t": "oct", "k": "%02x" % (65 + i) * 8} for i in range(n)]
    keys = [gen.lkey(k, kid=str(i)) for i, k in enumerate(ks)]
    hs = [({"alg": ["HS256", "HS384", "HS512"][i % 3], "kid": str(i)}, {"u": i}) for i in range(n)]
    doc = lib(JWS("text", alg="HS256").sign_json, keys, headers=hs)
    d = json.loads(doc)
    check(len(d["signatures"]) == n, "%s signatures for %s headers", len(d["signatures"]), n)
    for i, e in enumerate(d["signatures"]):
        h, p, _ = ref.jws_open(".".join([e["protected"], d["payload"], e["signature"]]), [gen.rkey(ks[i])])
        check(h.get("kid") == str(i) and p == b"text" and e["header"] == {"u": i}, "entry %s: %s", i, e)
    for ok, got in verify_all(doc, keys, "document"):
        check(ok and got == "text", "own document of %s signatures: %s", n, got)
    return ["n%d" % n]


def odd(tier):
    """Payload texts that parse to odd values."""
    for t in ("null", "0", "false", '""', "[]", "{}", "NaN", "-Infinity", '{"a":NaN}', "1e400", "", " ", "1.0", '{"a":1,"a":2}', "\ufeff1"):
        for n in (1, 2, 3):
            for flat in (False, True):
                yield {"t": t, "n": n, "flat": flat}


def p_odd(c):
    ks = [{"t": "oct", "k": "%02x" % (65 + i) * 8} for i in range(c["n"])]
    keys = [gen.lkey(k, kid=str(i)) for i, k in enumerate(ks)]
    doc = lib(JWS(c["t"], alg="HS256").sign_json, keys, headers=[({"alg": "HS256", "kid": str(i)}, None) for i in range(c["n"])],
              flatten=c["flat"])
    for ok, got in verify_all(doc, keys, "document"):
        check(ok, "own document over %s with %s signatures: %s", c["t"], c["n"], got)
        try:
            want = json.loads(c["t"])
        except ValueError:
            want = c["t"]
        check(got == c["t"] or repr(got) == repr(want), "document over %s gives %s", c["t"], got)
    return ["odd payload"]


# ------------------------------------------------------------- what the verifier asks for
s_pin = st.fixed_dictionaries({
    "algs": st.lists(st.sampled_from(ref.JWS_ALGS + ["HS256", "HS384", "none", "none"]), min_size=1, max_size=4),
    "same": st.booleans(), "pin": st.one_of(st.none(), st.integers(0, 3), st.sampled_from(ref.JWS_ALGS)), "allow": st.booleans(), "flat": st.booleans(),
    "pos": st.booleans(), "msg": text, "bad": st.one_of(st.none(), st.none(), st.integers(0, 3)), "none": st.sampled_from(["none", "None", "NONE", None]),
    "rnd": gen.hexbytes(70, 70)})


def p_pin(c):
    """A pinned algorithm, and whether unsigned entries are allowed, hold for
    every entry."""
    algs_ = [c["algs"][0]] * len(c["algs"]) if c["same"] else c["algs"]
    payload = c["msg"].encode("utf-8")
    keys, entries, names = [], [], []
    good, unsigned = True, False
    for i, a in enumerate(algs_):
        if a == "none":
            e = {"protected": ref.b64u(json.dumps({"alg": c["none"], "kid": "k%d" % i}).encode()), "signature": ""}
            unsigned = True
            names.append(c["none"])
            entries.append(e)
            continue
        spec = {"t": "oct", "k": "61" * 8} if a[0] == "H" else {"t": "EC", "crv": ref.ES[a][0], "d": "17"} if a[0] == "E" else {"t": "RSA", "i": SMALL[0]}
        h, p, s = ref.jws_sign(json.dumps({"alg": a, "kid": "k%d" % i}), payload, gen.rkey(spec), a, gen.B(c["rnd"])).split(".")
        if c["bad"] == i:
            s = ref.b64u(bytes([ref.unb64u(s)[0] ^ 1]) + ref.unb64u(s)[1:])
            good = False
        names.append(a)
        entries.append({"protected": h, "signature": s})
        keys.append(gen.lkey(spec, False, kid="k%d" % i))
    doc = {"payload": ref.b64u(payload)}
    if c["flat"] and len(entries) == 1:
        doc.update(entries[0])
    else:
        doc["signatures"] = entries
    txt = json.dumps(doc)
    pin = c["pin"]
    if isinstance(pin, int):
        pin = algs_[pin % len(algs_)]
        pin = None if pin == "none" else pin
    f = lib(factory, txt)
    for o in [lib(JWS)] + ([f] if f is not None else []):
        if c["pos"]:
            ok, got = attempt(o.verify_json, txt, keys, c["allow"], pin)
        else:
            ok, got = attempt(o.verify_json, txt, keys, **dict({"sigalg": pin} if pin else {}, **({"allow_none": True} if c["allow"] else {})))
        what = "entries %s%s, pinned to %s, unsigned %s" % (names, "" if good else " (number %d bad)" % c["bad"], pin, "allowed" if c["allow"] else "not allowed")
        if not good or (unsigned and not c["allow"]) or (pin and any(n in ref.JWS_ALGS and n != pin for n in names)):
            check(not ok, "%s: verifies: %s", what, txt)
        elif not (pin and unsigned):    # whether a pin allows what is allowed is not claimed
            check(ok, "%s: refused: %s: %s", what, got, txt)
        if ok:
            check(gen.same_payload({"t": c["msg"]}, got), "%s: returned %s for %s", what, got, c["msg"])
    return ["accepted" if ok else "rejected", "unsigned" if unsigned else "signed", "pinned" if pin else "not pinned"]


# ------------------------------------------------------------- one object, many documents
def spell_doc(e, payload, flat):
    return json.dumps(dict({"payload": payload}, **(e[0] if flat and len(e) == 1 else {"signatures": e})))


s_one = st.fixed_dictionaries({
    "docs": st.lists(st.fixed_dictionaries({"n": st.integers(1, 3), "alg": st.sampled_from(["HS256", "HS384", "ES256", "RS256"]), "flat": st.booleans(),
                                            "msg": text, "unprot": st.booleans(), "kid": st.booleans()}), min_size=1, max_size=3),
    "steps": st.lists(st.fixed_dictionaries({"doc": st.integers(0, 2), "sig": st.one_of(st.none(), st.none(), st.integers(0, 8)),
                                             "pay": st.one_of(st.none(), st.none(), st.none(), st.integers(0, 2)),
                                             "keys": st.sampled_from([7, 7, 7, 1, 2, 4, 0])}), min_size=2, max_size=6),
    "rnd": gen.hexbytes(70, 70), "factory": st.booleans()})


def p_one(c):
    """One object verifying several documents, genuine ones and others."""
    ks = {"HS256": {"t": "oct", "k": "61" * 8}, "HS384": {"t": "oct", "k": "62" * 8}, "ES256": {"t": "EC", "crv": "P-256", "d": "17"},
          "RS256": {"t": "RSA", "i": SMALL[0]}}
    made = []
    for j, d in enumerate(c["docs"]):
        es = []
        for i in range(d["n"]):
            hd = dict({"alg": d["alg"], "n": i}, **({"kid": d["alg"]} if d["kid"] else {}))
            h, p, s = ref.jws_sign(json.dumps(hd), d["msg"].encode("utf-8"), gen.rkey(ks[d["alg"]]), d["alg"], gen.B(c["rnd"])).split(".")
            es.append(dict({"protected": h, "signature": s}, **({"header": {"u": i}} if d["unprot"] else {})))
        made.append((es, p))
    v = None
    okd = 0
    for n, s in enumerate(c["steps"]):
        j = s["doc"] % len(made)
        d = c["docs"][j]
        es, p = json.loads(json.dumps(made[j]))
        if s["sig"] is not None:
            o = [e["signature"] for m in made for e in m[0]]
            es[s["sig"] % len(es)]["signature"] = o[s["sig"] % len(o)]
        if s["pay"] is not None:
            p = made[s["pay"] % len(made)][1]
        txt = spell_doc(es, p, d["flat"])
        mine = [(ks[a], a, "") for i, a in enumerate(sorted({x["alg"] for x in c["docs"]})) if s["keys"] >> i & 1]
        try:
            want, good = judge(json.loads(txt), mine), True
        except ref.RefError:
            good = False
        if v is None:
            v = lib(factory, txt) if c["factory"] else lib(JWS)
        keys = [gen.lkey(a, False, kid=k) for a, k, _ in mine]
        ok, got = attempt(v.verify_json, txt, keys)
        check(ok == good, "use %d of one object: %s %s: %s, keys %s", n + 1, "accepted" if ok else "refused", got, txt, [k for _, k, _ in mine])
        if ok:
            check(gen.same_payload({"b": want.hex()}, got), "use %d of one object: returned %s for %s", n + 1, got, want)
            okd += 1
    return ["accepted" if okd else "none accepted"] + ([] if okd else ["trivial"])


SUBTESTS = [
    Enum("one-of-many", many, p_many, exhaustive=True),
    Enum("made-many", made_many, p_made_many),
    Enum("odd payloads", odd, p_odd, exhaustive=True),
    Search("library-made", s_made, p_made, 900, 20000),
    Search("reference-made", s_foreign, p_foreign, 1200, 30000),
    Search("altered", s_alt, p_alt, 900, 20000),
    Search("pinned", s_pin, p_pin, 700, 15000),
    Search("one-object", s_one, p_one, 600, 12000),
]
