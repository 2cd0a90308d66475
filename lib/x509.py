"""A small X.509 v1/v3 builder: DER from case data, any contents."""
import base64
import hashlib

from . import ref


def tlv(tag, *body):
    b = b"".join(body)
    n = len(b)
    ln = bytes([n]) if n < 128 else (lambda o: bytes([0x80 | len(o)]) + o)(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    return bytes([tag]) + ln + b


def seq(*b):
    return tlv(0x30, *b)


def set_(*b):
    return tlv(0x31, *b)


def integer(i):
    n = max(1, (i.bit_length() // 8) + 1)
    return tlv(2, i.to_bytes(n, "big", signed=True))


def oid(*arcs):
    out = [40 * arcs[0] + arcs[1]]
    for a in arcs[2:]:
        l = [a & 127]
        a >>= 7
        while a:
            l.append(128 | a & 127)
            a >>= 7
        out += l[::-1]
    return tlv(6, bytes(out))


def bits(b, unused=0):
    return tlv(3, bytes([unused]), b)


NULL = b"\x05\x00"
SIGALG = {"sha256": (1, 2, 840, 113549, 1, 1, 11), "sha1": (1, 2, 840, 113549, 1, 1, 5), "sha512": (1, 2, 840, 113549, 1, 1, 13)}
RDN = {"CN": (2, 5, 4, 3), "O": (2, 5, 4, 10), "C": (2, 5, 4, 6), "OU": (2, 5, 4, 11), "email": (1, 2, 840, 113549, 1, 9, 1)}


def rsa_public(n, e):
    """PKCS#1 RSAPublicKey"""
    return seq(integer(n), integer(e))


def spki(n, e):
    return seq(seq(oid(1, 2, 840, 113549, 1, 1, 1), NULL), bits(rsa_public(n, e)))


EC_OID = {"P-256": (1, 2, 840, 10045, 3, 1, 7), "P-384": (1, 3, 132, 0, 34), "P-521": (1, 3, 132, 0, 35)}


def ec_spki(k):
    w = ref.CURVES[k.crv].size
    return seq(seq(oid(1, 2, 840, 10045, 2, 1), oid(*EC_OID[k.crv])), bits(b"\4" + ref.i2b(k.x, w) + ref.i2b(k.y, w)))


def rsa_private(k):
    """PKCS#1 RSAPrivateKey of a ref.RKey with d, p, q"""
    p, q, d = k.p, k.q, k.d
    return seq(integer(0), integer(k.n), integer(k.e), integer(d), integer(p), integer(q), integer(d % (p - 1)), integer(d % (q - 1)),
               integer(pow(q, -1, p)))


def pkcs8(k):
    return seq(integer(0), seq(oid(1, 2, 840, 113549, 1, 1, 1), NULL), tlv(4, rsa_private(k)))


def name(parts):
    return seq(*[set_(seq(oid(*RDN[k]), tlv({"utf8": 12, "print": 19, "ia5": 22, "t61": 20}[t], v.encode("utf-8")))) for k, t, v in parts])


def time_(t):
    return tlv(0x17 if len(t) == 13 else 0x18, t.encode())


def cert(c, subject_key, issuer_key=None):
    """c: {v, serial, alg, issuer, subject, nb, na, exts, iuid}; keys: ref.RKey"""
    info = ec_spki(subject_key) if subject_key.kty == "EC" else spki(subject_key.n, subject_key.e)
    h = {"sha256": hashlib.sha256, "sha1": hashlib.sha1, "sha512": hashlib.sha512}[c["alg"]]
    sa = seq(oid(*SIGALG[c["alg"]]), NULL)
    body = []
    if c["v"] > 1:
        body.append(tlv(0xA0, integer(c["v"] - 1)))
    body += [integer(c["serial"]), sa, name(c["issuer"]), seq(time_(c["nb"]), time_(c["na"])), name(c["subject"]), info]
    if c["v"] > 1 and c.get("iuid"):
        body.append(tlv(0x81, b"\0" + bytes.fromhex(c["iuid"])))
    if c["v"] == 3 and c["exts"]:
        body.append(tlv(0xA3, seq(*[seq(oid(1, 3, 6, 1, 4, 1, *x["arc"]), *([tlv(1, b"\xff")] if x["crit"] else []), tlv(4, bytes.fromhex(x["val"])))
                                    for x in c["exts"]])))
    tbs = seq(*body)
    if issuer_key is not None and h in (hashlib.sha256, hashlib.sha512):
        sig = ref.rsa_pkcs1_sign(issuer_key.rsa, h, tbs)
    else:
        sig = b"\x5a" * 128
    return seq(tbs, sa, bits(sig))


def pem(label, der, width=64, nl="\n", before="", after="", final=True):
    b = base64.b64encode(der).decode()
    lines = [b[i:i + width] for i in range(0, len(b), width)]
    return before + "-----BEGIN %s-----" % label + nl + nl.join(lines) + nl + "-----END %s-----" % label + (nl if final else "") + after


def strategy():
    from hypothesis import strategies as st
    val = st.one_of(st.text(min_size=1, max_size=20), st.sampled_from(["Example CA", "\u00e5", "x" * 200, "a,b=c+d", "-----BEGIN"]))
    nm = st.lists(st.tuples(st.sampled_from(sorted(RDN)), st.sampled_from(["utf8", "utf8", "print", "ia5"]), val).map(list), max_size=4)
    tm = st.one_of(st.sampled_from(["200101000000Z", "991231235959Z", "20500101000000Z", "00010101000000Z"[:15], "491231235959Z"]))
    hexb = lambda lo, hi: st.binary(min_size=lo, max_size=hi).map(bytes.hex)
    ext = st.fixed_dictionaries({"arc": st.lists(st.integers(0, 2**40), min_size=1, max_size=3), "crit": st.booleans(),
                                 "val": st.one_of(hexb(0, 40), hexb(0, 40), hexb(200, 300), st.integers(1000, 3000).map(lambda n: "ab" * n))})
    return st.fixed_dictionaries({
        "v": st.sampled_from([3, 3, 3, 1, 1, 2]), "serial": st.one_of(st.integers(0, 2**160 - 1), st.integers(0, 300), st.sampled_from([0, 127, 128, 255, 256, 2**159])),
        "alg": st.sampled_from(["sha256", "sha1", "sha512"]), "issuer": nm, "subject": nm, "nb": tm, "na": tm,
        "exts": st.lists(ext, max_size=4), "iuid": st.one_of(st.just(""), st.just(""), hexb(1, 10))})


PLAIN = {"v": 3, "serial": 1, "alg": "sha256", "issuer": [["CN", "utf8", "x"]], "subject": [["CN", "utf8", "x"]], "nb": "200101000000Z",
         "na": "400101000000Z", "exts": [], "iuid": ""}
