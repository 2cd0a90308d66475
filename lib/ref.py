"""Independent reference implementation of the JOSE specifications.

Shares no code with /repo.  Used as the oracle: textbook big-integer RSA
(RFC 8017), ECDSA (FIPS 186) over EC points from Cryptodome's C library (not
used by /repo, which has its own pure-Python curves), stdlib hashlib/hmac/zlib,
Cryptodome AES block modes.
"""
import base64
import hashlib
import hmac as _hmac
import json
import re
import struct
import zlib

from Cryptodome.Cipher import AES
from Cryptodome.PublicKey import ECC


class RefError(Exception):
    """The reference rejects the input."""


# ---------------------------------------------------------------- encodings
def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode("ascii")


_B64U = re.compile(r"[A-Za-z0-9_-]*\Z")


def unb64u(s, allow_pad=False):
    """base64url decode as the library documents it: '=' at the end is
    tolerated only as far as the caller says."""
    if isinstance(s, bytes):
        try:
            s = s.decode("ascii")
        except UnicodeDecodeError:
            raise RefError("non ascii")
    if not _B64U.match(s) or len(s) % 4 == 1:
        raise RefError("bad base64url")
    return base64.urlsafe_b64decode(s + "=" * (-len(s) % 4))


def i2b(i, length=None):
    if length is None:
        length = max(1, (i.bit_length() + 7) // 8)
    return i.to_bytes(length, "big")


def b2i(b):
    return int.from_bytes(b, "big")


HASHES = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}
HASH_PREFIX = {
    "sha1": bytes.fromhex("3021300906052b0e03021a05000414"),
    "sha256": bytes.fromhex("3031300d060960864801650304020105000420"),
    "sha384": bytes.fromhex("3041300d060960864801650304020205000430"),
    "sha512": bytes.fromhex("3051300d060960864801650304020305000440"),
}


# ---------------------------------------------------------------- RSA
class RSA(object):
    def __init__(self, n, e, d=None):
        self.n, self.e, self.d = n, e, d
        self.k = (n.bit_length() + 7) // 8

    def pub(self, m):
        return pow(m, self.e, self.n)

    def priv(self, c):
        return pow(c, self.d, self.n)


def emsa_pkcs1(h, k):
    t = HASH_PREFIX[h.name] + h.digest()
    if k < len(t) + 11:
        raise RefError("modulus too short")
    return b"\x00\x01" + b"\xff" * (k - len(t) - 3) + b"\x00" + t


def rsa_pkcs1_sign(key, hashf, msg):
    em = emsa_pkcs1(hashf(msg), key.k)
    return i2b(key.priv(b2i(em)), key.k)


def rsa_pkcs1_verify(key, hashf, msg, sig):
    if len(sig) != key.k:
        return False
    s = b2i(sig)
    if s >= key.n:
        return False
    em = i2b(key.pub(s), key.k)
    try:
        if em == emsa_pkcs1(hashf(msg), key.k):
            return True
    except RefError:
        return False
    return False


def mgf1(hashf, seed, length):
    out = b""
    c = 0
    while len(out) < length:
        out += hashf(seed + struct.pack(">I", c)).digest()
        c += 1
    return out[:length]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def rsa_pss_sign(key, hashf, msg, salt):
    embits = key.n.bit_length() - 1
    emlen = (embits + 7) // 8
    mh = hashf(msg).digest()
    hl = len(mh)
    if emlen < hl + len(salt) + 2:
        raise RefError("modulus too short")
    h = hashf(b"\0" * 8 + mh + salt).digest()
    db = b"\0" * (emlen - len(salt) - hl - 2) + b"\x01" + salt
    masked = bytearray(xor(db, mgf1(hashf, h, emlen - hl - 1)))
    masked[0] &= 0xff >> (8 * emlen - embits)
    em = bytes(masked) + h + b"\xbc"
    return i2b(key.priv(b2i(em)), key.k)


def rsa_pss_verify(key, hashf, msg, sig, slen=None):
    """slen None: salt length must equal the hash length (RFC 7518 3.5)."""
    if len(sig) != key.k:
        return False
    s = b2i(sig)
    if s >= key.n:
        return False
    embits = key.n.bit_length() - 1
    emlen = (embits + 7) // 8
    m = key.pub(s)
    if m >= 1 << (8 * emlen):
        return False
    em = i2b(m, emlen)
    mh = hashf(msg).digest()
    hl = len(mh)
    if slen is None:
        slen = hl
    if emlen < hl + slen + 2 or em[-1] != 0xbc:
        return False
    masked, h = em[:emlen - hl - 1], em[emlen - hl - 1:-1]
    top = 0xff >> (8 * emlen - embits)
    if masked[0] & ~top & 0xff:
        return False
    db = bytearray(xor(masked, mgf1(hashf, h, emlen - hl - 1)))
    db[0] &= top
    pad = emlen - hl - slen - 2
    if any(db[:pad]) or db[pad] != 1:
        return False
    salt = bytes(db[pad + 1:])
    return hashf(b"\0" * 8 + mh + salt).digest() == h


def rsaes_pkcs1_encrypt(key, m, ps):
    """ps: byte source for the padding (non-zero bytes are picked from it)."""
    if len(m) > key.k - 11:
        raise RefError("too long")
    need = key.k - len(m) - 3
    pad = bytes(b or 1 for b in (ps * (need // len(ps) + 1))[:need])
    em = b"\x00\x02" + pad + b"\x00" + m
    return i2b(key.pub(b2i(em)), key.k)


def rsaes_pkcs1_decrypt(key, c):
    if len(c) != key.k or b2i(c) >= key.n:
        raise RefError("bad ciphertext")
    em = i2b(key.priv(b2i(c)), key.k)
    i = em.find(b"\0", 2)
    if em[:2] != b"\x00\x02" or i < 10:
        raise RefError("bad padding")
    return em[i + 1:]


def oaep_encrypt(key, hashf, m, seed, label=b""):
    hl = hashf(b"").digest_size
    if len(m) > key.k - 2 * hl - 2:
        raise RefError("too long")
    lh = hashf(label).digest()
    db = lh + b"\0" * (key.k - len(m) - 2 * hl - 2) + b"\x01" + m
    seed = (seed * (hl // len(seed) + 1))[:hl]
    mdb = xor(db, mgf1(hashf, seed, key.k - hl - 1))
    ms = xor(seed, mgf1(hashf, mdb, hl))
    return i2b(key.pub(b2i(b"\0" + ms + mdb)), key.k)


def oaep_decrypt(key, hashf, c, label=b""):
    if len(c) != key.k or b2i(c) >= key.n:
        raise RefError("bad ciphertext")
    hl = hashf(b"").digest_size
    if key.k < 2 * hl + 2:
        raise RefError("modulus too short")
    em = i2b(key.priv(b2i(c)), key.k)
    ms, mdb = em[1:1 + hl], em[1 + hl:]
    seed = xor(ms, mgf1(hashf, mdb, hl))
    db = xor(mdb, mgf1(hashf, seed, key.k - hl - 1))
    i = db.find(b"\x01", hl)
    if em[0] or db[:hl] != hashf(label).digest() or i < 0 or any(db[hl:i]):
        raise RefError("bad padding")
    return db[i + 1:]


# ---------------------------------------------------------------- EC
class Curve(object):
    def __init__(self, name, ecc, p, n, b):
        self.name, self.ecc, self.p, self.n, self.b = name, ecc, p, n, b
        self.bits = p.bit_length()
        self.size = (self.bits + 7) // 8
        cv = ECC._curves[ecc]
        self.G = (int(cv.Gx), int(cv.Gy))

    def on_curve(self, x, y):
        p = self.p
        return (0 <= x < p and 0 <= y < p and
                (y * y - (x * x * x - 3 * x + self.b)) % p == 0)

    def point(self, x, y):
        return ECC.EccPoint(x, y, curve=self.ecc)

    def mul(self, k, pt):
        """k * pt as (x, y), or None for the neutral element."""
        k %= self.n
        if pt is None or k == 0:
            return None
        r = self.point(*pt) * k
        return int(r.x), int(r.y)

    def add(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a[0] == b[0] and (a[1] + b[1]) % self.p == 0:
            return None
        if a == b:
            return self.mul(2, a)
        r = self.point(*a) + self.point(*b)
        return int(r.x), int(r.y)

    def neg(self, a):
        return None if a is None else (a[0], -a[1] % self.p)

    def pub(self, d):
        return self.mul(d, self.G)

    def edges(self):
        """The points with the smallest and the largest x coordinates."""
        r = []
        for step in (1, -1):
            x, found = 0 if step == 1 else self.p - 1, 0
            while found < 4:
                if self.y_for_x(x, 0) is not None:
                    found += 1
                    r += [(x, self.y_for_x(x, o)) for o in (0, 1)]
                x += step
        return r

    def y_for_x(self, x, odd):
        """y with the given parity for x, or None (all primes are 3 mod 4)."""
        a = (x * x * x - 3 * x + self.b) % self.p
        y = pow(a, (self.p + 1) // 4, self.p)
        if y * y % self.p != a:
            return None
        if y % 2 != odd:
            y = -y % self.p
        return y


CURVES = {
    "P-256": Curve("P-256", "p256",
                   0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
                   0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
                   0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
    "P-384": Curve("P-384", "p384",
                   0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff,
                   0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
                   0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef),
    "P-521": Curve("P-521", "p521",
                   (1 << 521) - 1,
                   0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
                   0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00),
}


def ecdsa_h(curve, h, hbits):
    """Hash integer reduced to the leftmost bits of the order's length."""
    nb = curve.n.bit_length()
    return h >> (hbits - nb) if hbits > nb else h


def ecdsa_sign_int(curve, z, d, k):
    R = curve.mul(k, curve.G)
    if R is None:
        return None
    r = R[0] % curve.n
    if r == 0:
        return None
    s = pow(k, -1, curve.n) * (z + r * d) % curve.n
    if s == 0:
        return None
    return r, s


def ecdsa_verify_int(curve, z, r, s, pub):
    n = curve.n
    if not (0 < r < n and 0 < s < n):
        return False
    w = pow(s, -1, n)
    R = curve.add(curve.mul(z * w % n, curve.G), curve.mul(r * w % n, pub))
    return R is not None and R[0] % n == r


ES = {"ES256": ("P-256", "256"), "ES384": ("P-384", "384"), "ES512": ("P-521", "512")}


def es_sign(alg, d, msg, k):
    crv, h = ES[alg]
    c = CURVES[crv]
    dg = HASHES[h](msg).digest()
    z = ecdsa_h(c, b2i(dg), 8 * len(dg))
    rs = ecdsa_sign_int(c, z, d, k)
    return i2b(rs[0], c.size) + i2b(rs[1], c.size)


def es_verify(alg, pub, msg, sig):
    crv, h = ES[alg]
    c = CURVES[crv]
    if len(sig) != 2 * c.size:
        return False
    dg = HASHES[h](msg).digest()
    z = ecdsa_h(c, b2i(dg), 8 * len(dg))
    return ecdsa_verify_int(c, z, b2i(sig[:c.size]), b2i(sig[c.size:]), pub)


# ---------------------------------------------------------------- JWS
JWS_ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512",
            "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]


def alg_kty(alg):
    return {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC"}[alg[:2]]


class RKey(object):
    """Plain key record: kty, and numbers / octets."""

    def __init__(self, kty, **kw):
        self.kty = kty
        self.__dict__.update(kw)
        if kty == "RSA":
            self.rsa = RSA(self.n, self.e, kw.get("d"))


def jws_sig(alg, key, msg, rnd):
    """rnd: bytes (64+) supplying the salt or nonce."""
    h = HASHES[alg[2:]]
    if alg[:2] == "HS":
        return _hmac.new(key.k, msg, h).digest()
    if alg[:2] == "RS":
        return rsa_pkcs1_sign(key.rsa, h, msg)
    if alg[:2] == "PS":
        hl = h(b"").digest_size
        return rsa_pss_sign(key.rsa, h, msg, (rnd * 8)[:hl])
    c = CURVES[ES[alg][0]]
    k = b2i((rnd * 3)[:c.size]) % (c.n - 1) + 1
    return es_sign(alg, key.d, msg, k)


def jws_sig_ok(alg, key, msg, sig):
    if alg not in JWS_ALGS or key.kty != alg_kty(alg):
        return False
    h = HASHES[alg[2:]]
    if alg[:2] == "HS":
        return _hmac.compare_digest(_hmac.new(key.k, msg, h).digest(), sig)
    if alg[:2] == "RS":
        return rsa_pkcs1_verify(key.rsa, h, msg, sig)
    if alg[:2] == "PS":
        return rsa_pss_verify(key.rsa, h, msg, sig)
    if key.crv != ES[alg][0]:
        return False
    return es_verify(alg, (key.x, key.y), msg, sig)


def compact_json(o):
    return json.dumps(o, separators=(",", ":"))


def jws_sign(header_text, payload, key, alg, rnd):
    if isinstance(header_text, str):
        header_text = header_text.encode("utf-8")
    si = (b64u(header_text) + "." + b64u(payload)).encode("ascii")
    return si.decode() + "." + b64u(jws_sig(alg, key, si, rnd))


def jws_open(token, keys, allow_none=False):
    """Strict RFC 7515 verification.  Returns (header, payload, key)."""
    if isinstance(token, str):
        try:
            token = token.encode("ascii")
        except UnicodeEncodeError:
            raise RefError("non ascii token")
    parts = token.split(b".")
    if len(parts) != 3:
        raise RefError("parts")
    hdr, payload, sig = [unb64u(p) for p in parts]
    try:
        header = json.loads(hdr.decode("utf-8"))
    except (ValueError, RecursionError):
        raise RefError("header json")
    if not isinstance(header, dict):
        raise RefError("header type")
    alg = header.get("alg")
    if not isinstance(alg, str) or alg not in JWS_ALGS:
        raise RefError("alg")
    if "crit" in header:
        raise RefError("crit")
    si = parts[0] + b"." + parts[1]
    for k in keys:
        if jws_sig_ok(alg, k, si, sig):
            return header, payload, k
    raise RefError("signature")


def payload_value(payload, cty=None):
    """What the library documents to return for payload octets."""
    try:
        txt = payload.decode("utf-8")
    except UnicodeDecodeError:
        return payload
    if cty is not None and cty.lower() != "jwt":
        return txt
    try:
        return json.loads(txt)
    except ValueError:
        return txt


# ---------------------------------------------------------------- AES KW
def aes_kw(kek, data, iv=b"\xa6" * 8):
    n = len(data) // 8
    if len(data) % 8 or n < 2:
        raise RefError("length")
    a = iv
    r = [data[8 * i:8 * i + 8] for i in range(n)]
    ecb = AES.new(kek, AES.MODE_ECB)
    t = 0
    for _ in range(6):
        for i in range(n):
            t += 1
            b = ecb.encrypt(a + r[i])
            a = xor(b[:8], struct.pack(">Q", t))
            r[i] = b[8:]
    return a + b"".join(r)


def aes_kuw(kek, wrapped, iv=b"\xa6" * 8):
    if len(wrapped) % 8 or len(wrapped) < 24:
        raise RefError("length")
    n = len(wrapped) // 8 - 1
    a = wrapped[:8]
    r = [wrapped[8 * i:8 * i + 8] for i in range(1, n + 1)]
    ecb = AES.new(kek, AES.MODE_ECB)
    t = 6 * n
    for _ in range(6):
        for i in range(n - 1, -1, -1):
            b = ecb.decrypt(xor(a, struct.pack(">Q", t)) + r[i])
            t -= 1
            a = b[:8]
            r[i] = b[8:]
    if iv is not None and a != iv:
        raise RefError("integrity")
    return b"".join(r)


# ---------------------------------------------------------------- content enc
ENC_KEYLEN = {"A128GCM": 16, "A192GCM": 24, "A256GCM": 32,
              "A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64}
ENCS = sorted(ENC_KEYLEN)
KM_ALGS = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW", "A256KW",
           "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
CBC_HASH = {32: hashlib.sha256, 48: hashlib.sha384, 64: hashlib.sha512}


def ivlen(enc):
    return 12 if enc.endswith("GCM") else 16


def taglen(enc):
    return 16 if enc.endswith("GCM") else ENC_KEYLEN[enc] // 2


def cbc_hmac_encrypt(key, iv, aad, pt):
    h = len(key) // 2
    mk, ek = key[:h], key[h:]
    n = 16 - len(pt) % 16
    ct = AES.new(ek, AES.MODE_CBC, iv).encrypt(pt + bytes([n]) * n)
    tag = _hmac.new(mk, aad + iv + ct + struct.pack(">Q", 8 * len(aad)),
                    CBC_HASH[len(key)]).digest()[:h]
    return ct, tag


def cbc_hmac_decrypt(key, iv, aad, ct, tag):
    h = len(key) // 2
    mk, ek = key[:h], key[h:]
    if len(iv) != 16 or len(ct) % 16 or not ct:
        raise RefError("length")
    want = _hmac.new(mk, aad + iv + ct + struct.pack(">Q", 8 * len(aad)),
                     CBC_HASH[len(key)]).digest()[:h]
    if want != tag:
        raise RefError("tag")
    pt = AES.new(ek, AES.MODE_CBC, iv).decrypt(ct)
    n = pt[-1]
    if not 1 <= n <= 16 or pt[-n:] != bytes([n]) * n:
        raise RefError("padding")
    return pt[:-n]


def gcm_encrypt(key, iv, aad, pt):
    c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
    c.update(aad)
    return c.encrypt_and_digest(pt)


def gcm_decrypt(key, iv, aad, ct, tag):
    if len(iv) != 12 or len(tag) != 16:
        raise RefError("length")
    c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
    c.update(aad)
    try:
        return c.decrypt_and_verify(ct, tag)
    except ValueError:
        raise RefError("tag")


def content_encrypt(enc, cek, iv, aad, pt):
    f = gcm_encrypt if enc.endswith("GCM") else cbc_hmac_encrypt
    return f(cek, iv, aad, pt)


def content_decrypt(enc, cek, iv, aad, ct, tag):
    if len(cek) != ENC_KEYLEN[enc]:
        raise RefError("cek length")
    f = gcm_decrypt if enc.endswith("GCM") else cbc_hmac_decrypt
    return f(cek, iv, aad, ct, tag)


# ---------------------------------------------------------------- ECDH
def concat_kdf(z, bits, other):
    out = b""
    c = 1
    while len(out) < (bits + 7) // 8:
        out += hashlib.sha256(struct.pack(">I", c) + z + other).digest()
        c += 1
    return out[:(bits + 7) // 8]


def lv(b):
    return struct.pack(">I", len(b)) + b


def ecdh_key(crv, d, pub, algid, apu, apv, bits):
    c = CURVES[crv]
    z = i2b(c.mul(d, pub)[0], c.size)
    return concat_kdf(z, bits, lv(algid) + lv(apu) + lv(apv) +
                      struct.pack(">I", bits))


def oidc_kek(secret, bits):
    """OpenID Connect Core 10.2: left-truncated SHA-2 of the shared secret."""
    n = bits // 8
    return hashlib.sha256(secret).digest()[:n]


def deflate(b):
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    return c.compress(b) + c.flush()


def inflate(b):
    d = zlib.decompressobj(-15)
    try:
        r = d.decompress(b) + d.flush()
    except zlib.error:
        raise RefError("deflate")
    if not d.eof or d.unused_data:
        raise RefError("deflate")
    return r


def kw_bits(alg):
    return int(alg.split("+")[-1][1:4])


def jwe_make(header, pt, key, cek, iv, rnd, eph_d=None, header_text=None):
    """Build a compact JWE.  header: dict with alg/enc; epk is added for ECDH
    (eph_d is the ephemeral scalar).  header_text: function dict -> text."""
    alg, enc = header["alg"], header["enc"]
    header = dict(header)
    if alg.startswith("ECDH"):
        c = CURVES[key.crv]
        ex, ey = c.pub(eph_d)
        if "epk" not in header:
            header["epk"] = {"kty": "EC", "crv": key.crv,
                             "x": b64u(i2b(ex, c.size)),
                             "y": b64u(i2b(ey, c.size))}
    txt = (header_text or compact_json)(header)
    aad = b64u(txt.encode("utf-8")).encode("ascii")
    ek, cek = jwe_ek(header, key, cek, rnd, eph_d)
    body = deflate(pt) if header.get("zip") == "DEF" else pt
    ct, tag = content_encrypt(enc, cek, iv, aad, body)
    return ".".join([aad.decode(), b64u(ek), b64u(iv), b64u(ct), b64u(tag)])


def jwe_ek(header, key, cek, rnd, eph_d):
    alg, enc = header["alg"], header["enc"]
    if alg == "RSA1_5":
        return rsaes_pkcs1_encrypt(key.rsa, cek, rnd), cek
    if alg == "RSA-OAEP":
        return oaep_encrypt(key.rsa, hashlib.sha1, cek, rnd), cek
    if alg == "RSA-OAEP-256":
        return oaep_encrypt(key.rsa, hashlib.sha256, cek, rnd), cek
    if alg in ("A128KW", "A192KW", "A256KW"):
        return aes_kw(oidc_kek(key.k, kw_bits(alg)), cek), cek
    apu = unb64u(header.get("apu", ""))
    apv = unb64u(header.get("apv", ""))
    if alg == "ECDH-ES":
        return b"", ecdh_key(key.crv, eph_d, (key.x, key.y), enc.encode(),
                             apu, apv, 8 * ENC_KEYLEN[enc])
    kek = ecdh_key(key.crv, eph_d, (key.x, key.y),
                   alg.split("+")[1].encode(), apu, apv, kw_bits(alg))
    return aes_kw(kek, cek), cek


def jwe_parse(token):
    if isinstance(token, str):
        try:
            token = token.encode("ascii")
        except UnicodeEncodeError:
            raise RefError("ascii")
    parts = token.split(b".")
    if len(parts) != 5:
        raise RefError("parts")
    raw = [unb64u(p) for p in parts]
    try:
        header = json.loads(raw[0].decode("utf-8"))
    except ValueError:
        raise RefError("header")
    if not isinstance(header, dict):
        raise RefError("header")
    return header, raw, parts[0]


def jwe_cek(header, ek, key):
    alg, enc = header.get("alg"), header.get("enc")
    if alg not in KM_ALGS or enc not in ENCS:
        raise RefError("alg")
    if alg.startswith("RSA"):
        if key.kty != "RSA":
            raise RefError("key")
        if alg == "RSA1_5":
            return rsaes_pkcs1_decrypt(key.rsa, ek)
        return oaep_decrypt(key.rsa, hashlib.sha1 if alg == "RSA-OAEP"
                            else hashlib.sha256, ek)
    if alg.endswith("KW") and alg.startswith("A"):
        if key.kty != "oct":
            raise RefError("key")
        return aes_kuw(oidc_kek(key.k, kw_bits(alg)), ek)
    if key.kty != "EC":
        raise RefError("key")
    epk = header.get("epk")
    try:
        if epk["kty"] != "EC" or epk["crv"] != key.crv:
            raise RefError("epk")
        c = CURVES[key.crv]
        x, y = b2i(unb64u(epk["x"])), b2i(unb64u(epk["y"]))
    except (KeyError, TypeError):
        raise RefError("epk")
    if not c.on_curve(x, y):
        raise RefError("epk")
    apu = unb64u(header.get("apu", ""))
    apv = unb64u(header.get("apv", ""))
    if alg == "ECDH-ES":
        if ek:
            raise RefError("ek")
        return ecdh_key(key.crv, key.d, (x, y), enc.encode(), apu, apv,
                        8 * ENC_KEYLEN[enc])
    kek = ecdh_key(key.crv, key.d, (x, y), alg.split("+")[1].encode(), apu,
                   apv, kw_bits(alg))
    return aes_kuw(kek, ek)


def jwe_open(token, key):
    """Strict RFC 7516 decryption.  Returns (header, plaintext, raw, cek)."""
    header, raw, aad = jwe_parse(token)
    if "crit" in header:
        raise RefError("crit")
    cek = jwe_cek(header, raw[1], key)
    pt = content_decrypt(header["enc"], cek, raw[2], aad, raw[3], raw[4])
    if "zip" in header:
        if header["zip"] != "DEF":
            raise RefError("zip")
        pt = inflate(pt)
    return header, pt, raw, cek


# ---------------------------------------------------------------- JWK
def jwk_public(key):
    if key.kty == "RSA":
        return {"kty": "RSA", "n": b64u(i2b(key.n)), "e": b64u(i2b(key.e))}
    if key.kty == "EC":
        c = CURVES[key.crv]
        return {"kty": "EC", "crv": key.crv, "x": b64u(i2b(key.x, c.size)),
                "y": b64u(i2b(key.y, c.size))}
    return {"kty": "oct", "k": b64u(key.k)}


def jwk_private(key):
    r = jwk_public(key)
    if key.kty == "RSA":
        for p in ("d", "p", "q"):
            if getattr(key, p, None):
                r[p] = b64u(i2b(getattr(key, p)))
    elif key.kty == "EC":
        r["d"] = b64u(i2b(key.d, CURVES[key.crv].size))
    return r


THUMB = {"RSA": ["e", "kty", "n"], "EC": ["crv", "kty", "x", "y"],
         "oct": ["k", "kty"]}


def thumbprint(key, hname="SHA-256", members=None, meta=None):
    pub = dict(jwk_public(key), **(meta or {}))
    d = {m: pub[m] for m in (members or THUMB[key.kty])}
    txt = json.dumps(d, sort_keys=True, separators=(",", ":"))
    return hashlib.new(hname.replace("-", "").lower(), txt.encode()).digest()
