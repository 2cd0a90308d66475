"""C30: PBKDF2."""
import hashlib
import string

from hypothesis import strategies as st

from lib import gen, ref
from lib.core import Enum, Search, attempt, check, lib, must_fail

ID = "C30"
RULE = ("Case: passphrase and salt (text or octets, empty, longer than a block), iteration count, digest, list of read sizes and forms. "
        "Oracle: hashlib.pbkdf2_hmac over the whole stream. Password hash: own formula, verification with its own output. Trivial: "
        "nothing read.")

from Cryptodome.Hash import SHA1, SHA256, SHA384, SHA512  # noqa: E402
from jwkest.PBKDF2 import PBKDF2, crypt  # noqa: E402

MODS = {"sha1": SHA1, "sha256": SHA256, "sha384": SHA384, "sha512": SHA512}
word = st.one_of(st.text(max_size=30).map(lambda t: {"t": t}), gen.hexbytes(0, 40).map(lambda h: {"b": h}),
                 st.sampled_from([0, 63, 64, 65, 127, 128, 129, 200]).map(lambda n: {"t": "X" * n}),
                 st.text(max_size=5).map(lambda t: {"t": t + "\u00e5\u4e2d"}))


def val(m):
    return m["t"] if "t" in m else gen.B(m["b"])


def octets(m):
    return m["t"].encode("utf-8") if "t" in m else gen.B(m["b"])


sizes = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 19, 20, 21, 32, 33, 40, 41, 64, 65, 100, 300]))
s_stream = st.fixed_dictionaries({
    "pw": word, "salt": word, "n": st.one_of(st.integers(1, 6), st.sampled_from([1, 2, 3, 100, 999])), "md": st.sampled_from(["default"] + sorted(MODS)),
    "reads": st.lists(st.tuples(sizes, st.booleans()).map(list), max_size=8), "close": st.booleans(), "def_iter": st.sampled_from([False] * 9 + [True])})


def p_stream(c):
    md = "sha1" if c["md"] == "default" else c["md"]
    kw = {} if c["md"] == "default" else {"digestmodule": MODS[md]}
    if c["def_iter"]:
        n = 1000
    else:
        n = kw["iterations"] = c["n"]
    f = lib(PBKDF2, val(c["pw"]), val(c["salt"]), **kw)
    total = sum(r[0] for r in c["reads"])
    whole = hashlib.pbkdf2_hmac(md, octets(c["pw"]), octets(c["salt"]), n, max(total, 1))
    at = 0
    for size, hexa in c["reads"]:
        got = lib(f.hexread if hexa else f.read, size)
        want = whole[at:at + size]
        check(got == (want.hex() if hexa else want), "octets %s to %s of the stream: %s, expected %s", at, at + size, got, want)
        at += size
    if c["close"]:
        lib(f.close)
        must_fail("reading a closed stream", f.read, 1)
        lib(f.close)
    return [md] + (["trivial"] if not total else []) + (["split"] if len([r for r in c["reads"] if r[0]]) > 1 else [])


def longs(tier):
    """More than 255 and more than 65535 blocks of the stream."""
    for md, sz in (("default", 20), ("sha256", 32), ("sha512", 64)):
        for blocks in (254, 255, 256, 257, 600):
            for split in (0, 7):
                yield {"pw": {"t": "pw"}, "salt": {"t": "s%d" % blocks}, "n": 1, "md": md, "close": False, "def_iter": False,
                       "reads": [[blocks * sz - split, False], [sz + split, True]]}
    yield {"pw": {"t": "pw"}, "salt": {"t": "s"}, "n": 1, "md": "default", "close": False, "def_iter": False, "reads": [[65534 * 20, False], [100, False]]}


SALT = string.ascii_letters + string.digits + "./"
s_crypt = st.fixed_dictionaries({
    "pw": word, "other": word, "salt": st.text(alphabet=SALT, max_size=12), "n": st.one_of(st.none(), st.integers(1, 20), st.just(400)),
    "form": st.sampled_from(["str", "str", "bytes", "none"]), "rng": gen.rng_spec})


def hashed(pw, salt, n):
    import base64
    s = "$p5k2$%s$%s" % ("" if n == 400 else "%x" % n, salt)
    raw = hashlib.pbkdf2_hmac("sha1", pw, s.encode(), n, 24)
    return s + "$" + base64.b64encode(raw, b"./").decode()


def p_crypt(c):
    pw = val(c["pw"])
    n = c["n"] or 400
    a = {"str": c["salt"], "bytes": c["salt"].encode(), "none": None}[c["form"]]
    h = lib(crypt, pw, a, c["n"])
    if a is not None:
        check(h == hashed(octets(c["pw"]), c["salt"], n), "hash %s, expected %s", h, hashed(octets(c["pw"]), c["salt"], n))
        check(lib(crypt, pw, a, c["n"]) == h, "hash is not deterministic")
    else:
        parts = h.split("$")
        check(len(parts) == 5 and parts[3] and all(x in SALT for x in parts[3]), "hash with random salt: %s", h)
        check(h == hashed(octets(c["pw"]), parts[3], n), "hash with random salt: %s", h)
    for s in (h, h.encode(), h.rsplit("$", 1)[0] + "$"):
        check(lib(crypt, pw, s) == h, "hash %s not reproduced for the right password", h)
    check(lib(crypt, octets(c["pw"]), h, 7) == h, "hash %s not reproduced with the octets of the password", h)
    # HMAC pads keys with zero octets and hashes long ones
    norm = lambda b: (hashlib.sha1(b).digest() if len(b) > 64 else b).rstrip(b"\0")
    if norm(octets(c["other"])) != norm(octets(c["pw"])):
        check(lib(crypt, val(c["other"]), h) != h, "hash %s reproduced for another password", h)
    return [c["form"]]


BAD = [(5, "a"), (None, "a"), ([], "a"), ("p", 5), ("p", ["a"]), ("p", "a b"), ("p", "\u00e5"), ("p", b"\xff"), ("p", "a-"), ("p", "$p5k2$0$abc$"), ("p", "$p5k2$X$abc$"),
       ("p", "$p5k2$0a$abc$"), ("p", "$p5k2$A$abc$"), ("p", "$p5k2$-1$abc$"), ("p", "$p5k2$1$a=c$"), ("p", "$p5k2$")]


def p_bad(c):
    w, s = BAD[c["i"]]
    must_fail("crypt(%r, %r)" % (w, s), crypt, w, s)
    return []


def p_args(c):
    for w, s, n in ((5, "s", 1), ("p", 5, 1), (None, "s", 1), ("p", "s", 0), ("p", "s", -1), ("p", "s", "1"), ("p", "s", 1.5), ("p", "s", None)):
        must_fail("PBKDF2(%r, %r, %r)" % (w, s, n), PBKDF2, w, s, n)
    return []


def lengths(tier):
    """Passphrases and salts of every length, iteration counts of every size class."""
    for n in list(range(0, 140)) + [255, 256, 1000, 65537]:
        for m in ("pw", "salt"):
            c = {"pw": {"t": "pw"}, "salt": {"t": "salt"}, "n": 2, "md": ["default", "sha1", "sha256", "sha384", "sha512"][n % 5], "close": False,
                 "def_iter": False, "reads": [[n % 50, False], [50, True]]}
            yield dict(c, **{m: {"b": "5a" * n}})
            yield dict(c, **{m: {"t": "\u00e5" * n}})
    for n in list(range(1, 70)) + [127, 128, 255, 256, 257, 999, 1000, 1001, 4095, 4096, 4097, 65536]:
        yield {"pw": {"t": "pw"}, "salt": {"t": "salt"}, "n": n, "md": "default", "close": False, "def_iter": False, "reads": [[7, False], [33, False]]}


SUBTESTS = [
    Enum("lengths", lengths, p_stream),
    Enum("bad-hash", lambda tier: [{"i": i} for i in range(len(BAD))], p_bad, exhaustive=True),
    Enum("bad-arguments", lambda tier: [{}], p_args, exhaustive=True),
    Enum("long-streams", longs, p_stream),
    Search("stream", s_stream, p_stream, quick=1500, thorough=60000),
    Search("crypt", s_crypt, p_crypt, quick=480, thorough=20000),
]
