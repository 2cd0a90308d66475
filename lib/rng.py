"""Deterministic, optionally adversarial, replacement for the OS random source.

Installed before Cryptodome is imported, so `Cryptodome.Random`, `secrets`,
`random.SystemRandom` and `os.urandom` all draw from it.  A case can ask for
  s: stream selector            (int)
  z: every z-th draw of >=8 bytes starts with one or two zero bytes (0 = off)
  f: the first draw of each size >= 12 depends on the size only, so that the
     oracle can predict content keys and nonces whatever the order of draws
"""
import hashlib
import os
import random

_real = os.urandom


class _State(object):
    key = b"init"
    ctr = 0
    z = 0
    fixed = False
    seen = ()
    draws = 0
    total = 0
    script = None


S = _State()
ACTIVE = True


def fixed_bytes(key, n):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.sha256(b"fixed|%s|%d|%d" % (key, n, i)).digest()
        i += 1
    return out[:n]


def _urandom(n):
    if not ACTIVE:
        return _real(n)
    S.draws += 1
    S.total += n
    if S.script and n <= len(S.script):
        out, S.script = S.script[:n], S.script[n:]
        return out
    if S.fixed and n >= 12 and n not in S.seen:
        S.seen = S.seen + (n,)
        return fixed_bytes(S.key, n)
    out = b""
    while len(out) < n:
        out += hashlib.sha256(S.key + b"|%d" % S.ctr).digest()
        S.ctr += 1
    out = out[:n]
    if S.z and n >= 8 and S.draws % S.z == 0:
        lead = 1 + S.draws // S.z % 2
        out = b"\0" * lead + out[lead:]
    return out


def script(octets):
    """The next draws deliver these octets (None: back to normal)."""
    S.script = octets


def reset(key, z=0, fixed=False):
    S.key = hashlib.sha256(key).digest()
    S.ctr = 0
    S.z = z
    S.fixed = fixed
    S.seen = ()
    S.draws = 0
    S.total = 0
    S.script = None
    random.seed(int.from_bytes(S.key, "big"))


def install():
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda n, flags=0: _urandom(n)
