#!/opt/venv/bin/python
"""Generates fixtures/rsa_keys.json (run once; committed)."""
import json, os, sys
from Cryptodome.PublicKey import RSA
from Cryptodome.Util.number import getPrime, inverse, GCD
spec = [(1024,65537,3),(1025,65537,2),(1031,65537,1),(1032,3,1),(1040,65537,2),(1041,65537,2),
        (1048,17,1),(1279,65537,1),(1536,65537,2),(2047,65537,1),(2048,65537,3),(2048,3,1),(3072,65537,1)]
def main():
    out = []
    for bits, e, cnt in spec:
        for _ in range(cnt):
            while True:
                p = getPrime((bits + 1)//2); q = getPrime(bits - (bits+1)//2)
                n = p*q
                if n.bit_length() != bits or p == q: continue
                phi = (p-1)*(q-1)
                if GCD(e, phi) != 1: continue
                lam = phi // GCD(p-1, q-1)
                d = inverse(e, lam if len(out) % 3 == 2 else phi)
                break
            out.append(dict(n=hex(n), e=hex(e), d=hex(d), p=hex(p), q=hex(q), bits=bits))
    json.dump(out, open(path,'w'), indent=0)
    print(len(out))


path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'fixtures', 'rsa_keys.json')


def extras():
    """Added later: unusual exponents (large, longer than 32 bits, nearly as
    long as the modulus), one modulus with two exponents, a short private
    exponent, a large modulus."""
    import random
    keys = json.load(open(path))
    k0 = {k: int(v, 16) for k, v in keys[0].items() if k != "bits"}

    def add(p, q, e, bits):
        phi = (p - 1) * (q - 1)
        keys.append(dict(n=hex(p * q), e=hex(e), d=hex(inverse(e, phi)), p=hex(p), q=hex(q), bits=bits))

    def primes(bits, e):
        while True:
            p, q = getPrime(bits // 2), getPrime(bits // 2)
            if (p * q).bit_length() == bits and p != q and GCD(e, (p - 1) * (q - 1)) == 1:
                return p, q
    add(k0["p"], k0["q"], 4294967311, 1024)
    for e in (4294967291, (1 << 64) + 13):
        add(*primes(1024, e), e=e, bits=1024)
    p, q = primes(1024, 3)
    phi = (p - 1) * (q - 1)
    d = getPrime(500)
    add(p, q, inverse(d, phi), 1024)
    add(*primes(4096, 65537), e=65537, bits=4096)
    json.dump(keys, open(path, "w"), indent=0)


if __name__ == "__main__":
    extras() if sys.argv[1:] == ["extras"] else main()
