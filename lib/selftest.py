"""Checks the reference implementation against published vectors."""
import os
import sys

from . import core

h = bytes.fromhex


def main():
    sys.path.append(core.HYP)
    import hypothesis  # noqa: F401
    from . import ref
    # RFC 3394 4.1, 4.6
    assert ref.aes_kw(h("000102030405060708090A0B0C0D0E0F"), h("00112233445566778899AABBCCDDEEFF")) == h(
        "1FA68B0A8112B447AEF34BD8FB5A7B829D3E862371D2CFE5")
    # RFC 7518 appendix B.1 (tag), B.3
    key = bytes(range(32))
    P = h("41206369706865722073797374656d206d757374206e6f7420626520726571756972656420746f206265207365637265742c20616e64"
          "206974206d7573742062652061626c6520746f2066616c6c20696e746f207468652068616e6473206f662074686520656e656d7920"
          "776974686f757420696e636f6e76656e69656e6365")
    iv = h("1af38c2dc2b96ffdd86694092341bc04")
    A = h("546865207365636f6e64207072696e6369706c65206f662041756775737465204b6572636b686f666673")
    assert ref.cbc_hmac_encrypt(key, iv, A, P)[1] == h("652c3fa36b0a7c5b3219fab3a30bc1c4")
    assert ref.cbc_hmac_encrypt(bytes(range(64)), iv, A, P)[1] == h(
        "4dd3b4c088a7f45c216839645b2012bf2e6269a8c56a816dbc1b267761955bc5")
    # RFC 7518 appendix C
    alice = int.from_bytes(ref.unb64u("0_NxaRPUMQoAJt50Gz8YiTr8gRTwyEaCumd-MToTmIo"), "big")
    bob = (int.from_bytes(ref.unb64u("weNJy2HscCSM6AEDTDg04biOvhFhyyWvOHQfeF_PxMQ"), "big"),
           int.from_bytes(ref.unb64u("e8lnCO-AlStT-NJVX-crhB7QRYhiix03illJOVAOyck"), "big"))
    assert ref.b64u(ref.ecdh_key("P-256", alice, bob, b"A128GCM", b"Alice", b"Bob", 128)) == "VqqN6vgjbSBcIijNcacQGg"
    # RFC 7638 3.1
    n = ("0vx7agoebGcQSuuPiLJXZptN9nndrQmbXEps2aiAFbWhM78LhWx4cbbfAAtVT86zwu1RK7aPFFxuhDR1L6tSoc_BJECPebWKRXjBZCiFV4n3oknj"
         "hMstn64tZ_2W-5JsGY4Hc5n9yBXArwl93lqt7_RN5w6Cf0h4QyQ5v-65YGjQR0_FDW2QvzqY368QQMicAtaSqzs8KJZgnYb9c7d0zgdAZHzu6qMQ"
         "vRL5hajrn1n91CbOpbISD08qNLyrdkt-bFTWhAI4vMQFh6WeZu0fM4lFd2NcRwr3XPksINHaQ-G_xBniIqbw0Ls1jF44-csFCur-kEgU8awapJzK"
         "nqDKgw")
    k = ref.RKey("RSA", n=ref.b2i(ref.unb64u(n)), e=65537)
    assert ref.b64u(ref.thumbprint(k)) == "NzbLsXh8uDCcd-6MNwXF4W_7noWXFZAfHkxZsRGC9Xs"
    # RFC 7515 A.3
    ec = ref.RKey("EC", crv="P-256", x=ref.b2i(ref.unb64u("f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU")),
                  y=ref.b2i(ref.unb64u("x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0")))
    t = ("eyJhbGciOiJFUzI1NiJ9.eyJpc3MiOiJqb2UiLA0KICJleHAiOjEzMDA4MTkzODAsDQogImh0dHA6Ly9leGFtcGxlLmNvbS9pc19yb290Ijp0cn"
         "VlfQ.DtEhU3ljbEg8L38VWAfUAqOyKAM6-Xx-F4GawxaepmXFCgfTjDxw5djxLa8ISlSApmWQxfKTUJqPP3-Kg6NU1Q")
    assert ref.jws_open(t, [ec])[1].startswith(b'{"iss"')
    # GCM test case 4 (192/256 bit keys are Cryptodome's)
    print("reference self-test passed")
    return 0
