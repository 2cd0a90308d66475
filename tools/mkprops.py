#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
J = 'src/jwkest/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(d)

# ------------------------------------------------------------------ JWS
prop("C01", "A signed compact JWS verifies and returns exactly what was signed",
 "For every supported signature algorithm, every usable key of the matching type and every payload (text, bytes or a JSON object/array), signing in compact form yields a three-part token that the verifier accepts with the matching public or shared key, returning the signed payload and reporting the key that verified it. "
 "The token's header carries the algorithm, the signing key's id when it has one, the type when one was set, and every protected header parameter the caller supplied, unchanged. "
 "Verification of that token fails if the verifier is given only other keys.",
 ["inputs", "configurations"],
 "All 12 signature algorithms and 'none', RSA moduli of many sizes, all three curves with arbitrary private scalars, HMAC keys of any length; any payload; any caller header; any adversarial choice of random bytes.",
 "The tests sign a dozen fixed ASCII strings with a few fixed keys; payload bytes, header contents, key sizes and random nonces are unbounded, and failures hide in rare values such as coordinates or signature integers with leading zero bytes.",
 [J+"jws.py", J+"jwt.py", J+"ecc.py"],
 [("JWS.sign_compact / JWS.verify_compact(_verbose)", J+"jws.py"), ("JWT.pack / JWT.unpack / payload", J+"jwt.py"), ("SIGNER_ALGS", J+"jws.py")],
 observe=["return values of sign_compact / verify_compact_verbose"])

prop("C02", "Only a genuinely signed token verifies; any alteration is rejected",
 "Verification returns a payload only if the token has exactly three well-formed parts and its signature is, byte for byte in the standard encoding, valid for exactly the received header and payload octets under the algorithm named in the header and one of the supplied keys; otherwise it raises an error and returns nothing. "
 "This holds for every alteration of a genuine token (bits, bytes, truncations, extensions, swapped parts, re-encoded headers, foreign signatures, degenerate or non-canonical signature values) and for arbitrary byte strings. "
 "A failed verification never makes a payload available as verified.",
 ["inputs"],
 "Every token an attacker can construct without the key, for each algorithm and key.",
 "Tests flip a handful of signatures by hand; forgeries range over all byte strings and over structured malformations (length, padding, leading zeros, r/s out of range) that no example list covers.",
 [J+"jws.py", J+"jwt.py", J+"ecc.py", J+"__init__.py"],
 [("verify_compact_verbose", J+"jws.py"), ("HMACSigner/RSASigner/DSASigner/PSSSigner.verify", J+"jws.py"), ("NISTEllipticCurve.verify", J+"ecc.py"), ("b64d strictness", J+"__init__.py")],
 observe=["exception or return value of verify_compact"])

prop("C03", "The algorithm actually used is the one the verifier agreed to",
 "A token without an algorithm or with algorithm 'none' (in any letter case) is rejected unless the caller explicitly allowed it. "
 "If the caller pins an algorithm for compact verification, for one call or on the verifying object, a token naming any other signature algorithm is rejected even when it is properly signed with a supplied key. "
 "A token is never verified with a key of another type than its algorithm requires, or with a key declared for another algorithm, and unknown algorithm names are always rejected.",
 ["inputs", "configurations"],
 "All header algorithm values (standard, unknown, wrong case, non-string, missing) x all pin settings x all mixes of supplied keys, including public keys reused as HMAC secrets.",
 "Tests cover a few fixed combinations; algorithm confusion lives in the cross product of header value, pin, key type and declared key algorithm.",
 [J+"jws.py"],
 [("verify_compact_verbose alg checks", J+"jws.py"), ("JWx.pick_keys", J+"jws.py"), ("alg2keytype", J+"jws.py")],
 observe=["exception or return value of verify_compact with allow_none / sigalg / JWS(alg=...)"])

prop("C04", "JWS wire format interoperates with RFC 7515/7518 implementations",
 "Every compact JWS produced by the library is accepted by an independent implementation of RFC 7515/7518 and yields the same header, payload bytes and key; signature encodings have exactly the length the RFC prescribes. "
 "Conversely every valid token from an independent implementation, including ones with any JSON formatting of the header and any valid signature nonce or salt, is accepted by the library and yields the same payload.",
 ["inputs", "configurations"],
 "All algorithms, keys, payloads and header spellings, in both directions.",
 "Round-trip tests are blind to symmetric mistakes; the few RFC vectors in the tests fix one key and message per algorithm family.",
 [J+"jws.py", J+"ecc.py", J+"jwt.py"],
 [("SIGNER_ALGS", J+"jws.py"), ("NISTEllipticCurve.sign/verify", J+"ecc.py"), ("b64encode_item", J+"jwt.py")],
 observe=["token strings"])

prop("C05", "Key selection uses exactly the keys that fit, independent of the others",
 "From a mixed key set, signing, verifying, encrypting and decrypting consider exactly the keys whose type fits the algorithm (and, for elliptic-curve signatures, whose curve fits), whose id equals the requested id (or, when verifying, the token-carried id) when there is one, whose declared algorithm, if any, matches and, except when verifying, whose declared use, if any, matches; when no key fits, an error is raised and nothing is produced. "
 "Adding, removing or permuting keys that do not fit never changes the outcome, and the key that verifies a token may be at any position among the fitting keys.",
 ["inputs", "configurations"],
 "All key sets (any mix of kty, kid, use, alg, curve, in any order, list or key-set object) x all algorithms x kid/use settings.",
 "Tests use sets of two or three fixed keys; the selection rule is a predicate over arbitrary combinations of attributes.",
 [J+"jws.py", J+"jwe.py"],
 [("JWx.pick_keys", J+"jws.py"), ("JWS.alg_keys", J+"jws.py"), ("JWE.encrypt / JWE.decrypt key loop", J+"jwe.py")],
 observe=["pick_keys result, kid in produced header, key reported by verification"])

prop("C06", "JWS JSON serialization: every signature must verify over the same payload",
 "JSON-serialized JWS over text (general with any number of signatures, and flattened for one) produced by the library has the RFC 7515 structure, each signature is valid for its own protected header and the common payload, the unprotected headers are carried as given, and it verifies back to the payload with the signing keys. "
 "Verification of a JSON-serialized JWS succeeds only if every signature in it is valid under a supplied key; altering the payload, any protected header or any signature, or removing the payload or all signatures, makes it fail.",
 ["inputs", "configurations"],
 "Any number and order of signers and algorithms, any headers, general and flattened, and any alteration of any member.",
 "Tests sign one fixed text with one EC key; multi-signature documents with several algorithms and tampering of one among many signatures are never exercised.",
 [J+"jws.py"],
 [("JWS.sign_json", J+"jws.py"), ("JWS.verify_json", J+"jws.py")],
 observe=["JSON text and return value/exception of verify_json"])

prop("C07", "A token cannot bring its own trust: embedded keys, URLs and crit",
 "When the caller supplies keys, keys or key references carried in the token header (embedded key, key-set URL, certificate URL, certificate chain) never influence whether the token is accepted and never cause a network request, for signature verification (compact or JSON) and for decryption. "
 "When the caller supplies no keys, compact verification and decryption accept nothing because of such header members. "
 "A token that marks extensions as critical which the library does not implement is rejected.",
 ["inputs"],
 "All tokens self-signed by an attacker's key with any combination of jwk/jku/x5u/x5c/kid/crit members, for all algorithms.",
 "No test presents an attacker-signed token carrying its own key together with caller keys, nor a crit header.",
 [J+"jws.py", J+"jwe.py"],
 [("JWx._get_keys", J+"jws.py"), ("verify_compact_verbose / verify_json", J+"jws.py"), ("JWE.decrypt", J+"jwe.py")],
 observe=["exception or return value; requests made through the HTTP layer"])

prop("C08", "JWT container: packing and unpacking preserve every octet",
 "Packing a header and parts into a token and unpacking it again gives the same header members and the same part octets; re-serializing an unpacked token reproduces the received token text exactly, so signatures are always computed over the octets received. "
 "The payload is returned as parsed JSON when it is JSON text and no non-JWT content type is declared, and as the plain text otherwise. "
 "Text that is not a dot-separated sequence of base64url parts with a JSON header is rejected with an error.",
 ["inputs"],
 "All header dictionaries, all part values, any number of parts, any content type, any received token spelling.",
 "Tests pack three fixed values.",
 [J+"jwt.py"],
 [("JWT.pack / JWT.unpack / JWT.payload", J+"jwt.py"), ("b64encode_item / b2s_conv / split_token", J+"jwt.py")],
 observe=["token text, part, b64part, headers, payload()"])

prop("C09", "Token recognition is total and accurate",
 "For any text whatsoever, asking whether it is a JWS or a JWE gives an answer instead of an unrelated crash: it is recognised as a JWS exactly when it is a dot-separated token whose header names a known signature algorithm (a missing value counts as none) or a JSON document with the JWS members, and as a JWE exactly when its header names a supported key-management and content-encryption algorithm or declares the JWE type. "
 "Every token the library itself produces is recognised as its own kind and not as the other, and the recogniser hands back an object that processes that very token.",
 ["inputs"],
 "All strings: random text, JSON of every shape, tokens with arbitrary headers, genuine tokens.",
 "Tests try three genuine tokens; the recogniser is the first thing attacker-controlled text meets.",
 [J+"jws.py", J+"jwe.py"],
 [("jws.factory / JWS.is_jws", J+"jws.py"), ("jwe.factory / JWEnc.is_jwe", J+"jwe.py")],
 observe=["return value of factory / is_jws / is_jwe"])

prop("C10", "base64url and integer codecs are exact inverses and strict",
 "Encoding bytes as base64url yields unpadded URL-safe text that decodes to the same bytes, for all byte strings; the decoder rejects, with the documented syntax error, every text containing any character outside the alphabet (including line breaks and the characters + and /, but trailing = padding may be tolerated) or of impossible length. "
 "Integer conversions (to and from big-endian base64url, octet arrays and octet strings) are mutually inverse for every non-negative integer and agree with big-endian two's-complement-free encoding of minimal length.",
 ["inputs"],
 "All byte strings, all texts, all non-negative integers.",
 "Tests check a few vectors; off-by-one nibble, zero and illegal-character cases are unbounded.",
 [J+"__init__.py"],
 [("b64e/b64d/add_padding", J+"__init__.py"), ("long_to_base64/base64_to_long/base64url_to_long", J+"__init__.py"), ("long2intarr/intarr2long/long2hexseq/intarr2bin", J+"__init__.py")],
 observe=["return values and exceptions"])

# ------------------------------------------------------------------ JWK
prop("C11", "JWK import and export are inverse and give usable keys",
 "For every RSA, elliptic-curve and symmetric key, exporting it as a JWK and importing that JWK, by any of the provided import routes (text or bytes member values), gives a key with the same type, key numbers and metadata (id, use, algorithm), which exports to the same JWK again and which signs and decrypts for the original and vice versa. "
 "Exported JWKs follow RFC 7518: minimal big-endian base64url integers for RSA, full-width coordinates and private values for elliptic-curve keys. "
 "JWK data lacking or malforming required members never yields a key that can be used: constructing, exporting or using it raises an error.",
 ["inputs", "configurations"],
 "All key values (including integers with leading zero octets), all metadata, public and private form, all import routes.",
 "Tests import a few fixed JWKs; leading-zero coordinates, byte/text differences and private members through each import route are not sampled.",
 [J+"jwk.py", J+"__init__.py"],
 [("Key/RSAKey/ECKey/SYMKey serialize & deserialize", J+"jwk.py"), ("keyrep / key_from_jwk_dict / KEYS.load_dict / jwk_wrap", J+"jwk.py")],
 observe=["serialize() output, key attributes, cross-use for signing"])

prop("C12", "Private key material never leaves through public representations",
 "Public export of an asymmetric key, key-set dumps and text forms of key sets, public copies of asymmetric keys, and the headers of produced tokens never contain any private member or private value of such keys, whatever the key's history (generated, imported, wrapped, used). "
 "A public copy of a key is itself a working public key that exports to the same public JWK, verifies and encrypts like the original, and cannot sign or decrypt.",
 ["inputs", "histories"],
 "All RSA and EC private keys from every import route, after any sequence of uses.",
 "A leak is a property of every output the library can produce, tests check one RSA key's attribute list.",
 [J+"jwk.py", J+"jws.py", J+"jwe.py"],
 [("serialize(private=False)", J+"jwk.py"), ("KEYS.dump_jwks", J+"jwk.py"), ("make_public_copy", J+"jwk.py"), ("JWx.headers", J+"jws.py")],
 observe=["all public outputs scanned for the private integers in any encoding"])

prop("C13", "Key thumbprints identify the key and only the key",
 "The thumbprint of a key is the RFC 7638 thumbprint for each supported digest, for every key; it depends only on the required public key members, so id, use, algorithm, private parts, import route, earlier thumbprints and order of operations never change it, and different keys have different thumbprints. "
 "Assigning an automatic key id sets the id to the base64url SHA-256 thumbprint.",
 ["inputs", "histories"],
 "All keys, digests, metadata and member lists.",
 "The tests compare one RSA and one EC example with a recorded value.",
 [J+"jwk.py"],
 [("Key.thumbprint / get_hash / add_kid", J+"jwk.py"), ("required member lists", J+"jwk.py")],
 observe=["thumbprint() and kid"])

prop("C14", "Key equality and hashing agree and distinguish different keys",
 "Two key objects compare equal exactly when they have the same type, metadata and public key material, whichever way they were built; equality is reflexive and symmetric, never raises, and is false against anything that is not a key. "
 "Keys with different key material are never equal, equal keys have equal hashes, and hashing or comparing never changes what a key is equal to.",
 ["inputs", "histories"],
 "All pairs of keys of all types from all import routes, and sequences of compare/hash/set operations.",
 "Tests compare a few pairs, symmetric keys and mixed import routes never.",
 [J+"jwk.py"],
 [("Key.__eq__ / __hash__", J+"jwk.py"), ("public_members lists", J+"jwk.py")],
 observe=["==, hash(), set membership"])

prop("C15", "A key set holds exactly the keys put into it, in order",
 "After any sequence of loading, adding, wrapping and appending, a key set contains exactly those keys in that order: size, iteration, lookup by type (case-insensitive), lookup by id, list of ids, list of types and the per-type dictionary all agree with that list. "
 "Dumping a key set as JWKS and loading it gives an equal key set (public parts), and failed loads of malformed input raise an error without adding anything from the failing key onward.",
 ["histories", "inputs"],
 "All operation sequences over all kinds of keys, and all JWKS documents.",
 "Tests load one or two fixed documents; no operation sequences.",
 [J+"jwk.py"],
 [("KEYS", J+"jwk.py"), ("load_jwks / load_dict / dump_jwks", J+"jwk.py")],
 state=[("_keys", "ordered list of held keys", J+"jwk.py")],
 observe=["every read operation after every step"])

prop("C16", "Certificates and PEM files load to exactly the key they contain",
 "Loading an RSA key from PEM or DER key data, from a PEM or DER X.509 certificate or from a JWK with a certificate chain gives exactly the modulus and exponent (and private parts, if present) that the data contains, for any certificate contents, encoding length and line layout. "
 "A JWK whose certificate thumbprint does not match its certificate is rejected, and one whose thumbprint matches is accepted.",
 ["inputs"],
 "All RSA keys, certificate field contents and lengths (all base64 paddings), thumbprints right and wrong.",
 "Tests read one certificate file whose length happens to need one particular padding.",
 [J+"jwk.py"],
 [("pem_cert2rsa / der_cert2rsa / der2rsa", J+"jwk.py"), ("RSAKey.deserialize x5c/x5t", J+"jwk.py"), ("import_rsa_key(_from_file) / rsa_load", J+"jwk.py")],
 observe=["n, e of the loaded key; exception for wrong x5t"])

# ------------------------------------------------------------------ JWE
prop("C17", "Encryption followed by decryption returns the plaintext",
 "For every supported key-management algorithm, every content-encryption algorithm, every usable key and every plaintext (text or bytes, empty or long), with or without compression and party information, encrypting yields a five-part token whose header names the algorithms, and decrypting it with the private or shared key returns exactly the plaintext bytes. "
 "This holds for every value the random generator may deliver for keys, initialization vectors and ephemeral keys, including ones with leading zero bytes.",
 ["inputs", "configurations"],
 "10 key-management x 6 content algorithms, all keys/curves/sizes, plaintext lengths around block boundaries, all random values.",
 "Tests encrypt one fixed sentence for eight combinations; errors tied to lengths and random values (leading zero bytes in a tag or key: 1 in 256) slip through.",
 [J+"jwe.py", J+"extra.py", J+"aes_gcm.py", J+"aes_key_wrap.py"],
 [("JWE.encrypt / JWE.decrypt", J+"jwe.py"), ("JWE_RSA / JWE_SYM / JWE_EC", J+"jwe.py")],
 observe=["decrypt(encrypt(m)) == m"])

prop("C18", "No altered or forged JWE decrypts",
 "Decryption returns a plaintext only for a token in which the header octets, encrypted key, initialization vector, ciphertext and authentication tag are all exactly those produced together by a holder of the key: any alteration, truncation, extension or exchange of any part, or a token made by a party without the key, raises an error and yields nothing. "
 "In particular content keys of the wrong length, short or over-long tags and initialization vectors, and malformed wrapped keys are rejected.",
 ["inputs"],
 "All tokens: every mutation of genuine tokens for all algorithm pairs, and constructed forgeries exploiting degenerate keys, tags and wrapped keys.",
 "No test alters a JWE at all.",
 [J+"jwe.py", J+"extra.py", J+"aes_gcm.py", J+"aes_key_wrap.py"],
 [("JWe._decrypt", J+"jwe.py"), ("aes_unwrap_key", J+"aes_key_wrap.py"), ("aes_cbc_hmac_decrypt", J+"extra.py"), ("AES_GCM.decrypt", J+"aes_gcm.py")],
 observe=["exception or return value of JWE.decrypt"])

prop("C19", "JWE wire format interoperates with RFC 7516/7518 implementations",
 "Every compact JWE produced by the library is decrypted to the same plaintext by an independent implementation of RFC 7516/7518 (symmetric wrapping keys derived from the shared secret as OpenID Connect prescribes), with part lengths as the RFC prescribes. "
 "Conversely every valid token from an independent implementation, with any header formatting, with or without party information, compressed or not, is decrypted by the library to the same plaintext.",
 ["inputs", "configurations"],
 "All algorithm pairs, keys, plaintexts, header spellings, in both directions.",
 "Round trips cannot see symmetric mistakes such as a wrong key derivation or key size; no test decrypts a foreign token.",
 [J+"jwe.py", J+"extra.py"],
 [("JWE_RSA / JWE_SYM / JWE_EC", J+"jwe.py"), ("ecdh_derive_key", J+"extra.py"), ("SYMKey.encryption_key", J+"jwk.py")],
 observe=["token strings and decrypted plaintext"])

prop("C20", "Decryption finds the right key among many and honours the caller's pin",
 "Given several keys, decryption succeeds exactly when one of the fitting keys is the right one, wherever it stands among wrong ones of the same or other types, and it raises the library's decryption error when none is right. "
 "If the caller pins a key-management algorithm for a decryption, tokens naming another one are rejected, and tokens with unsupported or missing algorithm names are rejected.",
 ["inputs", "configurations"],
 "All orders and mixes of right and wrong keys, all algorithms and pins.",
 "Tests always pass exactly the right key alone.",
 [J+"jwe.py"],
 [("JWE.decrypt", J+"jwe.py"), ("JWx.pick_keys", J+"jws.py")],
 observe=["plaintext or exception type"])

prop("C21", "Every secret and nonce is fresh and unpredictable",
 "Each encryption uses a new content key, initialization vector and (for key agreement) ephemeral key of full length, each elliptic-curve signature a new nonce, and each generated key pair or symmetric key tool output new key material; none repeats across calls, also when the same object is reused. "
 "All of these come from the operating system's random source: restoring or seeding the process's ordinary pseudo-random generator never makes them repeat or become predictable, and every bit of them varies.",
 ["histories", "inputs"],
 "All sequences of encryptions, signatures and key generations, under arbitrary seeding of the ordinary generator.",
 "A single test run cannot tell a predictable nonce from a random one; no test looks at two outputs together.",
 [J+"jwe.py", J+"ecc.py", "script/gen_symkey.py"],
 [("JWe._generate_key_and_iv", J+"jwe.py"), ("NISTEllipticCurve.key_pair/_sign_loop", J+"ecc.py"), ("rndstr", "script/gen_symkey.py")],
 observe=["CEK, IV, epk recovered from tokens; r of signatures"])

prop("C22", "Key agreement rejects foreign ephemeral keys",
 "When decrypting with key agreement, a token whose ephemeral public key is missing, malformed, the neutral point, not on the recipient key's curve or on another curve is rejected, before any result depending on the private key becomes observable as a successful decryption. "
 "Every ephemeral key genuinely on the recipient's curve is accepted, and tokens produced by the library always carry such a key without its private part.",
 ["inputs"],
 "All ephemeral key values: random coordinates, small-order points of other curves, coordinates out of range, other curve names.",
 "No test presents a bad ephemeral key.",
 [J+"jwe.py", J+"jwk.py", J+"ecc.py"],
 [("JWE_EC.dec_setup", J+"jwe.py"), ("NISTEllipticCurve.dh_z", J+"ecc.py")],
 observe=["exception or plaintext for tokens encrypted under the invalid-curve shared secret"])

# ------------------------------------------------------------------ primitives
prop("C23", "Elliptic-curve arithmetic obeys the group law on every curve",
 "Point addition, doubling, negation, scalar multiplication and double-scalar multiplication agree with an independent implementation for every point and every non-negative scalar, including zero, the group order and its neighbours, equal and opposite points and the neutral element. "
 "Generated key pairs have a private scalar between 1 and the order minus one and the matching public point, both parties of a key agreement compute the same full-width secret, and compressing and uncompressing a point returns it.",
 ["inputs"],
 "All points and scalars of the standard curves, and exhaustively of small curves.",
 "Tests multiply a handful of vectors; exceptional cases of the optimized formulas need specific scalar/point relations.",
 [J+"elliptic.py", J+"ecc.py", J+"curves.py"],
 [("add/mul/addf/doublef/mulf/mulp/muladdf/muladdp", J+"elliptic.py"), ("NISTEllipticCurve.key_pair/public_key_for/dh_z/compress/uncompress", J+"ecc.py"), ("DOMAINS", J+"curves.py")],
 observe=["returned points"])

prop("C24", "The ECDSA primitive is correct for every hash value, nonce and signature",
 "For every hash integer, private key and nonce, the signature primitive yields the standard (r, s) in fixed-width encoding, with hashes longer than the order truncated to its bit length, and the verification primitive accepts exactly the signatures with r and s in range and of exact length that satisfy the ECDSA equation. "
 "Verification agrees with an independent implementation on every hash, signature and public key, including boundary values.",
 ["inputs"],
 "All hash integers (0, around the order, wider than the order), all private keys and nonces, all signature byte strings of all lengths.",
 "The tests use fixed vectors whose hashes are far from the order.",
 [J+"ecc.py", J+"elliptic.py"],
 [("NISTEllipticCurve.sign/verify/_sign_loop", J+"ecc.py")],
 observe=["signature bytes and verify result"])

prop("C25", "AES-GCM matches NIST SP 800-38D for all inputs",
 "For 128-, 192- and 256-bit keys, every 96-bit nonce, plaintext and associated data of any length, encryption gives the ciphertext and tag of an independent AES-GCM, and decryption inverts it. "
 "Decryption with any different tag, nonce, ciphertext, associated data or key raises the invalid-tag error without returning plaintext, encrypting twice in a row with the same nonce under one key is refused, and changing the key takes full effect.",
 ["inputs", "histories"],
 "All keys (including ones with leading zero bytes), nonces, lengths, and call sequences on one cipher object.",
 "Two fixed vectors.",
 [J+"aes_gcm.py"],
 [("AES_GCM.encrypt/decrypt/change_key", J+"aes_gcm.py"), ("gf_2_128_mul, ghash tables", J+"aes_gcm.py")],
 state=[("prev_init_value", "last nonce used under this key", J+"aes_gcm.py"), ("_pre_table", "GHASH multiplication table", J+"aes_gcm.py")],
 observe=["ciphertext, tag, exceptions"])

prop("C26", "AES key wrap conforms to RFC 3394/5649 and rejects malformed input",
 "Wrapping then unwrapping returns the key data for every key-encryption key and every permitted key data length, the wrapped form equals that of an independent implementation, and unwrapping fails for every altered, truncated or extended wrapped key or other key-encryption key. "
 "Key data of a length the algorithm does not permit is refused rather than truncated. The padded variant does the same for key data of any length.",
 ["inputs"],
 "All KEKs, key data of all lengths, all alterations.",
 "One vector, in a function the test runner does not collect.",
 [J+"aes_key_wrap.py"],
 [("aes_wrap_key / aes_unwrap_key", J+"aes_key_wrap.py"), ("aes_wrap_key_withpad / aes_unwrap_key_withpad", J+"aes_key_wrap.py")],
 observe=["wrapped bytes, unwrapped bytes, exceptions"])

prop("C27", "AES-CBC-HMAC authenticated encryption matches RFC 7518 section 5.2",
 "For the three key lengths, every initialization vector, associated data and plaintext of any length, encryption gives the ciphertext and tag of an independent implementation and decryption inverts it. "
 "Decryption with any change to tag (including its length), ciphertext, initialization vector, associated data or the authentication half of the key raises the verification error without returning plaintext; keys and vectors of other lengths are refused.",
 ["inputs"],
 "All keys, vectors, associated data and plaintext lengths, all alterations.",
 "The tests only reach it through a few fixed tokens.",
 [J+"extra.py"],
 [("aes_cbc_hmac_encrypt / aes_cbc_hmac_decrypt", J+"extra.py"), ("pkcs5pad / pkcs5trim", J+"extra.py")],
 observe=["ciphertext, tag, plaintext, exceptions"])

prop("C28", "Key-agreement key derivation matches the Concat KDF of RFC 7518 section 4.6",
 "For every curve, key pair, algorithm name, party information of any length and output length, the derived key equals the Concat KDF (SHA-256) over the full-width shared secret and the prescribed fixed information, and both sides derive the same key. "
 "Keys derived for different algorithm names, party information or output lengths are different, and the output has exactly the requested length.",
 ["inputs"],
 "All curves, key pairs, apu/apv values and lengths, algorithm names, key lengths from 1 to several hash blocks.",
 "One vector.",
 [J+"extra.py", J+"ecc.py"],
 [("ecdh_derive_key / concat_sha256", J+"extra.py"), ("dh_z", J+"ecc.py")],
 observe=["derived bytes"])

prop("C29", "Digests, token hashes and shared-secret key derivation are the standard ones",
 "The digest helpers, the left-half token hash used for OpenID Connect hash claims and the symmetric encryption key derived from a shared secret equal the standard SHA-2 based definitions for every text or byte input and every algorithm, with exactly the prescribed length. "
 "Text and its UTF-8 bytes give the same result, constant-time comparison answers equality exactly, and unknown algorithms never yield a silently wrong value.",
 ["inputs"],
 "All texts and byte strings (non-ASCII, empty, long), all algorithm names.",
 "One or two fixed strings.",
 [J+"jws.py", J+"jwk.py", J+"__init__.py"],
 [("left_hash", J+"jws.py"), ("sha256_digest/sha384_digest/sha512_digest", J+"jwk.py"), ("SYMKey.encryption_key", J+"jwk.py"), ("constant_time_compare / safe_str_cmp", J+"__init__.py")],
 observe=["return values"])

prop("C30", "PBKDF2 derivation matches RFC 2898 however the key stream is read",
 "For every passphrase, salt, iteration count and digest, the derived key stream equals the standard PBKDF2 output, independent of how many octets are read per call, in binary or hexadecimal form. "
 "The password hash function is deterministic given its salt, accepts its own output as salt and reproduces it for the right password and not for another one.",
 ["inputs", "histories"],
 "All passphrases, salts, iteration counts, read-size sequences.",
 "No test imports the module.",
 [J+"PBKDF2.py"],
 [("PBKDF2.read/hexread", J+"PBKDF2.py"), ("crypt", J+"PBKDF2.py")],
 state=[("__buf/__blockNum", "unread derived octets and block counter", J+"PBKDF2.py")],
 observe=["read(), hexread(), crypt()"])

prop("C31", "Operations do not disturb keys, inputs or each other",
 "No signing, verifying, encrypting, decrypting, exporting or recognising operation, successful or failing, changes the caller's payload, header dictionaries, key lists, key set or the key material and metadata of the caller's keys, or any library-wide table. "
 "Hence any sequence of operations, interleaved in any order over shared keys and fresh operation objects, gives for each operation the same outcome as performing it alone in a fresh process.",
 ["histories", "inputs"],
 "All operation histories over a shared pool of keys and inputs, including failing operations.",
 "Tests run single operations with private inputs; leaked state shows only in histories.",
 [J+"jws.py", J+"jwe.py", J+"jwk.py", J+"jwt.py"],
 [("argument handling in JWx/JWS/JWE", J+"jws.py"), ("class-level member lists", J+"jwk.py")],
 state=[("JWx._dict", "per-object header parameters", J+"jws.py"), ("Key.members/public_members", "class-level lists shared by all keys", J+"jwk.py")],
 observe=["deep snapshots before/after, outcomes of a probe operation"])

prop("C32", "The command-line tools do what their options say",
 "The command-line tools, run with any text message, key file and supported algorithm, behave as the library does: what the encryption tool writes the decryption tool turns back into the message, what the signing tool writes verifies to the message, sign-then-encrypt is undone by decrypt-and-verify, and inspection classifies compact tokens correctly. "
 "Generated symmetric keys have the requested length and id; created and exported RSA key files contain one and the same key.",
 ["inputs", "configurations"],
 "All messages, key files and algorithms accepted on the command line.",
 "No test runs any tool.",
 ["script/jwkutil.py", "script/jwenc.py", "script/jwdecrypt.py", "script/gen_symkey.py", "script/jwk_create.py", "script/jwk_export.py", "script/peek.py"],
 [("argument handling and main blocks", "script/")],
 observe=["stdout, exit status and written files"])

prop("C33", "Keys are fetched from URLs faithfully and only on success",
 "Loading a key set from a URL gives exactly the keys in the document served with a success status, following redirects, as if the document had been loaded locally. "
 "For any other status, or content that is not a key set, loading raises an error and adds no keys; a certificate URL that fails yields no key.",
 ["inputs", "fault_sequences"],
 "All key-set documents, response codes, redirect chains and malformed bodies from a loopback server.",
 "No test performs a fetch.",
 [J+"jwk.py"],
 [("KEYS.load_from_url / load_jwks_from_url", J+"jwk.py"), ("load_x509_cert", J+"jwk.py")],
 observe=["resulting key set or exception"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
