"""Alterations of dot-separated base64url tokens, as data."""
from hypothesis import strategies as st

from . import ref
from .gen import B, hexbytes

ODD_CHARS = ["+", "/", "=", " ", "\n", "\t", "\r", "\0", "%", "A", "_", "-", "9", "\u00e5", "\u0661", "\uff21", ":", "{", "~"]


def ops(nparts):
    part = st.integers(0, nparts - 1)
    pos = st.one_of(st.integers(0, 6), st.integers(-6, -1), st.integers(0, 4000))
    raw = st.one_of(
        st.fixed_dictionaries({"op": st.just("bit"), "p": part, "pos": pos, "bit": st.integers(0, 7)}),
        st.fixed_dictionaries({"op": st.just("bit"), "p": part, "pos": pos, "bit": st.integers(0, 7)}),
        st.fixed_dictionaries({"op": st.just("byte"), "p": part, "pos": pos, "v": st.integers(0, 255)}),
        st.fixed_dictionaries({"op": st.just("cut"), "p": part, "n": st.integers(1, 70), "end": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("keep"), "p": part, "n": st.integers(0, 40)}),
        st.fixed_dictionaries({"op": st.just("ext"), "p": part, "v": st.one_of(hexbytes(1, 17), st.just("00"), st.just("0000000000000000")), "end": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("set"), "p": part, "v": hexbytes(0, 40)}),
        st.fixed_dictionaries({"op": st.just("fill"), "p": part, "v": st.sampled_from([0, 255, 1])}),
        st.fixed_dictionaries({"op": st.just("swapraw"), "p": part, "q": part}),
        st.fixed_dictionaries({"op": st.just("rev"), "p": part}),
        # the same octets, cut at other places or all in one part
        st.fixed_dictionaries({"op": st.just("shift"), "p": part, "q": part, "n": st.sampled_from([1, 2, 4, 8, 12, 16, 24, 32, 9999]), "end": st.booleans()}),
        # octets in another order, or changes that cancel out in a sum or xor
        st.fixed_dictionaries({"op": st.just("xch"), "p": part, "pos": pos, "pos2": pos}),
        st.fixed_dictionaries({"op": st.just("rot"), "p": part, "n": st.one_of(st.integers(1, 20), st.sampled_from([32, 48, 66]))}),
        st.fixed_dictionaries({"op": st.just("addsub"), "p": part, "pos": pos, "pos2": pos, "v": st.integers(1, 255)}),
        st.fixed_dictionaries({"op": st.just("xor2"), "p": part, "pos": pos, "pos2": pos, "v": st.integers(1, 255)}),
    )
    text = st.one_of(
        st.fixed_dictionaries({"op": st.just("tset"), "p": part, "pos": pos, "v": st.sampled_from(ODD_CHARS)}),
        st.fixed_dictionaries({"op": st.just("tins"), "p": part, "pos": st.one_of(pos, st.just(99999)), "v": st.sampled_from(ODD_CHARS)}),
        st.fixed_dictionaries({"op": st.just("tdel"), "p": part, "pos": pos}),
        st.fixed_dictionaries({"op": st.just("tcase"), "p": part, "pos": pos}),
        st.fixed_dictionaries({"op": st.just("drop"), "p": part}),
        st.fixed_dictionaries({"op": st.just("dup"), "p": part}),
        st.fixed_dictionaries({"op": st.just("addpart"), "p": part, "v": st.sampled_from(["", "AA", "e30"])}),
        st.fixed_dictionaries({"op": st.just("empty"), "p": part}),
        st.fixed_dictionaries({"op": st.just("swap"), "p": part, "q": part}),
        st.fixed_dictionaries({"op": st.just("sub"), "p": part, "from": st.sampled_from(["-", "_"])}),
        st.fixed_dictionaries({"op": st.just("trunc"), "n": st.integers(1, 60)}),
        st.fixed_dictionaries({"op": st.just("wrap"), "a": st.sampled_from(["", " ", "\n", ".", '"', "Bearer "]), "b": st.sampled_from(["", " ", "\n", ".", '"', "="])}),
    )
    return st.lists(st.one_of(raw, raw, text), min_size=1, max_size=3)


def _raw(s):
    try:
        return ref.unb64u(s)
    except ref.RefError:
        return None


def apply(token, oplist, donor=None):
    """donor: another token; op 'graft' takes a part from it."""
    parts = token.split(".")
    tail = ("", "")
    for o in oplist:
        op = o["op"]
        p = o.get("p", 0)
        if op == "trunc":
            t = ".".join(parts)
            parts = t[:max(0, len(t) - o["n"])].split(".")
            continue
        if op == "wrap":
            tail = (o["a"], o["b"])
            continue
        if p >= len(parts):
            continue
        s = parts[p]
        if op == "graft":
            parts[p] = donor.split(".")[p]
            continue
        if op == "drop":
            del parts[p]
        elif op == "dup":
            parts.insert(p, s)
        elif op == "addpart":
            parts.insert(p + 1, o["v"])
        elif op == "empty":
            parts[p] = ""
        elif op == "swap":
            q = o["q"] % len(parts)
            parts[p], parts[q] = parts[q], parts[p]
        elif op == "sub":
            parts[p] = s.replace(o["from"], {"-": "+", "_": "/"}[o["from"]])
        elif op == "tset" and s:
            i = o["pos"] % len(s)
            parts[p] = s[:i] + o["v"] + s[i + 1:]
        elif op == "tins":
            i = min(o["pos"] % (len(s) + 1) if o["pos"] != 99999 else len(s), len(s))
            parts[p] = s[:i] + o["v"] + s[i:]
        elif op == "tdel" and s:
            i = o["pos"] % len(s)
            parts[p] = s[:i] + s[i + 1:]
        elif op == "tcase" and s:
            i = o["pos"] % len(s)
            parts[p] = s[:i] + s[i].swapcase() + s[i + 1:]
        else:
            r = _raw(s)
            if r is None:
                continue
            b = bytearray(r)
            if op == "bit" and b:
                b[o["pos"] % len(b)] ^= 1 << o["bit"]
            elif op == "byte" and b:
                b[o["pos"] % len(b)] = o["v"]
            elif op == "cut":
                b = b[:-o["n"]] if o["end"] else b[o["n"]:]
            elif op == "keep":
                b = b[:o["n"]]
            elif op == "ext":
                b = b + B(o["v"]) if o["end"] else B(o["v"]) + b
            elif op == "set":
                b = B(o["v"])
            elif op == "fill":
                b = bytes([o["v"]]) * len(b)
            elif op == "shift":
                q = o["q"] % len(parts)
                r2 = _raw(parts[q])
                if q == p or r2 is None:
                    continue
                n = min(o["n"], len(b))
                if o["end"]:
                    moved, b = bytes(b[len(b) - n:]), b[:len(b) - n]
                else:
                    moved, b = bytes(b[:n]), b[n:]
                parts[q] = ref.b64u(moved + r2 if q > p else r2 + moved)
            elif op == "swapraw":
                q = o["q"] % len(parts)
                parts[p], parts[q] = parts[q], parts[p]
                continue
            elif op in ("xch", "addsub", "xor2") and b:
                i, j = o["pos"] % len(b), o["pos2"] % len(b)
                if op == "xch":
                    b[i], b[j] = b[j], b[i]
                elif i != j and op == "xor2":
                    b[i] ^= o["v"]
                    b[j] ^= o["v"]
                elif i != j:
                    b[i] = (b[i] + o["v"]) & 255
                    b[j] = (b[j] - o["v"]) & 255
            elif op == "rot" and b:
                n = o["n"] % len(b)
                b = b[n:] + b[:n]
            elif op == "rev":
                b = bytes(reversed(b))
            parts[p] = ref.b64u(bytes(b))
    return tail[0] + ".".join(parts) + tail[1]


# what may get between the characters of a token on its way
STRAYS = ([chr(i) for i in range(128) if not (chr(i).isalnum() or chr(i) in "-_.=")] +
          ["\r\n", "\n\r", "\r\n ", "\n\t", "\n ", "=\r\n", "=\n", "%0A", "%0D%0A", "%20", "%2B", "\\n", "\\", "&#10;", "<br>", "+/", "  ", "--\n", "\n-",
           "\x80", "\x85", "\xa0", "\xad", "\xe5", "\u2028", "\u200b", "\ufeff", "\u0661", "\uff21", "\U0001d400", "\n.", ".\n", ". ", " ."])


def strayed(tok, seq):
    """The token with the sequence at every interesting place."""
    parts = tok.split(".")
    spots = {0, 1, len(tok)}
    i = 0
    for p in parts:
        spots |= {i, i + len(p)}
        if p:
            spots |= {i + 1, i + len(p) // 2, i + len(p) // 2 + 1, i + len(p) - 1, i + min(4, len(p))}
        i += len(p) + 1
    for i in sorted(spots):
        yield tok[:i] + seq + tok[i:]
    for n in (64, 76, 4):
        yield seq.join(tok[i:i + n] for i in range(0, len(tok), n))
        yield seq.join(tok[i:i + n] for i in range(0, len(tok), n)) + seq
    yield tok.replace(".", seq + ".")
    yield tok.replace(".", "." + seq)
    yield seq + tok + seq
