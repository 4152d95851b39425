"""P20: base58 coders.

The Monero coder works block by block (8 bytes <-> 11 characters, shorter last block), so its behaviours are covered by
(1) all inputs of the small blocks exhaustively (every 1 and 2 byte block, every 1..3 character block over all 256 byte
values resp. the alphabet), (2) every boundary neighbourhood of the larger block sizes (around 256^k: last canonical, first
overflowing, every value within +-130, all single-character substitutions by every byte value), (3) every composition of up
to 3 blocks over a boundary alphabet of blocks with every last-block size.  Oracle: mc/ref.py (accept iff canonical).
Checksummed forms: every tag, every payload length, every single-character change, adjacent swap, truncation and
extension.  Standard base58: every string / byte string up to length 3 resp. 2 and boundary compositions."""
import hashlib
import itertools

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks

env.install_rng()

from monero_glue.misc import b58, b58_mnr
from monero_glue.xmr import crypto

AL = ref.B58
ALB = AL.encode()


def dec_m(s):
    try:
        r = b58_mnr.b58decode(data_bin=bytes(s))
    except Exception:
        return None
    return bytes(r) if isinstance(r, (bytes, bytearray)) else ("bad-result", r)


def rdec(s):
    try:
        return ref.b58_dec(bytes(s).decode("ascii"))
    except UnicodeDecodeError:
        return None


def chk_dec(sub_, s, where):
    got, exp = dec_m(s), rdec(s)
    sub_.add(states=1, transitions=1)
    if got != exp:
        sub_.violation("decode:%s:%s" % (where, bytes(s)[:24].hex()), "b58decode(%r) = %r, expected %r" % (bytes(s), got, exp))
    return got == exp


def chk_enc(sub_, d, where):
    exp = ref.b58_enc(d).encode()
    try:
        got = b58_mnr.b58encode(data_bin=d)
        got2 = b58_mnr.b58encode(d.hex())
    except Exception as e:
        sub_.violation("encode:%s:%s" % (where, d[:12].hex()), "b58encode(%s) raised %r" % (d.hex(), e))
        return
    sub_.add(states=1, transitions=2)
    if bytes(got) != exp or bytes(got2) != exp:
        sub_.violation("encode:%s:%s" % (where, d[:12].hex()), "b58encode(%s) = %r / %r, expected %r" % (d.hex(), got, got2, exp))
        return
    if dec_m(got) != d:
        sub_.violation("roundtrip:%s:%s" % (where, d[:12].hex()), "decode(encode(%s)) = %r" % (d.hex(), dec_m(got)))
    try:
        hx = b58_mnr.b58decode(data_hex=got.decode())
        ok = bytes(hx) == d
    except Exception:
        ok = False
    if not ok:
        sub_.violation("roundtrip-str:%s:%s" % (where, d[:12].hex()), "decode of the text form differs for %s" % d.hex())


def tochars(n, ln):
    s = ""
    for _ in range(ln):
        n, r = divmod(n, 58)
        s = AL[r] + s
    return s.encode()


def blocks_exhaustive(sub_, item):
    kind, part = item
    if kind == "enc":
        for a in part:
            chk_enc(sub_, bytes([a]), "1")
            for b in range(256):
                chk_enc(sub_, bytes([a, b]), "2")
    elif kind == "dec2":       # every 1 and 2 character string over all byte values
        for a in part:
            chk_dec(sub_, bytes([a]), "1")
            for b in range(256):
                chk_dec(sub_, bytes([a, b]), "2")
    elif kind == "dec3":
        for a in part:
            for b in ALB:
                for c in ALB:
                    chk_dec(sub_, bytes([ALB[a], b, c]), "3")


def boundary(sub_, size):
    ln = ref.B58_SIZES[size]
    top, M = 58 ** ln, 256 ** size
    w = 130
    vals = set(range(0, w)) | set(range(M - w, M + w)) | set(range(top - w, top))
    vals |= {2 ** k + d for k in range(8 * size + 2) for d in (-1, 0, 1)}
    vals |= {58 ** k + d for k in range(ln + 1) for d in (-1, 0, 1)}
    for n in sorted(v for v in vals if 0 <= v < top):
        s = tochars(n, ln)
        chk_dec(sub_, s, "b%d" % size)
        chk_dec(sub_, b"1" * 11 + s, "fb%d" % size)
        if n < M:
            chk_enc(sub_, n.to_bytes(size, "big"), "b%d" % size)
    for base in (0, M - 1, M // 3):
        s = bytearray(tochars(base, ln))
        for i in range(ln):
            for v in range(256):
                t = bytearray(s)
                t[i] = v
                chk_dec(sub_, t, "sub%d" % size)


def blk_alpha(size):
    return [bytes(size), b"\xff" * size, bytes([0] * (size - 1) + [1]), ref.keccak(b"p20%d" % size)[:size]]


def compose(sub_, item):
    nfull, last, deep = item
    alpha = [blk_alpha(8)] * nfull + ([blk_alpha(last)] if last else [])
    for bl in itertools.product(*alpha):
        d = b"".join(bl)
        chk_enc(sub_, d, "c")
        sub_.case((len(d), d[:2]))
    # bad block lengths and overflow in every block position
    d = b"\x55" * (8 * nfull + last)
    s = ref.b58_enc(d).encode()
    for extra in range(0, 12):
        chk_dec(sub_, s + b"1" * extra, "ext")
        chk_dec(sub_, s[:max(0, len(s) - extra)], "cut")
    pos = 0
    for i in range(nfull):
        for n in (2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 58 ** 11 - 1):
            t = bytearray(s)
            t[11 * i:11 * i + 11] = tochars(n, 11)
            chk_dec(sub_, t, "ovf")


def addr_forms(sub_, part):
    for tag in part:
        for ln in list(range(0, 75)):
            p = ref.keccak(b"pl%d" % ln)
            p = (p * 3)[:ln]
            exp = ref.b58_enc(bytes([tag]) + p + ref.keccak(bytes([tag]) + p)[:4]).encode()
            try:
                got = crypto.xmr_base58_addr_encode_check(tag, p)
                d, v = crypto.xmr_base58_addr_decode_check(got)
            except Exception as e:
                sub_.violation("check-enc:%d:%d" % (tag, ln), "tag %d payload of %d bytes: %r" % (tag, ln, e))
                continue
            sub_.add(states=1, transitions=2)
            if bytes(got) != exp or bytes(d) != p or v != tag:
                sub_.violation("check-enc:%d:%d" % (tag, ln), "tag %d payload of %d bytes: %r, decoded tag %r" % (tag, ln, got, v))


def accepted(s):
    try:
        return crypto.xmr_base58_addr_decode_check(bytes(s))
    except Exception:
        return None


def altered(sub_, item):
    tag, ln = item
    p = (ref.keccak(b"alt%d" % ln) * 3)[:ln]
    s = bytes(crypto.xmr_base58_addr_encode_check(tag, p))
    cases = []
    for i in range(len(s)):
        for c in ALB:
            if c != s[i]:
                cases.append(s[:i] + bytes([c]) + s[i + 1:])
        cases.append(s[:i] + s[i + 1:])
        cases.append(s[:i])
        cases.append(s[i:] if i else s + b"1")
        if i + 1 < len(s) and s[i] != s[i + 1]:
            cases.append(s[:i] + bytes([s[i + 1], s[i]]) + s[i + 2:])
    for k in range(1, 12):
        cases.append(s + b"1" * k)
    for t in cases:
        sub_.add(states=1, transitions=1)
        e = ref.b58_dec(t.decode())
        ok = e is not None and len(e) >= 5 and ref.keccak(e[:-4])[:4] == e[-4:]
        g = accepted(t)
        if (g is not None) != ok:
            sub_.violation("check-dec:%d:%s" % (ln, t[:16].hex()), "%r: accepted %r, valid %s" % (t, g, ok))
    # every bit of the checksum and of the tag
    raw = bytes([tag]) + p + ref.keccak(bytes([tag]) + p)[:4]
    for bit in range(8 * len(raw)):
        r = bytearray(raw)
        r[bit // 8] ^= 1 << (bit % 8)
        sub_.add(states=1, transitions=1)
        if accepted(ref.b58_enc(bytes(r)).encode()) is not None:
            sub_.violation("check-bit:%d:%d" % (ln, bit), "address accepted with bit %d flipped" % bit)


def r58_enc(b):
    n = int.from_bytes(b, "big")
    s = b""
    while n:
        n, r = divmod(n, 58)
        s = ALB[r:r + 1] + s
    return b"1" * (len(b) - len(b.lstrip(b"\0"))) + s


def r58_dec(s):
    if any(c not in ALB for c in s):
        return None
    n = 0
    for c in s:
        n = n * 58 + ALB.index(c)
    pad = len(s) - len(s.lstrip(b"1"))
    return bytes(pad) + (n.to_bytes((n.bit_length() + 7) // 8, "big") if n else b"")


def std(sub_, item):
    kind, part = item

    def d(s):
        sub_.add(states=1, transitions=1)
        try:
            g = bytes(b58.b58decode(bytes(s)))
        except Exception:
            g = None
        if g != r58_dec(bytes(s)):
            sub_.violation("std-decode:%s" % bytes(s).hex()[:40], "b58decode(%r) = %r expected %r" % (bytes(s), g, r58_dec(bytes(s))))

    def e(b):
        sub_.add(states=1, transitions=2)
        try:
            g = bytes(b58.b58encode(b))
            back = bytes(b58.b58decode(g))
            back2 = bytes(b58.b58decode(g.decode()))
        except Exception as x:
            sub_.violation("std-encode:%s" % b.hex()[:40], "b58encode(%s): %r" % (b.hex(), x))
            return
        if g != r58_enc(b) or back != b or back2 != b:
            sub_.violation("std-encode:%s" % b.hex()[:40], "b58encode(%s) = %r expected %r, back %r" % (b.hex(), g, r58_enc(b), back))

    if kind == "two":
        for a in part:
            e(bytes([a]))
            d(bytes([a]))
            for b in range(256):
                e(bytes([a, b]))
                d(bytes([a, b]))
    elif kind == "three":
        for a in part:
            for b in ALB:
                for c in ALB:
                    d(bytes([ALB[a], b, c]))
    else:
        e(b"")
        d(b"")
        for z in range(6):
            for ln in range(0, 41):
                for body in (b"\xff" * ln, b"\x01" + bytes(ln - 1) if ln else b"", (ref.keccak(b"s%d" % ln) * 2)[:ln]):
                    v = bytes(z) + body
                    e(v)
                    chk = r58_enc(v + hashlib.sha256(hashlib.sha256(v).digest()).digest()[:4])
                    try:
                        g = bytes(b58.b58encode_check(v))
                        ok = g == chk and bytes(b58.b58decode_check(g)) == v
                    except Exception:
                        ok = False
                    sub_.add(states=1, transitions=2)
                    if not ok:
                        sub_.violation("std-check:%s" % v.hex()[:40], "base58check of %s: %r expected %r" % (v.hex(), g, chk))
        v = ref.keccak(b"b58c")[:21]
        g = bytes(b58.b58encode_check(v))
        bad = [g[:i] + bytes([c]) + g[i + 1:] for i in range(len(g)) for c in ALB if c != g[i]]
        bad += [g[:i] for i in range(len(g))] + [g[i:] for i in range(1, len(g))] + [b"1" + g, g + b"1", b""]
        bad += [g[:i] + bytes([c]) + g[i + 1:] for i in range(len(g)) for c in b"0OIl \n+/\x00\xff"]
        for t in bad:
            sub_.add(states=1, transitions=1)
            try:
                b58.b58decode_check(t)
            except Exception:
                continue
            sub_.violation("std-check-accept:%s" % t.hex()[:40], "base58check accepted %r" % t)


def run(chk):
    deep = chk.thorough
    chk.rule = __doc__
    chk.assumptions = ["errors are any raised exception; no assertion on the exception type"]
    items = [("enc", p) for p in chunks(range(256), 16)] + [("dec2", p) for p in chunks(range(256), 16)]
    items += [("dec3", p) for p in chunks(range(58), 16)]
    pmap(chk, blocks_exhaustive, items)
    pmap(chk, boundary, range(1, 9))
    pmap(chk, compose, [(f, l, deep) for f in range(0, 5 if deep else 4) for l in range(0, 8)])
    pmap(chk, addr_forms, list(chunks(range(0, 256), 16)))
    lens = [0, 3, 64, 72] + (list(range(1, 73)) if deep else [])
    pmap(chk, altered, [(18, l) for l in lens] + [(63, 64), (0, 64), (127, 72)])
    pmap(chk, std, [("two", p) for p in chunks(range(256), 16)] + [("three", p) for p in chunks(range(58), 16)] + [("long", None)])
    chk.traces = chk.transitions
    chk.sample("2^64 block: %r" % tochars(2 ** 64, 11))
    chk.sample("composition of full and partial blocks, boundary alphabet")
