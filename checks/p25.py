"""P25: Monero mnemonics.

Seeds: for every 32-bit position of a 128- and a 256-bit seed every value of a boundary menu (digit boundaries of the
base-1626 coding, endianness patterns), plus values covering every word in every position of a triple: words and checksum
word equal an independent implementation's and decode to the same seed.  Phrases: every replacement of the checksum word by
every word of the list, every replacement of every other word, every transposition and every phrase length: accepted exactly
when an independent decoder accepts, with its result; the caller's list stays as it was.  Triples: all combinations at the
overflow boundary."""
import binascii
import hashlib
import itertools

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks

env.install_rng()

from monero_glue.xmr.core import mnemonic
from monero_glue.xmr.sub.seed import SeedDerivation
from monero_glue.xmr import crypto

N = 1626
WORDS_SHA = "998df55cb16d2318130c5cf7e9d4408247c8c4674935ee6e07d53f2f00ccf19b"    # the English list of Monero


def crc32(b):
    c = 0xffffffff
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ (0xedb88320 if c & 1 else 0)
    return c ^ 0xffffffff


class Words:
    """own coder over a word list"""

    def __init__(self, ws):
        self.ws = list(ws)
        self.idx = {w: i for i, w in enumerate(self.ws)}

    def enc(self, seed, checksum):
        out = []
        for i in range(0, len(seed), 4):
            x = int.from_bytes(seed[i:i + 4], "little")
            a = x % N
            b = (x // N + a) % N
            c = (x // N // N + b) % N
            out += [self.ws[a], self.ws[b], self.ws[c]]
        if checksum:
            out.append(out[crc32("".join(w[:3] for w in out).encode()) % len(out)])
        return out

    def dec(self, ws):
        """None if the phrase is invalid"""
        ws = list(ws)
        if any(w not in self.idx for w in ws) or len(ws) % 3 == 2:
            return None
        if len(ws) % 3 == 1:
            body, last = ws[:-1], ws[-1]
            if not body or body[crc32("".join(w[:3] for w in body).encode()) % len(body)][:3] != last[:3]:
                return None
            ws = body
        out = b""
        for i in range(0, len(ws), 3):
            a, b, c = (self.idx[w] for w in ws[i:i + 3])
            x = a + N * ((b - a) % N) + N * N * ((c - b) % N)
            if x >> 32:
                return None
            out += x.to_bytes(4, "little")
        return out


W = Words(mnemonic.mn_words())


def lib_dec(ws):
    keep = list(ws)
    try:
        r = binascii.unhexlify(mnemonic.mn_decode(ws))
    except Exception:
        r = None
    return r, list(ws) == keep


def cmp_dec(sub, ws, key, what):
    exp = W.dec(ws)
    got, same = lib_dec(list(ws)) if isinstance(ws, tuple) else lib_dec(ws)
    sub.add(states=1, transitions=1)
    if got != exp:
        sub.violation("dec:" + key, "%s: decodes to %s expected %s" % (what, got.hex() if got is not None else "an error", exp.hex() if exp is not None else "an error"))
    if not same:
        sub.violation("arg:" + key, "the passed list of words was modified")


V32 = sorted({0, 1, 2, 0xff, 0x100, N - 1, N, N + 1, 2 * N, N * N - 1, N * N, N * N + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 2, 0x01020304, 0x04030201, 0x00ff0000,
              0xff00ff00, 0x80000000, 0x00000080, 1624 * N * N, N * N * 1624 + N * 1625 + 1625} - {x for x in range(0)})
V32 = [v for v in V32 if v < 2 ** 32]


def one_seed(sub, seed):
    for cs in (False, True):
        exp = W.enc(seed, cs)
        got = list(mnemonic.mn_encode(seed, cs))
        sub.add(states=1, transitions=2)
        if got != exp:
            sub.violation("enc:%s:%d" % (seed.hex(), cs), "words %s expected %s" % (" ".join(got), " ".join(exp)))
        d, same = lib_dec(list(exp))
        if d != seed:
            sub.violation("round:%s:%d" % (seed.hex(), cs), "decodes to %s" % (d.hex() if d is not None else "an error"))
        if not same:
            sub.violation("arg", "the passed list of words was modified")


def base(n, tag=0):
    return [int.from_bytes(ref.keccak(b"p25%d" % tag)[4 * i:4 * i + 4], "little") for i in range(n)]


def seeds(sub, item):
    n, pos, tag = item
    for v in V32:
        s = base(n, tag)
        s[pos] = v
        one_seed(sub, b"".join(x.to_bytes(4, "little") for x in s))
    sub.case((n, pos))


def cover(sub, part):
    """every word in every position of a triple"""
    for i in part:
        for a, d1, d2 in ((i, 0, 0), (0, i, 0), (5, 0, i if i < 1624 else 0), (i, 1625, 1000), (1625, i, 3)):
            x = a + N * d1 + N * N * d2
            if x < 2 ** 32:
                one_seed(sub, x.to_bytes(4, "little") * 4)
    sub.case((part[0], "cover"))


def subst(sub, item):
    n, pos, tag = item
    seed = b"".join(x.to_bytes(4, "little") for x in base(n, tag))
    ws = W.enc(seed, True)
    for w in W.ws + ["", "Abbey", "notaword", ws[pos][:3], ws[pos] + "x"]:
        if pos == 3 * n and w not in W.idx and w[:3] == ws[pos][:3]:
            continue        # same unique prefix: both answers are fine
        t = list(ws)
        t[pos] = w
        cmp_dec(sub, t, "%d:%d:%d:%s" % (n, pos, tag, w), "word %d replaced by %r" % (pos, w))
    sub.case((n, pos, tag))


def shapes(sub, item):
    n, tag = item
    seed = b"".join(x.to_bytes(4, "little") for x in base(n, tag))
    for cs in (False, True):
        ws = W.enc(seed, cs)
        for k in range(len(ws) + 1):
            cmp_dec(sub, ws[:k], "cut:%d:%d:%d:%d" % (n, tag, cs, k), "first %d words" % k)
            cmp_dec(sub, ws + ws[:k], "ext:%d:%d:%d:%d" % (n, tag, cs, k), "%d words appended" % k)
        for i, j in itertools.combinations(range(len(ws)), 2):
            t = list(ws)
            t[i], t[j] = t[j], t[i]
            cmp_dec(sub, t, "swap:%d:%d:%d:%d:%d" % (n, tag, cs, i, j), "words %d and %d exchanged" % (i, j))
        for i in range(len(ws)):
            cmp_dec(sub, ws[:i] + ws[i + 1:], "del:%d:%d:%d:%d" % (n, tag, cs, i), "word %d missing" % i)
            cmp_dec(sub, ws[:i] + [ws[i]] + ws[i:], "dup:%d:%d:%d:%d" % (n, tag, cs, i), "word %d twice" % i)


def triples(sub, part):
    """the boundary of the largest value, checksummed and not"""
    for a in part:
        for d1 in (0, 1, 816, 1625):
            for d2 in (0, 1, 1623, 1624, 1625):
                t = [W.ws[a], W.ws[(a + d1) % N], W.ws[(a + d1 + d2) % N]]
                cmp_dec(sub, t * 4, "triple:%d:%d:%d" % (a, d1, d2), "triple %s" % t)
                x = t * 8
                x.append(x[crc32("".join(w[:3] for w in x).encode()) % len(x)])
                cmp_dec(sub, x, "triple-cs:%d:%d:%d" % (a, d1, d2), "triple %s" % t)


def deriv(sub, item):
    """a phrase as the user gives it -> keys of the wallet"""
    n, tag = item
    seed = b"".join(x.to_bytes(4, "little") for x in base(n, tag))
    if n == 8:
        seed = ref.enc_sc(int.from_bytes(seed, "little") % ref.L)
    ws = W.enc(seed, True)
    if n != 8:
        return
    a = int.from_bytes(seed, "little") % ref.L
    v = ref.hs(ref.enc_sc(a))
    forms = {"list": ws, "string": " ".join(ws), "upper": " ".join(ws).upper(), "spaces": "  " + "   ".join(ws) + "\n", "lines": "\n".join(ws),
             "nochecksum": ws[:-1], "mixed": [" ".join(ws[:5]), " ".join(ws[5:])], "bytes": " ".join(ws).encode(), "tuple": tuple(ws)}
    for name, f in forms.items():
        sub.add(states=1, transitions=1)
        try:
            d = SeedDerivation.from_monero_mnemonics(f)
            got = (ref.dec_sc(crypto.encodeint(d.spend_sec)), ref.dec_sc(crypto.encodeint(d.view_sec)), bytes(crypto.encodepoint(d.spend_pub)), bytes(crypto.encodepoint(d.view_pub)), d.electrum_words)
        except Exception as e:
            got = e
        exp = (a, v, ref.enc(ref.mulG(a)), ref.enc(ref.mulG(v)), " ".join(ws))
        if got != exp:
            sub.violation("wallet:%s:%d" % (name, tag), "wallet of a phrase given as %s: %r" % (name, got))
    for i in (0, 12, 24):
        bad = list(ws)
        bad[i] = W.ws[(W.idx[bad[i]] + 1) % N]
        if W.dec(bad) is None:
            sub.add(states=1)
            for f in (bad, " ".join(bad)):
                try:
                    SeedDerivation.from_monero_mnemonics(f)
                    sub.violation("wallet-bad:%d:%d" % (i, tag), "wallet created from a phrase with a wrong word %d" % i)
                except Exception:
                    pass


def work(sub, job):
    globals()[job[0]](sub, job[1])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    got = hashlib.sha256("\n".join(mnemonic.mn_words()).encode()).hexdigest()
    if got != WORDS_SHA:
        chk.violation("words", "the word list is not the English list of Monero")
    if mnemonic.mn_len() != N:
        chk.violation("len", "mn_len %r" % mnemonic.mn_len())
    tags = range(2 if not deep else 6)
    jobs = [("seeds", (n, p, t)) for n in (4, 8) for p in range(n) for t in tags]
    jobs += [("cover", c) for c in chunks(list(range(N)), 16)]
    jobs += [("subst", (n, p, t)) for n in (4, 8) for p in range(3 * n + 1) for t in (tags if deep or p == 3 * n else (0,))]
    jobs += [("shapes", (n, t)) for n in (1, 4, 8) for t in tags]
    jobs += [("triples", c) for c in chunks(list(range(N)) if deep else list(range(0, N, 7)) + [1, 1624, 1625], 8)]
    jobs += [("deriv", (8, t)) for t in range(4 if not deep else 40)]
    pmap(chk, work, jobs)
    chk.traces = chk.transitions
