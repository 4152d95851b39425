"""P35: symmetric sealing.

Every cipher of the code x every length 0..130 x associated data menu: the result is checked against independent implementations (ChaCha20, Poly1305 and their
AEAD written here, AES by another library), opened again, and then damaged exhaustively: every bit of nonce, ciphertext, tag, signature, associated data and
key, every truncation, extensions, swapped parts, tag moved. Authenticated variants must raise on each. Nonces come from the randomness source:
each of their bytes depends on a random draw and no two messages share one."""
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C
from monero_glue.xmr.enc import chacha_poly, chacha, aesgcm, aescbc
from checks.p31 import sc, attempt
from checks.p33 import Subst, flip

L = ref.L
M32 = 0xFFFFFFFF


# ---- reference ------------------------------------------------------------------------
def cc_block(key, ctr, nonce):
    """nonce of 12 bytes (32 bit counter) or 8 bytes (64 bit counter)"""
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574] + [int.from_bytes(key[i:i + 4], "little") for i in range(0, 32, 4)]
    if len(nonce) == 12:
        s += [ctr] + [int.from_bytes(nonce[i:i + 4], "little") for i in range(0, 12, 4)]
    else:
        s += [ctr & M32, ctr >> 32] + [int.from_bytes(nonce[i:i + 4], "little") for i in range(0, 8, 4)]
    w = list(s)

    def rot(x, n):
        return (x << n | x >> (32 - n)) & M32

    def q(a, b, c, d):
        w[a] = (w[a] + w[b]) & M32
        w[d] = rot(w[d] ^ w[a], 16)
        w[c] = (w[c] + w[d]) & M32
        w[b] = rot(w[b] ^ w[c], 12)
        w[a] = (w[a] + w[b]) & M32
        w[d] = rot(w[d] ^ w[a], 8)
        w[c] = (w[c] + w[d]) & M32
        w[b] = rot(w[b] ^ w[c], 7)
    for _ in range(10):
        for x in ((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)):
            q(*x)
    return b"".join(((a + b) & M32).to_bytes(4, "little") for a, b in zip(w, s))


def cc(key, nonce, data, ctr=0):
    out = b""
    for i in range(0, len(data), 64):
        out += bytes(a ^ b for a, b in zip(data[i:i + 64], cc_block(key, ctr + i // 64, nonce)))
    return out


def poly(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\x01", "little")) * r % (2 ** 130 - 5)
    return ((a + int.from_bytes(key[16:32], "little")) % 2 ** 128).to_bytes(16, "little")


def pad16(b):
    return b + bytes(-len(b) % 16)


def aead(key, nonce, data, ad):
    ct = cc(key, nonce, data, 1)
    t = poly(cc_block(key, 0, nonce), pad16(ad) + pad16(ct) + len(ad).to_bytes(8, "little") + len(ct).to_bytes(8, "little"))
    return ct + t


def gcm(key, nonce, data, ad):
    from cryptography.hazmat.primitives.ciphers.aead import AESGCM
    return AESGCM(key).encrypt(nonce, data, ad)


def cbc(key, iv, data):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return e.update(data) + e.finalize()


# ---- subjects --------------------------------------------------------------------------
KEYS = [bytes(range(32)), bytes(32), b"\xff" * 32]
ADS = [None, b"", b"a", bytes(range(16)), b"x" * 33]


def msg(n, k=0):
    return bytes((i * 7 + n + k * 31) % 256 for i in range(n))


class Poly:
    auth = True

    @staticmethod
    def seal(key, m, ad):
        n, c, t = chacha_poly.encrypt(key, m, ad)
        return [bytes(n), bytes(c) + bytes(t)]

    @staticmethod
    def open(key, parts, ad):
        return chacha_poly.decrypt(key, parts[0], parts[1], ad)

    @staticmethod
    def want(key, m, ad, parts):
        return aead(key, parts[0], m, ad or b"")


class Pack:
    auth = True

    @staticmethod
    def seal(key, m, ad):
        r = bytes(chacha_poly.encrypt_pack(key, m, ad))
        return [r]

    @staticmethod
    def open(key, parts, ad):
        return chacha_poly.decrypt_pack(key, parts[0], ad) if ad else chacha_poly.decrypt_pack(key, parts[0])

    @staticmethod
    def want(key, m, ad, parts):
        return parts[0][:12] + aead(key, parts[0][:12], m, ad or b"")


class Gcm:
    auth = True

    @staticmethod
    def seal(key, m, ad):
        return [bytes(x) for x in aesgcm.encrypt(key, m, ad)]

    @staticmethod
    def open(key, parts, ad):
        return aesgcm.decrypt(key, parts[0], parts[1], parts[2], ad)

    @staticmethod
    def want(key, m, ad, parts):
        return gcm(key, parts[0], m, ad or b"")


SUBJ = {"chacha_poly": Poly, "chacha_poly_pack": Pack, "aesgcm": Gcm}


def joined(parts):
    return b"".join(parts[1:]) if len(parts) > 1 else parts[0]


def lengths(sub_, item):
    _, name, ki, ad = item
    S = SUBJ[name]
    key = KEYS[ki]
    nonces = set()
    for n in list(range(0, 131)) + [255, 256, 1000, 4096]:
        tag = "%s:%d:%d:%s" % (name, ki, n, "-" if ad is None else len(ad))
        m = msg(n, ki)
        for typ in (bytes, bytearray):
            env.RNG.reset("p35" + tag + typ.__name__)
            p = attempt(lambda: S.seal(key, typ(m), ad))
            sub_.add(states=1, transitions=1)
            if isinstance(p, Exception):
                sub_.violation("seal:" + tag, "sealing fails: %r" % p)
                continue
            sub_.expect(joined(p) == S.want(key, m, ad, p), "std:" + tag, "sealed data differ from the standard cipher's")
            r = attempt(lambda: S.open(key, p, ad))
            sub_.expect(r == m, "open:" + tag, "opening gives %.100r" % (r,))
            r = attempt(lambda: S.open(key, [typ(x) for x in p], ad))
            sub_.expect(r == m, "openb:" + tag, "opening from %s gives %.100r" % (typ.__name__, r))
            nonce = p[0][:12] if len(p) == 1 else p[0]
            sub_.expect(nonce not in nonces, "nonce:" + tag, "a nonce repeats")
            nonces.add(nonce)
    sub_.case("%s:%d:%s" % (name, ki, ad))


def damage(sub_, item):
    _, name, n, adn = item
    S = SUBJ[name]
    key, ad, m = KEYS[0], ADS[adn], msg(n)
    env.RNG.reset("p35d")
    p = S.seal(key, m, ad)
    q = S.seal(key, msg(n, 5), ad)
    tag = "%s:%d:%d" % (name, n, adn)

    def refused(k, parts, a, lab):
        r = attempt(lambda: S.open(k, parts, a))
        sub_.add(states=1, transitions=1)
        sub_.expect(isinstance(r, Exception), "%s:%s" % (lab, tag), "opened to %.80r after: %s" % (r, lab))
    for i, x in enumerate(p):
        for b in range(8 * len(x)):
            refused(key, p[:i] + [x[:b // 8] + bytes([x[b // 8] ^ 1 << b % 8]) + x[b // 8 + 1:]] + p[i + 1:], ad, "bit:%d:%d" % (i, b))
        for k in range(len(x)):
            refused(key, p[:i] + [x[:k]] + p[i + 1:], ad, "cut:%d:%d" % (i, k))
            refused(key, p[:i] + [x[len(x) - k:]] + p[i + 1:], ad, "cutfront:%d:%d" % (i, k))
        for e in (b"\x00", b"\x01", bytes(16), x[-16:]):
            if e:
                refused(key, p[:i] + [x + e] + p[i + 1:], ad, "ext:%d:%s" % (i, e.hex()))
                refused(key, p[:i] + [e + x] + p[i + 1:], ad, "pre:%d:%s" % (i, e.hex()))
        if q[i] != x:
            refused(key, p[:i] + [q[i]] + p[i + 1:], ad, "mix:%d" % i) if len(p) > 1 else None
    for b in range(256):
        refused(key[:b // 8] + bytes([key[b // 8] ^ 1 << b % 8]) + key[b // 8 + 1:], p, ad, "key:%d" % b)
    for a in ADS + [(ad or b"") + b"\x00", b"\x00" * 16]:
        if (a or b"") != (ad or b""):
            refused(key, p, a, "ad:%r" % a)
    for b in range(8 * len(ad or b"")):
        refused(key, p, ad[:b // 8] + bytes([ad[b // 8] ^ 1 << b % 8]) + ad[b // 8 + 1:], "adbit:%d" % b)
    # associated data and ciphertext exchanged
    if ad and n == len(ad):
        refused(key, p, m, "adswap")
    sub_.case("damage" + tag)


def nonce(sub_, item):
    """every nonce byte is random"""
    _, name = item
    fns = {"chacha_poly": (lambda: bytes(chacha_poly.encrypt(KEYS[0], b"abc")[0]), 12), "chacha_poly_pack": (lambda: bytes(chacha_poly.encrypt_pack(KEYS[0], b"abc"))[:12], 12),
           "aesgcm": (lambda: bytes(aesgcm.encrypt(KEYS[0], b"abc")[0]), 12), "chacha": (lambda: bytes(chacha.encrypt(KEYS[0], b"abc"))[:8], 8)}
    fn, least = fns[name]

    def go(sub=None):
        with Subst("p35n") as s:
            s.sub = sub or {}
            r = fn()
            return r, list(s.log)
    base, log = go()
    sub_.expect(len(base) >= least, "nlen:" + name, "nonce of %d bytes" % len(base))
    ch = set()
    for k, n in enumerate(log):
        for i in range(n):
            r, _ = go({k: flip(i)})
            sub_.add(states=1, transitions=1)
            ch |= {j for j in range(len(base)) if r[j] != base[j]}
    sub_.expect(ch == set(range(len(base))), "nrand:" + name, "nonce bytes %s do not depend on randomness" % sorted(set(range(len(base))) - ch))
    with Subst("p35nn"):
        many = [fn() for _ in range(64)]
    sub_.expect(len(set(many)) == 64, "nuniq:" + name, "nonces repeat")
    sub_.case("nonce" + name)


def plain(sub_, item):
    """unauthenticated ciphers"""
    _, ki = item
    key = KEYS[ki]
    for n in list(range(0, 131)) + [1000]:
        m = msg(n, ki)
        env.RNG.reset("p35c%d" % n)
        r = attempt(lambda: bytes(chacha.encrypt(key, m)))
        sub_.expect(not isinstance(r, Exception) and r[8:] == cc(key, r[:8], m), "chacha:%d:%d" % (ki, n), "not the ChaCha20 of the plaintext: %.100r" % (r,))
        sub_.expect(attempt(lambda: chacha.decrypt(key, r)) == m, "chachad:%d:%d" % (ki, n), "chacha does not decrypt")
        sub_.add(states=1, transitions=1)
    for n in range(0, 145, 1):
        m = msg(n, ki)
        for iv in (bytes(16), bytes(range(16)), bytearray(b"\xff" * 16), None):
            for kl in (16, 24, 32):
                k = key[:kl]
                r = attempt(lambda: aescbc.encrypt(k, m, iv))
                tag = "cbc:%d:%d:%d:%s" % (ki, n, kl, "-" if iv is None else bytes(iv).hex()[:4])
                sub_.add(states=1, transitions=1)
                if n % 16:
                    sub_.expect(isinstance(r, Exception), tag, "a partial block is encrypted to %r" % (r,))
                    continue
                if isinstance(r, Exception):
                    sub_.violation(tag, "encryption fails: %r" % r)
                    continue
                if iv is not None:
                    sub_.expect(bytes(r) == cbc(k, bytes(iv), m), tag + ":std", "not the AES-CBC encryption")
                sub_.expect(attempt(lambda: aescbc.decrypt(k, r, iv)) == m, tag + ":dec", "does not decrypt")
    sub_.case("plain%d" % ki)


PRIV = [1, 2 ** 251 + 5, L - 1]


def xmr(sub_, item):
    """Monero's sealed files: ChaCha20 + signature of the ciphertext"""
    _, part, parts, deep = item
    priv = PRIV[part % 3]
    real = chacha.generate_key
    memo = {}

    def cached(data):            # the slow hash is deterministic; it is checked once uncached
        if bytes(data) not in memo:
            memo[bytes(data)] = real(data)
        return memo[bytes(data)]
    chacha.generate_key = cached
    try:
        for n in ([0, 1, 31, 32, 33, 63, 64, 65, 100] if not deep else range(0, 131)):
            m = msg(n)
            env.RNG.reset("p35x%d:%d" % (n, part))
            r = attempt(lambda: bytes(chacha.encrypt_xmr(sc(priv), m)))
            tag = "xmr:%d:%d" % (part % 3, n)
            sub_.add(states=1, transitions=1)
            if isinstance(r, Exception):
                sub_.violation(tag, "sealing fails: %r" % r)
                continue
            k = real(ref.enc_sc(priv))
            ct, c, s = r[:-64], ref.dec_sc(r[-64:-32]), ref.dec_sc(r[-32:])
            P = ref.mulG(priv)
            R = ref.add(ref.mul(P, c), ref.mulG(s))
            sub_.expect(ct[8:] == cc(k, ct[:8], m) and c == ref.hs(ref.keccak(ct), ref.enc(P), ref.enc(R)), tag + ":std", "not Monero's sealing")
            sub_.expect(attempt(lambda: chacha.decrypt_xmr(sc(priv), r)) == m, tag + ":open", "does not open")
            u = attempt(lambda: bytes(chacha.encrypt_xmr(sc(priv), m, authenticated=False)))
            sub_.expect(not isinstance(u, Exception) and u[8:] == cc(k, u[:8], m) and attempt(lambda: chacha.decrypt_xmr(sc(priv), u, authenticated=False)) == m,
                        tag + ":un", "unauthenticated variant does not open")
            if n not in (0, 33) and not (deep and n < 40):
                continue

            def refused(b, lab, key=priv):
                x = attempt(lambda: chacha.decrypt_xmr(sc(key), b))
                sub_.add(states=1, transitions=1)
                sub_.expect(isinstance(x, Exception), "%s:%s" % (tag, lab), "opened to %.80r after: %s" % (x, lab))
            jobs = [(b, "bit:%d" % b) for b in range(8 * len(r))]
            for b, lab in jobs[part // 3::parts // 3] if parts >= 3 else jobs:
                refused(r[:b // 8] + bytes([r[b // 8] ^ 1 << b % 8]) + r[b // 8 + 1:], lab)
            if part // 3 == 0:
                for k_ in range(len(r)):
                    refused(r[:k_], "cut:%d" % k_)
                    if k_:
                        refused(r[k_:], "cutfront:%d" % k_)
                for e in (b"\x00", bytes(32), bytes(64)):
                    refused(r + e, "ext%d" % len(e))
                    refused(e + r, "pre%d" % len(e))
                for lab, c2, s2 in (("c+L", c + L, s), ("s+L", c, s + L), ("c+2L", c + 2 * L, s), ("s+8L", c, s + 8 * L), ("-s", c, -s % L), ("0", 0, 0), ("c0", 0, s), ("s0", c, 0), ("swap", s, c)):
                    refused(ct + c2.to_bytes(32, "little") + s2.to_bytes(32, "little"), "sig:" + lab)
                for k2 in (1, 2, priv + 1, priv - 1, priv ^ 2 ** 100, L - priv):
                    if k2 % L not in (priv % L, 0):
                        refused(r, "key:%x" % k2, k2 % L)
    finally:
        chacha.generate_key = real
    sub_.case("xmr%d" % part)


def run(chk):
    chk.rule = "open(seal(m)) == m; seal equals the standard cipher; every damaged nonce/ciphertext/tag/signature/key/associated data is refused"
    chk.assumptions = ["CryptoNight key derivation library taken as given", "messages up to 130 bytes plus a few longer ones"]
    deep = chk.thorough
    items = []
    if env.BACKEND == "1":
        items += [(lengths, n, k, a) for n in SUBJ for k in range(3 if deep else 2) for a in ADS]
        items += [(damage, nm, n, a) for nm in SUBJ for n in ((0, 1, 15, 16, 17, 33, 64, 65) if deep else (0, 1, 16, 33)) for a in range(len(ADS))]
        items += [(nonce, n) for n in ("chacha_poly", "chacha_poly_pack", "aesgcm", "chacha")]
        items += [(plain, k) for k in range(3)]
        items += [(xmr, i, 24, deep) for i in range(24)]
    else:
        items += [(xmr, 3 * i + i % 3, 72, False) for i in range(24)]
    pmap(chk, lambda s, it: it[0](s, it), items, limit=600)
    both.other_backend(chk, "P35", "quick")
