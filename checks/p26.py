"""P26: wallet derivation.

An independent BIP-32 / SLIP-0010 / BIP-39 (own curve arithmetic, hashlib only) decides: all paths over a menu of boundary
components (plain and hardened, both notations) up to a depth, from master seeds of all standard lengths and from seeds
found by enumeration whose keys or chain codes begin with zero bytes; every derivation asked in every calling form and in
both orders on the same wallet object (history: answers must not depend on what was asked before); public derivation; the
extended-key serialisation and its parsing; entropies and phrases; words and passphrases
of several scripts in composed and decomposed form; Monero seeds at scalar boundaries; creds of the result."""
import binascii
import hashlib
import hmac
import itertools
import unicodedata

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks

env.install_rng()

from monero_glue.misc.bip import bip32, bip39, bip39_deriv
from monero_glue.xmr.sub.seed import SeedDerivation
from monero_glue.xmr import crypto
from checks.p25 import W as MW

P = 2 ** 256 - 2 ** 32 - 977
Q = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)
H = 2 ** 31
BIP39_SHA = "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda"


def padd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P)
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P)
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P


def pmul(k):
    r, p = None, G
    while k:
        if k & 1:
            r = padd(r, p)
        p = padd(p, p)
        k >>= 1
    return r


def sec(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")


def h512(k, m):
    return hmac.new(k, m, hashlib.sha512).digest()


def b58c(b):
    d = b + hashlib.sha256(hashlib.sha256(b).digest()).digest()[:4]
    n = int.from_bytes(d, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = ref.B58[r] + s
    return "1" * (len(d) - len(d.lstrip(b"\0"))) + s


class Node:
    def __init__(self, k, c, depth=0, fp=bytes(4), num=0, ed=False, pub=None):
        self.k, self.c, self.depth, self.fp, self.num, self.ed = k, c, depth, fp, num, ed
        self._pub = pub

    @property
    def pub(self):
        if self._pub is None:
            self._pub = pmul(int.from_bytes(self.k, "big"))
        return self._pub

    @classmethod
    def master(cls, seed, ed=False):
        i = h512(b"ed25519 seed" if ed else b"Bitcoin seed", seed)
        return cls(i[:32], i[32:], ed=ed)

    def child(self, n):
        """n with the hardened bit"""
        if n >= H:
            i = h512(self.c, b"\0" + self.k + n.to_bytes(4, "big"))
        else:
            i = h512(self.c, sec(self.pub) + n.to_bytes(4, "big"))
        if self.ed:
            return Node(i[:32], i[32:], self.depth + 1, bytes(4), n, True)
        k = ((int.from_bytes(i[:32], "big") + int.from_bytes(self.k, "big")) % Q).to_bytes(32, "big")
        return Node(k, i[32:], self.depth + 1, hashlib.new("ripemd160", hashlib.sha256(sec(self.pub)).digest()).digest()[:4], n)

    def path(self, ns):
        r = self
        for n in ns:
            r = r.child(n)
        return r

    def ser(self, version, private):
        return version + bytes([self.depth]) + self.fp + self.num.to_bytes(4, "big") + self.c + (b"\0" + self.k if private else sec(self.pub))


PRV, PUB = bytes.fromhex("0488ade4"), bytes.fromhex("0488b21e")
COMP = [0, 1, H - 1, H, H + 1, 2 * H - 1, H + 44, 127]


def zeros_seeds():
    """seeds whose master key / chain code / first children begin with a zero byte"""
    out = []
    want = {"k": 0, "c": 0, "hk": 0, "hc": 0}
    for i in range(4000):
        s = ref.keccak(b"p26%d" % i)
        m = Node.master(s)
        if m.k[0] == 0 and not want["k"]:
            want["k"] = 1
            out.append(s)
        elif m.c[0] == 0 and not want["c"]:
            want["c"] = 1
            out.append(s)
        elif not want["hk"] or not want["hc"]:
            h = m.child(H)
            if h.k[0] == 0 and not want["hk"]:
                want["hk"] = 1
                out.append(s)
            elif h.c[0] == 0 and not want["hc"]:
                want["hc"] = 1
                out.append(s)
        if all(want.values()):
            break
    return out


def pstr(ns, mark):
    return "m" + "".join("/%d%s" % (n & (H - 1), mark if n >= H else "") for n in ns)


def nodecmp(sub, key, w, n, what):
    got = (binascii.unhexlify(w.private_key.get_key()), binascii.unhexlify(w.chain_code), int(w.depth), binascii.unhexlify(w.parent_fingerprint[2:]), int(w.child_number) if not isinstance(w.child_number, bytes) else w.child_number)
    exp = (n.k, n.c, n.depth, n.fp, n.num)
    if got != exp:
        sub.violation("node:" + key, "%s: %r expected %r" % (what, got, exp))
        return False
    return True


def secp(sub, item):
    seed, paths = item
    m = Node.master(seed)
    w = bip32.Wallet.from_master_secret(seed)
    key0 = seed.hex()[:12] + "/%d" % len(seed)
    nodecmp(sub, key0, w, m, "master of a %d-byte seed" % len(seed))
    for ns in paths:
        n = m.path(ns)
        for mark in "'p":
            p = pstr(ns, mark)
            key = key0 + ":" + p
            c = w.get_child_for_path(p)
            sub.add(states=1, transitions=len(ns))
            if not nodecmp(sub, key, c, n, p):
                continue
            # 'monero' network of this library uses the bitcoin versions for extended keys
            if binascii.unhexlify(c.serialize(True))[4:] != n.ser(PRV, True)[4:] or binascii.unhexlify(c.serialize(False))[4:] != n.ser(PUB, False)[4:]:
                sub.violation("ser:" + key, "serialised key differs")
            pc = w.get_child_for_path("M" + p[1:])
            if pc.private_key is not None or binascii.unhexlify(pc.serialize(False))[4:] != n.ser(PUB, False)[4:]:
                sub.violation("pub:" + key, "public-only child differs")
            pc = w.get_child_for_path(p + ".pub")
            if pc.private_key is not None or binascii.unhexlify(pc.serialize(False))[4:] != n.ser(PUB, False)[4:]:
                sub.violation("dotpub:" + key, "public-only child differs")
        for priv, v in ((True, PRV), (False, PUB)):
            c = w.get_child_for_path(pstr(ns, "'"))
            b = c.serialize_b58(priv)
            net = c.network
            ver = (net.EXT_SECRET_KEY if priv else net.EXT_PUBLIC_KEY).to_bytes(4, "big")
            if b != b58c(n.ser(ver, priv)):
                sub.violation("b58:" + key, "base58 form %s" % b)
            for form in (b, c.serialize(priv), binascii.unhexlify(c.serialize(priv))):
                back = bip32.Wallet.deserialize(form, network=net)
                sub.add(transitions=1)
                if bytes(back.serialize(priv)) != bytes(c.serialize(priv)) or (back.private_key is None) == priv:
                    sub.violation("parse:" + key, "parsing the serialised key gives another")
        # public derivation
        if all(x < H for x in ns) and ns:
            c = w.public_copy()
            for x in ns:
                c = c.get_child(x, False)
            if binascii.unhexlify(c.serialize(False))[4:] != n.ser(PUB, False)[4:] or c.private_key is not None:
                sub.violation("pubderiv:" + key0 + pstr(ns, "'"), "public derivation differs from the private one")
    sub.case(key0)


FORMS = {
    "pos": lambda w, n: w.get_child(n & (H - 1), n >= H),
    "kw": lambda w, n: w.get_child(n & (H - 1), is_prime=n >= H),
    "kwall": lambda w, n: w.get_child(child_number=n & (H - 1), is_prime=n >= H, as_private=True),
    "kworder": lambda w, n: w.get_child(as_private=True, is_prime=n >= H, child_number=n & (H - 1)),
    "neg": lambda w, n: w.get_child(-(n & (H - 1))) if n > H else (w.get_child(n & (H - 1), n >= H) if n == H else w.get_child(n)),
    "pubonly": lambda w, n: w.get_child(n & (H - 1), is_prime=n >= H, as_private=False),
    "path": lambda w, n: w.get_child_for_path(pstr([n], "'")),
}


def history(sub, item):
    """all pairs of requests in every form: the second answer does not depend on the first"""
    seed, f1 = item
    m = Node.master(seed)
    exp = {n: m.child(n) for n in (0, 1, H, H + 1)}
    for n1 in exp:
        for f2 in FORMS:
            for n2 in exp:
                w = bip32.Wallet.from_master_secret(seed)
                FORMS[f1](w, n1)
                c = FORMS[f2](w, n2)
                sub.add(states=1, transitions=2)
                key = "history:%s:%d:%s:%d" % (f1, n1, f2, n2)
                n = exp[n2]
                if binascii.unhexlify(c.serialize(False))[4:] != n.ser(PUB, False)[4:]:
                    sub.violation(key, "after %s(%d), %s(%d) gives another child" % (f1, n1, f2, n2))
                elif (c.private_key is None) != (f2 == "pubonly") or c.private_key is not None and binascii.unhexlify(c.private_key.get_key()) != n.k:
                    sub.violation(key, "after %s(%d), %s(%d): private key %r" % (f1, n1, f2, n2, c.private_key))
    sub.case(("history", f1))


def monero_keys(seed):
    a = int.from_bytes(seed, "little") % ref.L
    v = ref.hs(ref.enc_sc(a))
    return a, v, ref.enc(ref.mulG(a)), ref.enc(ref.mulG(v))


def keys_of(d):
    return (ref.dec_sc(crypto.encodeint(d.spend_sec)), ref.dec_sc(crypto.encodeint(d.view_sec)), bytes(crypto.encodepoint(d.spend_pub)), bytes(crypto.encodepoint(d.view_pub)))


def seedcmp(sub, key, d, pre, master):
    if pre is not None and bytes(d.pre_hash) != pre:
        sub.violation("pre:" + key, "derived key %s expected %s" % (bytes(d.pre_hash).hex(), pre.hex()))
    if bytes(d.monero_master) != master:
        sub.violation("master:" + key, "master seed %s expected %s" % (bytes(d.monero_master).hex(), master.hex()))
        return
    if keys_of(d) != monero_keys(master):
        sub.violation("keys:" + key, "wallet keys differ from the derivation")
    if d.electrum_words != " ".join(MW.enc(master, True)):
        sub.violation("words:" + key, "words %s" % d.electrum_words)
    c = d.creds()
    got = (ref.dec_sc(crypto.encodeint(c.spend_key_private)), ref.dec_sc(crypto.encodeint(c.view_key_private)), bytes(crypto.encodepoint(c.spend_key_public)), bytes(crypto.encodepoint(c.view_key_public)))
    if got != monero_keys(master):
        sub.violation("creds:" + key, "credentials differ from the derived keys")


def expected(seed, ns, ed):
    n = Node.master(seed, ed).path(ns)
    return n.k, (ref.enc_sc(int.from_bytes(n.k, "little") % ref.L) if ed else ref.keccak(n.k))


DEF = [H + 44, H + 128, H, 0, 0]


def masters(sub, item):
    seed, paths = item
    for ed in (False, True):
        for ns in [None] + paths:
            if ed and ns is not None and any(n < H for n in ns):
                sub.add(states=1)
                try:
                    SeedDerivation.from_master_seed(seed, path=pstr(ns, "'"), slip0010=True)
                    sub.violation("ed-soft:%s" % pstr(ns, "'"), "non-hardened ed25519 path %s derived" % pstr(ns, "'"))
                except Exception:
                    pass
                continue
            real = ns if ns is not None else (DEF[:3] if ed else DEF)
            pre, mm = expected(seed, real, ed)
            key = "%s:%s:%d" % (seed.hex()[:12], pstr(ns, "'") if ns is not None else "default", ed)
            try:
                d = SeedDerivation.from_master_seed(seed, slip0010=ed) if ns is None else SeedDerivation.from_master_seed(seed, path=pstr(ns, "'"), slip0010=ed)
            except Exception as e:
                sub.violation("seed:" + key, "derivation fails: %r" % e)
                continue
            sub.add(states=1, transitions=1)
            seedcmp(sub, key, d, pre, mm)
    sub.case(seed.hex()[:16])


def badpaths(sub):
    seed = bytes(range(16))
    w = bip32.Wallet.from_master_secret(seed)
    for p in ["", "m/", "m//1", "m/x", "m/1/x'", "m/%d" % H, "m/%d'" % H, "m/%d" % (2 ** 32), "m/-1'", "m/-%d" % H, "m/1.5", "m/1/", "m/'", "m/p", "m/1h", "m/0x10", "/1", "m 1", "n/1"]:
        sub.add(states=1, transitions=1)
        try:
            c = w.get_child_for_path(p)
            sub.violation("badpath:" + p, "malformed path %r accepted (%r)" % (p, c.child_number))
        except Exception:
            pass


def phrase_words(ent):
    bits = bin(int.from_bytes(ent, "big"))[2:].zfill(len(ent) * 8) + bin(hashlib.sha256(ent).digest()[0])[2:].zfill(8)[:len(ent) * 8 // 32]
    return [bip39.english_words[int(bits[i:i + 11], 2)] for i in range(0, len(bits), 11)]


def entropies(deep):
    out = []
    for n in (16, 20, 24, 28, 32):
        out += [bytes(n), b"\xff" * n, b"\x7f" * n, b"\x80" * n, bytes(range(n)), ref.keccak(b"e%d" % n)[:n]]
        for i in range(n * 8) if deep else range(0, n * 8, 5):
            out.append((1 << i).to_bytes(n, "big"))
    return out


def words(sub, part):
    for ent in part:
        w = bip32.Wallet.from_master_secret(ent)
        ws, ix = w.to_seed_words()
        exp = phrase_words(ent)
        sub.add(states=1, transitions=2)
        if list(ws) != exp or [bip39.english_words[i] for i in ix] != exp:
            sub.violation("phrase:" + ent.hex(), "phrase %s expected %s" % (" ".join(ws), " ".join(exp)))
        ii = [bip39.english_words.index(x) for x in exp]
        back = bytes(bip32.Wallet.indices_to_bytes(ii))
        bits = "".join(bin(i)[2:].zfill(11) for i in ii)
        full = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))
        if back != full or back[:len(ent)] != ent:
            sub.violation("indices:" + ent.hex(), "words to bytes %s expected %s" % (back.hex(), full.hex()))
        for f in (exp, " ".join(exp)):
            d = SeedDerivation.from_mnemonics(f, as_index=True)
            if bytes(d.master_seed) != full:
                sub.violation("as-index:%s:%s" % (ent.hex(), type(f).__name__), "seed %s" % bytes(d.master_seed).hex())
    sub.case(("words", part[0].hex()))


def bits(sub, part):
    """packing of indices into bytes for all widths"""
    for b in part:
        for n in range(1, 13):
            for pat in (0, 1, 2 ** b - 1, 2 ** (b - 1), 0x5a5a & (2 ** b - 1)):
                ii = [(pat if k % 2 == 0 else (pat ^ (2 ** b - 1))) for k in range(n)]
                s = "".join(bin(i)[2:].zfill(b) for i in ii)
                full = bytes(int(s[i:i + 8], 2) for i in range(0, len(s) - 7, 8))
                got = bytes(bip32.Wallet.indices_to_bytes(ii, b))
                sub.add(states=1, transitions=1)
                if got != full:
                    sub.violation("pack:%d:%d:%d" % (b, n, pat), "packed %s expected %s" % (got.hex(), full.hex()))
                if b >= 8 and len(s) % 8 == 0:
                    got = list(bip32.Wallet.bytes_to_indices(full, b))
                    if got != ii:
                        sub.violation("unpack:%d:%d:%d" % (b, n, pat), "unpacked %r expected %r" % (got, ii))


def phrases(sub, part):
    for ent, pw in part:
        ws = phrase_words(ent)
        seed = hashlib.pbkdf2_hmac("sha512", " ".join(ws).encode(), b"mnemonic" + pw, 2048)
        got = bytes(bip39_deriv.mnemonics_to_seed(" ".join(ws), passphrase=pw))
        sub.add(states=1, transitions=2)
        if got != seed:
            sub.violation("pbkdf:%s:%r" % (ent.hex(), pw), "seed %s" % got.hex())
        for name, f in (("list", ws), ("string", " ".join(ws)), ("upper", [x.upper() for x in ws]), ("spaces", "  " + "  ".join(ws) + "\n"), ("lines", "\n".join(ws)),
                        ("mixed", [" ".join(ws[:4]), " ".join(ws[4:])])):
            for ed in (False, True):
                key = "%s:%s:%r:%d" % (ent.hex(), name, pw, ed)
                try:
                    d = SeedDerivation.from_mnemonics(f, passphrase=pw, slip0010=ed)
                except Exception as e:
                    sub.violation("mnem:" + key, "derivation fails %r" % e)
                    continue
                sub.add(states=1, transitions=1)
                if bytes(d.master_seed) != seed:
                    sub.violation("mseed:" + key, "seed of the phrase differs")
                    continue
                pre, mm = expected(seed, DEF[:3] if ed else DEF, ed)
                seedcmp(sub, key, d, pre, mm)
        if pw:
            try:
                SeedDerivation.from_mnemonics(ws, as_index=True, passphrase=pw)
                sub.violation("index-pass", "passphrase silently ignored")
            except Exception:
                pass
    sub.case(("phrases", part[0][0].hex()))


TEXTS = ["", "TREZOR", "café", "cafe\u0301", "\ufb01ne", "\u212bngstr\u00f6m", "\u1100\u1161\u11a8", "각", "㍍ガバヴァぱばぐゞちぢ十人十色", "\U0001f511", "stra\u00dfe", "a\u0323\u0307", "a\u0307\u0323",
         "\u00a0x", "\uff21"]
PHRASES = ["abandon " * 11 + "about", "abaisser abaisser \u00e9cole \u00e9t\u00e9", "abaisser abaisser e\u0301cole e\u0301te\u0301", "\u00e1baco acci\u00f3n ni\u00f1o", "a\u0301baco accio\u0301n nin\u0303o",
           "あいこくしん　あいこくしん　あおぞら", "的 的 一 在", "가격 가끔 가난", "žába čmelák"]


def texts(sub, part):
    """words and passphrases which are text: UTF-8 of the compatibility decomposition, whatever form was typed"""
    for ph, pw in part:
        nk = lambda t: unicodedata.normalize("NFKD", t).encode("utf8")
        words_ = " ".join(ph.split())
        seed = hashlib.pbkdf2_hmac("sha512", nk(words_), b"mnemonic" + nk(pw), 2048)
        for name, f in (("text", lambda: bip39_deriv.mnemonics_to_seed(words_, passphrase=pw)), ("text-bytes", lambda: bip39_deriv.mnemonics_to_seed(words_, passphrase=nk(pw))),
                        ("wallet", lambda: SeedDerivation.from_mnemonics(ph, passphrase=pw).master_seed), ("wallet-list", lambda: SeedDerivation.from_mnemonics(ph.split(), passphrase=pw).master_seed)):
            sub.add(states=1, transitions=1)
            try:
                got = bytes(f())
            except Exception as e:
                sub.violation("unicode:%s:%r" % (name, e.__class__.__name__), "seed of %r with passphrase %r fails: %r" % (ph, pw, e))
                continue
            if got != seed:
                sub.violation("unicode:" + name, "seed of %r with passphrase %r differs" % (ph, pw), case="%s:%r:%r" % (name, ph, pw))
    sub.case(("texts", part[0]))


def mseeds(sub, part):
    for s in part:
        d = SeedDerivation.from_monero_seed(s)
        sub.add(states=1, transitions=1)
        seedcmp(sub, s.hex(), d, None, s)
    sub.case(part[0].hex())


def work(sub, job):
    if job[1] is None:
        globals()[job[0]](sub)
    else:
        globals()[job[0]](sub, job[1])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    if hashlib.sha256(("\n".join(bip39.english_words) + "\n").encode()).hexdigest() != BIP39_SHA:
        chk.violation("wordlist", "the BIP-39 word list is not the standard one")
    zs = zeros_seeds()
    menu = COMP if deep else [0, 1, H - 1, H, H + 1, 2 * H - 1]
    paths = [list(p) for n in range(0, 3) for p in itertools.product(menu, repeat=n)]
    d3 = [list(p) for p in itertools.product([0, H, 1, 2 * H - 1], repeat=3)] + [[H + 44, H + 128, H, 0, 0]]
    sd = [ref.keccak(b"s%d" % n)[:n] if n <= 32 else (ref.keccak(b"s") + ref.keccak(b"t"))[:n] for n in (16, 20, 24, 28, 32, 64)]
    jobs = []
    for s in sd[:1] + sd[-1:] + zs:
        for c in chunks(paths + d3, 4):
            jobs.append(("secp", (s, c)))
    for s in sd[1:-1]:
        jobs.append(("secp", (s, paths[:1 + len(menu)] + d3[-1:])))
    jobs += [("history", (sd[0], f)) for f in FORMS]
    hard = [[n for n in p] for p in paths if len(p) < 2 or p[0] >= H]
    if not deep:
        hard = hard[::2]
    for s in sd + zs:
        jobs.append(("masters", (s, hard)))
    jobs += [("badpaths", None)]
    jobs += [("words", c) for c in chunks(entropies(deep), 8)]
    jobs += [("bits", c) for c in chunks(list(range(1, 17)), 4)]
    ents = [e for n in (16, 20, 24, 28, 32) for e in (bytes(n), b"\x7f" * n, ref.keccak(b"e%d" % n)[:n])]
    if not deep:
        ents = ents[::3] + ents[2::6]
    jobs += [("phrases", c) for c in chunks([(e, pw) for e in ents for pw in (b"", b"TREZOR", b"\xc3\xa9 x", b"p" * 130)], 24)]
    jobs += [("texts", c) for c in chunks([(ph, pw) for ph in PHRASES for pw in TEXTS], 8)]
    L = ref.L
    ms = [x.to_bytes(32, "little") for x in (1, 2, L - 1, L + 1, 2 * L - 1, 8 * L + 5, 15 * L + 3, 2 ** 255 - 1, 2 ** 255, 2 ** 256 - 1, 2 ** 252, 256, 2 ** 248)] + [ref.keccak(b"m%d" % i) for i in range(30 if not deep else 300)]
    jobs += [("mseeds", c) for c in chunks(ms, 8)]
    pmap(chk, work, jobs)
    chk.traces = chk.transitions
