"""Independent reference implementation of the Monero primitives the checks use as oracle.

Pure Python integers; nothing here imports the code under test.  Keccak comes from
pycryptodome, everything else is written out from the protocol definitions.  selftest()
cross-validates it against the trezor_crypto C library (a third implementation)."""
import hashlib
import struct
import zlib
from functools import lru_cache

from Crypto.Hash import keccak as _k

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = (-121665 * pow(121666, P - 2, P)) % P
D2 = 2 * D % P
SQRTM1 = pow(2, (P - 1) // 4, P)
A_MONT = 486662
INV8 = pow(8, L - 2, L)


def keccak(*parts):
    h = _k.new(digest_bits=256)
    for p in parts:
        h.update(bytes(p))
    return h.digest()


def hmac_keccak(k, m):
    if len(k) > 136:
        k = keccak(k)
    k = k.ljust(136, b"\0")
    return keccak(bytes(x ^ 0x5C for x in k) + keccak(bytes(x ^ 0x36 for x in k) + m))


def hs(*parts):
    """hash to scalar (int)"""
    return int.from_bytes(keccak(*parts), "little") % L


def enc_sc(x):
    return (x % L).to_bytes(32, "little")


def dec_sc(b):
    return int.from_bytes(bytes(b), "little")


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def read_varint(buf, pos):
    r, s = 0, 0
    while True:
        b = buf[pos]
        pos += 1
        r |= (b & 0x7F) << s
        s += 7
        if not b & 0x80:
            return r, pos


# ---- group ---------------------------------------------------------------
ID = (0, 1, 1, 0)


def add(p, q):
    x1, y1, z1, t1 = p
    x2, y2, z2, t2 = q
    a = (y1 - x1) * (y2 - x2) % P
    b = (y1 + x1) * (y2 + x2) % P
    c = t1 * D2 * t2 % P
    d = 2 * z1 * z2 % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def dbl(p):
    x1, y1, z1, _ = p
    a = x1 * x1 % P
    b = y1 * y1 % P
    c = 2 * z1 * z1 % P
    h = a + b
    e = h - (x1 + y1) ** 2 % P
    g = a - b
    f = c + g
    return (e * f % P, g * h % P, f * g % P, e * h % P)


def neg(p):
    return ((-p[0]) % P, p[1], p[2], (-p[3]) % P)


def sub(p, q):
    return add(p, neg(q))


def mul(p, n):
    n %= L * 8
    if n == 0:
        return ID
    tab = [ID, p]
    for _ in range(14):
        tab.append(add(tab[-1], p))
    r = ID
    for i in range((n.bit_length() + 3) // 4 - 1, -1, -1):
        r = dbl(dbl(dbl(dbl(r))))
        d = (n >> (4 * i)) & 15
        if d:
            r = add(r, tab[d])
    return r


def eq(p, q):
    return (p[0] * q[2] - q[0] * p[2]) % P == 0 and (p[1] * q[2] - q[1] * p[2]) % P == 0


def enc(p):
    zi = pow(p[2], P - 2, P)
    x = p[0] * zi % P
    y = p[1] * zi % P
    return (y | ((x & 1) << 255)).to_bytes(32, "little")


@lru_cache(maxsize=20000)
def _dec(b):
    if len(b) != 32:
        raise ValueError("point length")
    n = int.from_bytes(b, "little")
    sign = n >> 255
    y = n & (2 ** 255 - 1)
    if y >= P:
        raise ValueError("non-canonical point")
    u = (y * y - 1) % P
    v = (D * y * y + 1) % P
    x = u * pow(v, 3, P) * pow(u * pow(v, 7, P), (P - 5) // 8, P) % P
    vxx = v * x * x % P
    if vxx != u:
        if vxx != (-u) % P:
            raise ValueError("not on curve")
        x = x * SQRTM1 % P
    if x == 0 and sign:
        raise ValueError("bad sign")
    if x & 1 != sign:
        x = P - x
    return (x, y, 1, x * y % P)


def dec(b):
    return _dec(bytes(b))


G = dec(bytes([0x58]) + b"\x66" * 31)
H = dec(bytes.fromhex("8b655970153799af2aeadc9ff1add0ea6c7251d54154cfa92c173a0dd39c1f94"))

_GT = []
_HT = []


def _mk_table(p):
    t = []
    cur = p
    for _ in range(64):
        row = [ID]
        for _ in range(15):
            row.append(add(row[-1], cur))
        t.append(row)
        cur = add(row[-1], cur)
    return t


def _mulbase(tab, base, n):
    if not tab:
        tab.extend(_mk_table(base))
    n %= L
    r = ID
    i = 0
    while n:
        d = n & 15
        if d:
            r = add(r, tab[i][d])
        n >>= 4
        i += 1
    return r


def mulG(n):
    return _mulbase(_GT, G, n)


def mulH(n):
    return _mulbase(_HT, H, n)


def in_prime_subgroup(p):
    q = ID
    n = L
    b = p
    while n:
        if n & 1:
            q = add(q, b)
        b = dbl(b)
        n >>= 1
    return eq(q, ID)


def commit(mask, amount):
    return add(mulG(mask), mulH(amount))


def fromfe(b):
    """ge_fromfe_frombytes_vartime: Elligator-like map of Monero's hash_to_ec."""
    u = int.from_bytes(bytes(b), "little") % P  # CN reads full 256 bits mod p
    A = A_MONT
    v = 2 * u * u % P
    w = (v + 1) % P  # w = 2u^2+1
    x = (w * w - 2 * A * A * u * u) % P  # w^2 - 2 A^2 u^2
    # r->X = (w/x)^(m+1) handled via sqrt(w/x)
    rX = w * pow(x, 3, P) % P
    rX = rX * pow(w * pow(x, 7, P) % P, (P - 5) // 8, P) % P  # (w/x)^((p+3)/8)
    y = rX * rX % P
    xx = y * x % P
    z = (-A) % P
    if xx == w:
        rX = rX * _fffb2() % P
        sign = 0
        z = z * v % P
    elif (xx + w) % P == 0:
        rX = rX * _fffb1() % P
        sign = 0
        z = z * v % P
    else:
        xxx = xx * SQRTM1 % P
        if xxx == w:
            rX = rX * _fffb4() % P
        else:
            assert (xxx + w) % P == 0
            rX = rX * _fffb3() % P
        # r->X = r->X * sqrt(A(A+2) * ...), negative branch
        sign = 1
        z = (-A) % P
        # in the negative branch X is not multiplied by u
        if (rX & 1) != sign:
            rX = (-rX) % P
        rZ = (z + w) % P
        rY = (z - w) % P
        rX = rX * rZ % P
        return _proj(rX, rY, rZ)
    rX = rX * u % P
    if (rX & 1) != sign:
        rX = (-rX) % P
    rZ = (z + w) % P
    rY = (z - w) % P
    rX = rX * rZ % P
    return _proj(rX, rY, rZ)


def _proj(X, Y, Z):
    zi = pow(Z, P - 2, P)
    x, y = X * zi % P, Y * zi % P
    return (x, y, 1, x * y % P)


def _sqrt(a):
    a %= P
    r = pow(a, (P + 3) // 8, P)
    if r * r % P == a:
        return r
    r = r * SQRTM1 % P
    if r * r % P == a:
        return r
    raise ValueError("nonresidue")


@lru_cache(None)
def _fffb1():  # sqrt(-2 * A * (A + 2))
    return _sqrt(-2 * A_MONT * (A_MONT + 2))


@lru_cache(None)
def _fffb2():  # sqrt(2 * A * (A + 2))
    return _sqrt(2 * A_MONT * (A_MONT + 2))


@lru_cache(None)
def _fffb3():  # sqrt(-sqrt(-1) * A * (A + 2))
    return _sqrt(-SQRTM1 * A_MONT * (A_MONT + 2))


@lru_cache(None)
def _fffb4():  # sqrt(sqrt(-1) * A * (A + 2))
    return _sqrt(SQRTM1 * A_MONT * (A_MONT + 2))


def mul8(p):
    return dbl(dbl(dbl(p)))


@lru_cache(maxsize=5000)
def _hp(b):
    return mul8(fromfe(keccak(b)))


def hash_to_point(b):
    """H_p as used for key images: input bytes (encoded key)."""
    return _hp(bytes(b))


def msm(pairs):
    """multi-scalar multiplication sum(n_i * P_i) (Straus, 4-bit windows)."""
    pairs = [(n % L, p) for n, p in pairs]
    tabs = []
    for n, p in pairs:
        t = [ID, p]
        for _ in range(14):
            t.append(add(t[-1], p))
        tabs.append(t)
    r = ID
    for i in range(63, -1, -1):
        if r is not ID:
            r = dbl(dbl(dbl(dbl(r))))
        for (n, _), t in zip(pairs, tabs):
            d = (n >> (4 * i)) & 15
            if d:
                r = add(r, t[d])
    return r


# ---- Monero derivations ----------------------------------------------------
def derivation(pub, sec):
    return enc(mul8(mul(pub, sec)))


def deriv_scalar(der, idx):
    return hs(der, varint(idx))


def derive_pub(der, idx, spend_pub):
    return add(mulG(deriv_scalar(der, idx)), spend_pub)


def subaddr_m(a, major, minor):
    return hs(b"SubAddr\x00" + enc_sc(a) + struct.pack("<II", major, minor))


def key_image(x, pub_enc):
    return mul(hash_to_point(pub_enc), x)


def commitment_mask(amount_key):
    return hs(b"commitment_mask" + enc_sc(amount_key))


def ecdh_v2(amount, amount_key):
    pad = keccak(b"amount" + enc_sc(amount_key))[:8]
    return bytes(x ^ y for x, y in zip(amount.to_bytes(8, "little"), pad))


def ecdh_v1(mask, amount, amount_key):
    s1 = hs(enc_sc(amount_key))
    s2 = hs(enc_sc(s1))
    return enc_sc(mask + s1), enc_sc(amount + s2)


class Wallet:
    """Secret keys + the address arithmetic of a Monero account."""

    def __init__(self, spend, view):
        self.b, self.a = spend, view
        self.B, self.A = mulG(spend), mulG(view)
        self._sub = {}

    def sub_pub(self, major, minor):
        """(spend, view) public points"""
        if (major, minor) not in self._sub:
            if (major, minor) == (0, 0):
                self._sub[(0, 0)] = (self.B, self.A)
            else:
                d = add(self.B, mulG(subaddr_m(self.a, major, minor)))
                self._sub[(major, minor)] = (d, mul(d, self.a))
        return self._sub[(major, minor)]

    def sub_sec(self, major, minor):
        if (major, minor) == (0, 0):
            return self.b
        return (self.b + subaddr_m(self.a, major, minor)) % L

    def addr_enc(self, major=0, minor=0):
        s, v = self.sub_pub(major, minor)
        return enc(s), enc(v)

    def receive(self, out_key_enc, idx, tx_pub, add_pubs, subs):
        """Find (major,minor), derivation for an output or None. subs: iterable of index pairs."""
        table = {enc(self.sub_pub(*s)[0]): s for s in subs}
        ders = [derivation(dec(tx_pub), self.a)]
        if add_pubs:
            ders.append(derivation(dec(add_pubs[idx]), self.a))
        for der in ders:
            cand = enc(sub(dec(out_key_enc), mulG(deriv_scalar(der, idx))))
            if cand in table:
                return table[cand], der
        return None

    def spend_key(self, sub_idx, der, idx):
        return (deriv_scalar(der, idx) + self.sub_sec(*sub_idx)) % L


# ---- ring signatures ----------------------------------------------------------
def mlsag_verify(msg, rows, ring, ds, II, ss, cc):
    """ring[col][row] points; ds double-spend rows; ss[col][row] ints, cc int."""
    for row in ss:
        for s in row:
            if not 0 <= s < L:
                return False
    c = cc
    for col in range(len(ring)):
        buf = [msg]
        for j in range(rows):
            pk = ring[col][j]
            Lp = add(mulG(ss[col][j]), mul(pk, c))
            buf.append(enc(pk))
            buf.append(enc(Lp))
            if j < ds:
                R = add(mul(hash_to_point(enc(pk)), ss[col][j]), mul(II[j], c))
                buf.append(enc(R))
        c = hs(*buf)
        if c == 0:
            return False
    return c == cc


def mlsag_simple_verify(msg, ring, pseudo_out, key_img, ss, cc):
    """ring: list of (dest_enc, commitment_enc)."""
    ki = dec(key_img)
    if not in_prime_subgroup(ki) or eq(ki, ID):
        return False
    po = dec(pseudo_out)
    m = [[dec(d), sub(dec(c), po)] for d, c in ring]
    return mlsag_verify(msg, 2, m, 1, [ki], ss, cc)


def clsag_verify(msg, ring, pseudo_out, key_img, D_enc, s, c1):
    n = len(ring)
    if len(s) != n:
        return False
    for x in s + [c1]:
        if not 0 <= x < L:
            return False
    I = dec(key_img)
    Dp = mul8(dec(D_enc))
    if eq(I, ID) or eq(Dp, ID):
        return False
    po = bytes(pseudo_out)

    def dom(s):
        return s + b"\x00" * (32 - len(s))

    base = b"".join(bytes(d) for d, _ in ring) + b"".join(bytes(c) for _, c in ring)
    mu_p = hs(dom(b"CLSAG_agg_0") + base + bytes(key_img) + bytes(D_enc) + po)
    mu_c = hs(dom(b"CLSAG_agg_1") + base + bytes(key_img) + bytes(D_enc) + po)
    c = c1
    for i in range(n):
        Pk = dec(ring[i][0])
        C = sub(dec(ring[i][1]), dec(po))
        cp, cc = mu_p * c % L, mu_c * c % L
        Lp = add(add(mulG(s[i]), mul(Pk, cp)), mul(C, cc))
        Rp = add(add(mul(hash_to_point(ring[i][0]), s[i]), mul(I, cp)), mul(Dp, cc))
        c = hs(dom(b"CLSAG_round") + base + po + bytes(msg) + enc(Lp) + enc(Rp))
    return c == c1


def ring_sig_verify(prefix_hash, ki_enc, pubs, sig):
    """CryptoNote ring signature: sig list of (c, r) ints."""
    I = dec(ki_enc)
    if not in_prime_subgroup(I):
        return False
    buf = [prefix_hash]
    tot = 0
    for (c, r), pk in zip(sig, pubs):
        if not (0 <= c < L and 0 <= r < L):
            return False
        p = dec(pk)
        buf.append(enc(add(mul(p, c), mulG(r))))
        buf.append(enc(add(mul(hash_to_point(pk), r), mul(I, c))))
        tot += c
    return (hs(*buf) - tot) % L == 0


# ---- Bulletproofs -----------------------------------------------------------------
BP_N = 64
BP_M = 16
_gens = {}


def bp_gen(i, which):
    """which 0 -> Gi (exponent 2i+1), 1 -> Hi (exponent 2i)."""
    key = (i, which)
    if key not in _gens:
        idx = 2 * i + (0 if which else 1)
        _gens[key] = mul8(fromfe(keccak(keccak(enc(H) + b"bulletproof" + varint(idx)))))
    return _gens[key]


def bp_verify(V_enc, bp):
    """bp: dict with A,S,T1,T2 (bytes), taux,mu,a,b,t (ints), L,R list of bytes.
    V_enc: commitments scaled by 1/8 (as hashed).  Returns bool."""
    M = 1
    while M < len(V_enc):
        M *= 2
    MN = M * BP_N
    rounds = MN.bit_length() - 1
    if not V_enc or len(bp["L"]) != rounds or len(bp["R"]) != rounds:
        return False
    for k in ("taux", "mu", "a", "b", "t"):
        if not 0 <= bp[k] < L:
            return False
    hc = hs(*V_enc)

    def mash(*parts):
        nonlocal hc
        hc = hs(enc_sc(hc), *parts)
        return hc

    y = mash(bp["A"], bp["S"])
    z = hc = hs(enc_sc(y))
    x = mash(enc_sc(z), bp["T1"], bp["T2"])
    xip = mash(enc_sc(x), enc_sc(bp["taux"]), enc_sc(bp["mu"]), enc_sc(bp["t"]))
    if 0 in (y, z, x, xip):
        return False
    w = [mash(l, r) for l, r in zip(bp["L"], bp["R"])]
    winv = [pow(v, L - 2, L) for v in w]
    ypow = [1]
    for _ in range(MN - 1):
        ypow.append(ypow[-1] * y % L)
    yinv = pow(y, L - 2, L)
    # check 1
    sy = sum(ypow) % L
    delta = (z - z * z) * sy % L
    s2 = (2 ** 64 - 1) % L
    for j in range(1, M + 1):
        delta = (delta - pow(z, j + 2, L) * s2) % L
    rhs = [(delta, H), (x, mul8(dec(bp["T1"]))), (x * x % L, mul8(dec(bp["T2"])))]
    for j, v in enumerate(V_enc):
        rhs.append((pow(z, j + 2, L), mul8(dec(v))))
    if not eq(add(mulG(bp["taux"]), mulH(bp["t"])), msm(rhs)):
        return False
    # check 2
    pairs = [(1, mul8(dec(bp["A"]))), (x, mul8(dec(bp["S"]))), (-bp["mu"], G),
             ((bp["t"] - bp["a"] * bp["b"]) * xip, H)]
    for k in range(rounds):
        pairs.append((w[k] * w[k], mul8(dec(bp["L"][k]))))
        pairs.append((winv[k] * winv[k], mul8(dec(bp["R"][k]))))
    yi = 1
    for i in range(MN):
        g, h = bp["a"], bp["b"] * yi % L
        for j in range(rounds):
            J = rounds - 1 - j
            if (i >> j) & 1 == 0:
                g = g * winv[J] % L
                h = h * w[J] % L
            else:
                g = g * w[J] % L
                h = h * winv[J] % L
        g = (g + z) % L
        h = (h - (pow(z, 2 + i // BP_N, L) * (1 << (i % BP_N)) + z * ypow[i]) * yi) % L
        pairs.append((-g, bp_gen(i, 0)))
        pairs.append((-h, bp_gen(i, 1)))
        yi = yi * yinv % L
    return eq(msm(pairs), ID)


def bp_parse(b, pos=0):
    b = bytes(b)

    def take():
        nonlocal pos
        r = b[pos:pos + 32]
        if len(r) != 32:
            raise ValueError("short bp")
        pos += 32
        return r

    o = {k: take() for k in ("A", "S", "T1", "T2")}
    o["taux"], o["mu"] = dec_sc(take()), dec_sc(take())
    n, pos = read_varint(b, pos)
    o["L"] = [take() for _ in range(n)]
    n, pos = read_varint(b, pos)
    o["R"] = [take() for _ in range(n)]
    o["a"], o["b"], o["t"] = dec_sc(take()), dec_sc(take()), dec_sc(take())
    return o, pos


def bp_hash_bytes(bp):
    out = bp["A"] + bp["S"] + bp["T1"] + bp["T2"] + enc_sc(bp["taux"]) + enc_sc(bp["mu"])
    out += b"".join(bp["L"]) + b"".join(bp["R"]) + enc_sc(bp["a"]) + enc_sc(bp["b"]) + enc_sc(bp["t"])
    return out


# ---- base58 / addresses --------------------------------------------------------------
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
B58_SIZES = [0, 2, 3, 5, 6, 7, 9, 10, 11]


def b58_enc(data):
    out = ""
    for i in range(0, len(data), 8):
        blk = data[i:i + 8]
        n = int.from_bytes(blk, "big")
        s = ""
        for _ in range(B58_SIZES[len(blk)]):
            n, r = divmod(n, 58)
            s = B58[r] + s
        out += s
    return out


def b58_dec(s):
    """bytes or None when s is not a canonical encoding"""
    out = b""
    for i in range(0, len(s), 11):
        blk = s[i:i + 11]
        if len(blk) not in B58_SIZES:
            return None
        size = B58_SIZES.index(len(blk))
        n = 0
        for c in blk:
            if c not in B58:
                return None
            n = n * 58 + B58.index(c)
        if n >= 256 ** size:
            return None
        out += n.to_bytes(size, "big")
    return out


ADDR_TAGS = {  # network -> (standard, integrated, subaddress)
    0: (18, 19, 42), 1: (53, 54, 63), 2: (24, 25, 36)}


def addr_encode(tag, payload):
    d = varint(tag) + payload
    return b58_enc(d + keccak(d)[:4])


def addr_decode(s):
    """(tag, payload) or None"""
    d = b58_dec(s)
    if d is None or len(d) < 5:
        return None
    if keccak(d[:-4])[:4] != d[-4:]:
        return None
    tag, pos = read_varint(d, 0)
    return tag, d[pos:-4]


# ---- transaction serialization -----------------------------------------------------
def prefix_bytes(version, unlock, vins, vouts, extra):
    """vins: list of serialized txin (incl. 0x02 tag); vouts: serialized txout"""
    return (varint(version) + varint(unlock) + varint(len(vins)) + b"".join(vins) + varint(len(vouts))
            + b"".join(vouts) + varint(len(extra)) + bytes(extra))


def txin_bytes(offsets_rel, ki):
    return b"\x02" + varint(0) + varint(len(offsets_rel)) + b"".join(varint(o) for o in offsets_rel) + bytes(ki)


def rct_message(prefix_hash, rct_type, fee, ecdhs, out_masks, bps):
    base = bytes([rct_type]) + varint(fee) + b"".join(bytes(e) for e in ecdhs) + b"".join(bytes(m) for m in out_masks)
    return keccak(prefix_hash, keccak(base), keccak(*[bp_hash_bytes(b) for b in bps]))


def parse_extra(extra):
    """dict: pub (list), nonce (list), additional (list or None)"""
    extra = bytes(extra)
    pos = 0
    r = {"pub": [], "nonce": [], "additional": None}
    while pos < len(extra):
        t = extra[pos]
        pos += 1
        if t == 1:
            r["pub"].append(extra[pos:pos + 32])
            if len(r["pub"][-1]) != 32:
                raise ValueError("short pub")
            pos += 32
        elif t == 2:
            n, pos = read_varint(extra, pos)
            if pos + n > len(extra):
                raise ValueError("short nonce")
            r["nonce"].append(extra[pos:pos + n])
            pos += n
        elif t == 4:
            n, pos = read_varint(extra, pos)
            if r["additional"] is not None:
                raise ValueError("dup additional")
            r["additional"] = []
            for _ in range(n):
                r["additional"].append(extra[pos:pos + 32])
                if len(r["additional"][-1]) != 32:
                    raise ValueError("short additional")
                pos += 32
        else:
            raise ValueError("unknown extra tag %d" % t)
    return r


def pid_crypt(pid, pub, sec):
    pad = keccak(derivation(pub, sec) + b"\x8d")
    return bytes(x ^ y for x, y in zip(pid, pad))


# ---- mnemonics ------------------------------------------------------------------------
def mn_encode(data, words, prefix):
    n = len(words)
    out = []
    for i in range(0, len(data), 4):
        x = int.from_bytes(data[i:i + 4], "little")
        w1 = x % n
        w2 = (x // n + w1) % n
        w3 = (x // n // n + w2) % n
        out += [words[w1], words[w2], words[w3]]
    return out


def mn_checksum(ws, prefix):
    s = "".join(w[:prefix] for w in ws)
    return ws[zlib.crc32(s.encode("utf8")) % len(ws)]


def selftest():
    """Cross-validate against the trezor_crypto C library and known vectors."""
    n = 0
    assert enc(mulG(1)) == enc(G) and eq(mul(G, L), ID) and in_prime_subgroup(G)
    for i in range(4):
        s = hs(b"st%d" % i)
        assert eq(mulG(s), mul(G, s)) and eq(mulH(s), mul(H, s))
        assert eq(dec(enc(mulG(s))), mulG(s))
        n += 3
    assert eq(msm([(5, G), (7, H)]), add(mul(G, 5), mul(H, 7)))
    try:
        from trezor_crypto import trezor_cfunc as tcf, trezor_ctypes as tct
        import ctypes as ct
        tcf.open_lib()
    except Exception:
        return n
    for i in range(4):
        data = keccak(b"h2p%d" % i)
        pt = tcf.xmr_hash_to_ec_r(data)
        buf = tct.KEY_BUFF() if hasattr(tct, "KEY_BUFF") else (ct.c_uint8 * 32)()
        tcf.ge25519_pack(buf, pt)
        raw = bytes(bytearray(buf))
        assert raw == enc(hash_to_point(data)), "hash_to_ec mismatch"
        n += 1
    return n
