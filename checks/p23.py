"""P23: hidden amounts and masks.

For both encodings, every combination of a boundary pool of amounts (all powers of two +-1 below 2^64, 0, 2^64-1) with
pools of masks and amount keys goes through every encoder and decoder of the library (ring_ct.ecdh_encode/_decode with
given derivation, with separate and aliased destination, with sender/receiver keys; the device encoder and its serialized
form; the wallet decoder) and is compared with mc/ref.py.  Programs: all sequences of encode / decode / recode / copy calls
up to a depth over two shared tuples, against a value model (detects hidden aliasing and modified arguments)."""
import itertools

from mc import env, ref, both
from mc.check import pmap
from mc.explore import chunks
from mc.world import creds_of, SENDER

env.install_rng()

from monero_glue.xmr import crypto, monero, ring_ct
from monero_glue.protocol.tsx_sign_builder import TTransactionBuilder
from monero_serialize import xmrtypes

L = ref.L
AMTS = sorted({0, 1, 2 ** 64 - 1, 10 ** 12} | {v for k in range(64) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1) if v < 2 ** 64})
MASKS = [0, 1, L - 1, ref.hs(b"p23m"), 2 ** 252]
KEYS = [0, 1, L - 1, ref.hs(b"p23k1"), ref.hs(b"p23k2")]


def sc(x):
    return crypto.decodeint(ref.enc_sc(x))


def val(s):
    return ref.dec_sc(bytes(crypto.encodeint(s)))


def tup(m, a):
    return xmrtypes.EcdhTuple(mask=m, amount=a)


def exp_enc(v2, mask, amount, key):
    if v2:
        return None, bytes(ref.ecdh_v2(amount, key))
    a, b = ref.ecdh_v1(mask, amount, key)
    return bytes(a), bytes(b)


def keychk(sub_, k):
    kb = ref.enc_sc(k)
    sub_.expect(val(monero.commitment_mask(kb)) == ref.commitment_mask(k), "mask:%d" % (k % 1000), "commitment mask differs")
    buf = crypto.new_scalar()
    monero.commitment_mask(kb, buf)
    sub_.expect(val(buf) == ref.commitment_mask(k), "mask-into:%d" % (k % 1000), "commitment mask (in place) differs")
    sub_.expect(bytes(monero.ecdh_hash(kb)) == ref.keccak(b"amount" + kb), "ecdh_hash:%d" % (k % 1000), "ecdh hash differs")


def pairs(sub_, item):
    k, masks, amts = item
    kb = ref.enc_sc(k)
    keychk(sub_, k)
    tb = TTransactionBuilder.__new__(TTransactionBuilder)
    for mask in masks:
        for amount in amts:
            for v2 in (False, True):
                name = "%d:%x:%x:%d" % (v2, k % 65537, mask % 65537, amount)
                sub_.add(states=1, transitions=5)
                sub_.case(name)
                em, ea = exp_enc(v2, mask, amount, k)
                rm = ref.commitment_mask(k) if v2 else mask        # mask the receiver obtains
                src = tup(sc(mask), sc(amount))
                for form in ("new", "dest", "self"):
                    t = src if form != "self" else tup(sc(mask), sc(amount))
                    dest = None if form == "new" else tup(None, None) if form == "dest" else t
                    e = ring_ct.ecdh_encode(t, derivation=kb, v2=v2, dest=dest)
                    raw = bytes(crypto.encodeint(e.amount))
                    if (raw[:8] if v2 else raw) != ea or (not v2 and bytes(crypto.encodeint(e.mask)) != em) or (v2 and any(raw[8:])):
                        sub_.violation("encode-%s:%s" % (form, name), "encoded %s, expected %s" % (raw.hex(), ea.hex()))
                        continue
                    if form != "self" and (val(src.mask), val(src.amount)) != (mask % L, amount):
                        sub_.violation("encode-arg-%s:%s" % (form, name), "the argument of ecdh_encode was changed")
                        src = tup(sc(mask), sc(amount))
                    e0 = (val(e.mask), val(e.amount))
                    for df in ("new", "dest", "self"):
                        e2 = tup(sc(e0[0]), sc(e0[1]))
                        dest = None if df == "new" else tup(None, None) if df == "dest" else e2
                        d = ring_ct.ecdh_decode(e2, derivation=kb, v2=v2, dest=dest)
                        if val(d.amount) != amount or val(d.mask) != rm % L:
                            sub_.violation("decode-%s:%s" % (df, name), "decoded %d / %x expected %d / %x" % (val(d.amount), val(d.mask), amount, rm))
                        if df != "self" and (val(e2.mask), val(e2.amount)) != e0:
                            sub_.violation("decode-arg-%s:%s" % (df, name), "the argument of ecdh_decode was changed")
                # device encoder and its serialized form
                m = sc(mask)
                de = tb._s6_ecdh_encode(m, amount, kb, v2)
                ser = bytes(tb._s6_serialize_ecdh(de, v2))
                if ser != (ea if v2 else em + ea) or val(m) != mask % L:
                    sub_.violation("device:%s" % name, "device encoding %s expected %s (mask %s)" % (
                        ser.hex(), ((em or b"") + ea).hex(), "changed" if val(m) != mask % L else "kept"))


def exchange(sub_, item):
    """with sender / receiver keys instead of a shared derivation"""
    sk, mask = item
    for amount in AMTS[::7] + AMTS[-1:]:
        for v2 in (False, True):
            src = tup(sc(mask), sc(amount))
            e = ring_ct.ecdh_encode(src, receiver_pk=crypto.scalarmult_base(sc(sk)), v2=v2)
            d = ring_ct.ecdh_decode(e, receiver_sk=sc(sk), v2=v2)
            sub_.add(states=1, transitions=2)
            key = ref.dec_sc(bytes(crypto.encodepoint(crypto.scalarmult(e.senderPk, sc(sk))))) if v2 else 0
            want = ref.hs(b"commitment_mask" + bytes(crypto.encodepoint(crypto.scalarmult(e.senderPk, sc(sk))))) if v2 else mask
            if val(d.amount) != amount or val(d.mask) != want % L:
                sub_.violation("exchange:%d:%x:%d" % (v2, sk % 65537, amount), "decoded %d expected %d" % (val(d.amount), amount))


def wallet(sub_, item):
    """wallet decoder on a transaction with several outputs"""
    n, rtype = item
    v2 = rtype == 4
    for i in range(n):
        for amount in (0, 5, 2 ** 64 - 1):
            der = ref.mulG(ref.hs(b"der%d" % i))
            rv = tup(None, None).__class__.__new__(xmrtypes.EcdhTuple)
            class RV: pass
            rv = RV()
            rv.type = rtype
            rv.ecdhInfo, rv.outPk, exp = [], [], None
            for j in range(n):
                k = ref.deriv_scalar(ref.enc(der), j)
                a = amount + j if amount < 2 ** 63 else amount - j
                mask = ref.commitment_mask(k) if v2 else ref.hs(b"mk%d" % j)
                em, ea = exp_enc(v2, mask, a, k)
                rv.ecdhInfo.append(tup(em or bytes(32), ea + bytes(32 - len(ea))))
                rv.outPk.append(xmrtypes.CtKey(dest=bytes(32), mask=ref.enc(ref.commit(mask, a))))
                if j == i:
                    exp = (a, mask % L)
            before = [(bytes(x.mask), bytes(x.amount)) for x in rv.ecdhInfo]
            for rnd in range(2):
                sub_.add(states=1, transitions=1)
                g = monero.ecdh_decode_rv(rv, crypto.decodepoint(ref.enc(der)), i)
                if (val(g[0]), val(g[1])) != exp:
                    sub_.violation("wallet:%d:%d:%d:%d" % (n, rtype, i, amount), "decoded %r expected %r" % ((val(g[0]), val(g[1])), exp))
                now = [(bytes(x.mask), bytes(x.amount)) if isinstance(x.mask, (bytes, bytearray)) else None for x in rv.ecdhInfo]
                if now != before:
                    sub_.violation("wallet-arg:%d:%d:%d" % (n, rtype, i), "decoding changed the transaction")
                    break
            # another output's data, another commitment: refused
            for what in ("ecdh", "C", "idx", "count"):
                import copy
                r2 = copy.copy(rv)
                r2.ecdhInfo, r2.outPk, ii = list(rv.ecdhInfo), list(rv.outPk), i
                if what == "ecdh":
                    r2.ecdhInfo[i] = tup(bytes(rv.ecdhInfo[i].mask), bytes([rv.ecdhInfo[i].amount[0] ^ 1]) + bytes(rv.ecdhInfo[i].amount[1:]))
                elif what == "C":
                    r2.outPk[i] = xmrtypes.CtKey(dest=bytes(32), mask=ref.enc(ref.mulG(9)))
                elif what == "idx":
                    ii = n
                else:
                    r2.outPk = r2.outPk[:-1]
                try:
                    g = monero.ecdh_decode_rv(r2, crypto.decodepoint(ref.enc(der)), ii)
                except Exception:
                    continue
                sub_.violation("wallet-accept:%s:%d:%d" % (what, n, i), "altered data decoded to %d" % val(g[0]))


def programs(sub_, item):
    """all programs over two tuples A, B; model values follow the definition"""
    first, depth = item
    k = ref.hs(b"pgk")
    kb = ref.enc_sc(k)
    s1 = ref.hs(kb)
    s2 = ref.hs(ref.enc_sc(s1))
    ops = ["encA", "encAB", "decB", "decBA", "decA", "recA", "recB", "cpAB", "cpBA"]
    for n in range(0, depth):
        for rest in itertools.product(ops, repeat=n):
            prog = (first,) + rest
            A, B = tup(sc(11), sc(22)), tup(sc(33), sc(44))
            mA, mB = [11, 22, "s"], [33, 44, "s"]
            ok = True
            for op in prog:
                if op == "encA" and mA[2] == "s":
                    A = ring_ct.ecdh_encode(A, derivation=kb)
                    mA = [(mA[0] + s1) % L, (mA[1] + s2) % L, "s"]
                elif op == "encAB" and mA[2] == "s":
                    B = ring_ct.ecdh_encode(A, derivation=kb)
                    mB = [(mA[0] + s1) % L, (mA[1] + s2) % L, "s"]
                elif op == "decB" and mB[2] == "s":
                    ring_ct.ecdh_decode(B, derivation=kb, dest=B)
                    mB = [(mB[0] - s1) % L, (mB[1] - s2) % L, "s"]
                elif op == "decBA" and mB[2] == "s":
                    A = ring_ct.ecdh_decode(B, derivation=kb)
                    mA = [(mB[0] - s1) % L, (mB[1] - s2) % L, "s"]
                elif op == "decA" and mA[2] == "s":
                    A = ring_ct.ecdh_decode(A, derivation=kb)
                    mA = [(mA[0] - s1) % L, (mA[1] - s2) % L, "s"]
                elif op in ("recA", "recB"):
                    t, m = (A, mA) if op == "recA" else (B, mB)
                    monero.recode_ecdh(t, m[2] == "s")
                    m[2] = "b" if m[2] == "s" else "s"
                elif op == "cpAB":
                    B = monero.copy_ecdh(A)
                    mB = list(mA)
                elif op == "cpBA":
                    A = monero.copy_ecdh(B)
                    mA = list(mB)
                else:
                    ok = False
                    break
                sub_.add(states=1, transitions=1)
                for t, m, nm in ((A, mA, "A"), (B, mB, "B")):
                    g = (val(t.mask), val(t.amount)) if m[2] == "s" else (ref.dec_sc(bytes(t.mask)), ref.dec_sc(bytes(t.amount)))
                    if g != (m[0], m[1]):
                        sub_.violation("program:%s:%s" % ("-".join(prog), nm), "tuple %s holds %r, expected %r" % (nm, g, m))
                        ok = False
                if not ok:
                    break


def run(chk):
    deep = chk.thorough
    py = env.BACKEND == "0"
    chk.rule = __doc__
    amts = AMTS if not py or deep else AMTS[::9] + AMTS[-2:]
    masks = MASKS if deep else MASKS[1:4]
    keys = KEYS + ([ref.hs(b"p23k%d" % i) for i in range(3, 12)] if deep and not py else [])
    pmap(chk, pairs, [(k, masks, a) for k in keys for a in chunks(amts, 3)])
    pmap(chk, exchange, [(s, m) for s in (1, L - 1, ref.hs(b"sk")) for m in (1, ref.hs(b"m"))])
    pmap(chk, wallet, [(n, t) for n in (1, 2, 3) for t in (3, 4)])
    pmap(chk, programs, [(f, (5 if deep else 4) if not py else 3) for f in ("encA", "encAB", "decB", "decBA", "decA", "recA", "recB", "cpAB", "cpBA")])
    chk.traces = chk.transitions
    both.other_backend(chk, "P23", "quick")
