"""P36: hashing and message authentication.

Hasher objects are explored as a state machine: every sequence of update / digest / digest into a buffer / hexdigest / copy / reset up to a depth, with
chunks around the block size, with up to two live copies; after each operation the answer is compared with an independent Keccak over the bytes fed so far
(independence of copies and purity of digest follow). Then every length over three blocks and every two-way split of it, every size argument of the one-shot
functions, HMAC over every key length around block and digest size, PBKDF2 over password, salt, output length and count, and every
operation sequence of the deterministic generator and of the seeded mask vector built on it."""
import hashlib
import hmac
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C
from monero_glue.xmr import common
from monero_glue.xmr.sub import keccak_hasher
DATA = b"".join(ref.keccak(b"d%d" % i) for i in range(40))
SEED = ref.keccak(b"seed")
SEED2 = b"\x00" + ref.keccak(b"seed2")[:20]


def attempt(fn):
    """(failed, result)"""
    try:
        return False, fn()
    except Exception as e:
        return True, e


def data(n, off=0):
    return DATA[off:off + n]


# ---- state machine of the hasher -------------------------------------------------------
CHUNKS = [0, 1, 135, 136, 137]
OPS = [("u", c) for c in CHUNKS] + [("d",), ("b",), ("x",), ("c",), ("s",), ("r",)]


def machine(sub, job):
    """all operation sequences of a depth with the given prefix"""
    prefix, depth = job
    for tail in itertools.product(OPS, repeat=depth - len(prefix)):
        seq = prefix + list(tail)
        cur, m = C.get_keccak(), b""
        other, om = None, None
        n = 0
        for op in seq:
            n += 1
            k = op[0]
            res = exp = None
            if k == "u":
                ch = data(op[1], len(m) % 50)
                r = attempt(lambda: cur.update(ch))
                m += ch
                if r[0]:
                    sub.violation("machine:%s" % (seq[:n],), "update raised %r" % (r[1],))
                    break
            elif k == "d":
                res, exp = attempt(lambda: bytes(cur.digest())), ref.keccak(m)
            elif k == "b":
                bf = bytearray(b"\xee" * 32)
                res, exp = attempt(lambda: (cur.digest(bf), bytes(bf))[1]), ref.keccak(m)
            elif k == "x":
                res, exp = attempt(lambda: cur.hexdigest()), ref.keccak(m).hex()
            elif k == "c":
                res = attempt(lambda: cur.copy())
                if res[0]:
                    sub.violation("machine:%s" % (seq[:n],), "copy raised %r" % (res[1],))
                    break
                other, om = res[1], m
                res = None
            elif k == "s":
                if other is None:
                    break      # same as a shorter sequence
                cur, m, other, om = other, om, cur, m
            elif k == "r":
                cur.reset()
                m = b""
            if exp is not None:
                sub.add(states=1, transitions=n)
                if res[0] or res[1] != exp:
                    sub.violation("machine:%s" % (seq[:n],), "hash of %d bytes after %s is %r" % (len(m), seq[:n], res[1]))
                    break
        else:
            for o, b in ((cur, m), (other, om)):
                if o is not None:
                    sub.add(states=1, transitions=1)
                    if bytes(o.digest()) != ref.keccak(b):
                        sub.violation("machine-end:%s" % (seq,), "final hash of %d bytes differs" % len(b))
    sub.case(("machine", tuple(prefix)))


def eq(sub, key, fn, exp):
    r = attempt(fn)
    sub.add(states=1, transitions=1)
    if r[0]:
        sub.violation(key, "raised %r" % (r[1],))
    elif (bytes(r[1]) if not isinstance(r[1], str) else r[1]) != exp:
        sub.violation(key, "got %s instead of %s" % (bytes(r[1]).hex() if not isinstance(r[1], str) else r[1], exp if isinstance(exp, str) else exp.hex()))


def oneshot(sub, part):
    for n in part:
        m = data(n)
        h = ref.keccak(m)
        for nm, t in (("bytes", bytes), ("bytearray", bytearray), ("memoryview", memoryview)):
            eq(sub, "hash:%d:%s" % (n, nm), lambda: C.keccak_hash(t(m)), h)
            bf = bytearray(32)
            eq(sub, "into:%d:%s" % (n, nm), lambda: (C.keccak_hash_into(bf, t(m)), bf)[1], h)
            eq(sub, "ctx:%d:%s" % (n, nm), lambda: C.get_keccak(t(m)).digest(), h)
            w = common.HashWrapper(C.get_keccak())
            eq(sub, "wrapper:%d:%s" % (n, nm), lambda: (w.update(t(m)), w.digest())[1], h)
            w2 = keccak_hasher.HashWrapper(C.get_keccak())
            eq(sub, "wrapper2:%d:%s" % (n, nm), lambda: (w2.update(t(m)), w2.digest())[1], h)
        eq(sub, "hash2:%d" % n, lambda: C.keccak_2hash(m), ref.keccak(h))
        eq(sub, "fast:%d" % n, lambda: C.cn_fast_hash(m), h)
        eq(sub, "scalar:%d" % n, lambda: C.encodeint(C.hash_to_scalar(m)), (int.from_bytes(h, "little") % ref.L).to_bytes(32, "little"))
        for s in sorted({0, 1, n // 2, n - 1, n, n + 1, n + 40, 135, 136, 137} & set(range(0, n + 41))):
            e = ref.keccak(m[:s])
            eq(sub, "hash-size:%d:%d" % (n, s), lambda: C.keccak_hash(m, s), e)
            bf = bytearray(32)
            eq(sub, "into-size:%d:%d" % (n, s), lambda: (C.keccak_hash_into(bf, m, s), bf)[1], e)
            if s <= n:
                eq(sub, "scalar-size:%d:%d" % (n, s), lambda: C.encodeint(C.hash_to_scalar(m, s)),
                   (int.from_bytes(e, "little") % ref.L).to_bytes(32, "little"))
    sub.case(("oneshot", part[0]))


def splits(sub, job):
    lens, step = job
    for n in lens:
        m = data(n)
        h = ref.keccak(m)
        for i in range(0, n + 1, step):
            k = C.get_keccak()
            k.update(m[:i])
            k.update(m[i:])
            sub.add(states=1, transitions=2)
            if bytes(k.digest()) != h:
                sub.violation("split:%d:%d" % (n, i), "hash of %d bytes fed as %d + %d differs" % (n, i, n - i))
        k = C.get_keccak()
        for b in m:
            k.update(bytes([b]))
        sub.add(states=1, transitions=n)
        if bytes(k.digest()) != h:
            sub.violation("bytewise:%d" % n, "hash fed byte by byte differs")
    sub.case(("splits", lens[0]))


def hkeccak(k, m):
    return ref.hmac_keccak(k, m)


def macs(sub, job):
    keys, msgs = job
    for kl in keys:
        key = data(kl, 3)
        for ml in msgs:
            m = data(ml, 9)
            e = hkeccak(key, m)
            eq(sub, "hmac:%d:%d" % (kl, ml), lambda: C.compute_hmac(key, m), e)
            h = C.get_hmac(key)
            cp = None
            for i in range(0, ml + 1, max(1, ml // 3)):
                h.update(m[i:i + max(1, ml // 3)])
                if cp is None:
                    cp, cpm = h.copy(), m[:i + max(1, ml // 3)]
            eq(sub, "hmac-inc:%d:%d" % (kl, ml), lambda: h.digest(), e)
            eq(sub, "hmac-again:%d:%d" % (kl, ml), lambda: h.digest(), e)
            eq(sub, "hmac-hex:%d:%d" % (kl, ml), lambda: h.hexdigest(), e.hex())
            eq(sub, "hmac-copy:%d:%d" % (kl, ml), lambda: cp.digest(), hkeccak(key, cpm))
            eq(sub, "hmac-msg:%d:%d" % (kl, ml), lambda: C.get_hmac(key, m).digest(), e)
        eq(sub, "hmac-empty:%d" % kl, lambda: C.compute_hmac(key, b""), hkeccak(key, b""))
    sub.case(("macs", keys[0]))


def pbref(pw, salt, length, count, prf):
    out = b""
    i = 0
    while len(out) < length:
        i += 1
        u = prf(pw, salt + i.to_bytes(4, "big"))
        t = int.from_bytes(u, "big")
        for _ in range(count - 1):
            u = prf(pw, u)
            t ^= int.from_bytes(u, "big")
        out += t.to_bytes(len(u), "big")
    return out[:length]


def kdf(sub, part):
    sha = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    for pl, sl, ln, ct in part:
        pw, salt = data(pl, 5), data(sl, 77)
        key = "pbkdf:%d:%d:%d:%d" % (pl, sl, ln, ct)
        eq(sub, key + ":sha", lambda: C.pbkdf2(pw, salt, ln, ct, sha), hashlib.pbkdf2_hmac("sha256", pw, salt, ct, ln))
        eq(sub, key + ":kec", lambda: C.pbkdf2(pw, salt, ln, ct, hkeccak), pbref(pw, salt, ln, ct, hkeccak))
        # one of the two documented defaults; the backends have to agree on it
        r = attempt(lambda: C.pbkdf2(pw, salt, ln, ct))
        sub.add(states=1, transitions=1)
        if r[0] or bytes(r[1]) not in (hashlib.pbkdf2_hmac("sha256", pw, salt, ct, ln), pbref(pw, salt, ln, ct, hkeccak)):
            sub.violation(key + ":def", "default PBKDF2 is neither over SHA-256 nor over Keccak: %r" % (r[1],))
    sub.case(("kdf", part[0]))


def kdf_default(sub):
    r = C.pbkdf2(b"password", b"salt", 32, 3)
    sub.add(states=1, transitions=1)
    sub.case(bytes(r).hex())
    if bytes(r) != hashlib.pbkdf2_hmac("sha256", b"password", b"salt", 3, 32):
        sub.violation("pbkdf2-default-prf", "PBKDF2 without a given pseudo-random function is not over HMAC-SHA256: sealed with one backend it cannot be opened with the other")


# ---- generator ---------------------------------------------------------------------------
class Gen:
    def __init__(self, seed):
        self.seed, self.ctr = seed, 0

    def take(self, n):
        out = b""
        while len(out) < n:
            self.ctr += 1
            out += ref.keccak(self.seed + self.ctr.to_bytes(32, "big"))
        return out[:n]


GOPS = [("n", 0), ("n", 1), ("n", 32), ("n", 33), ("n", 64), ("B", 32), ("B", 70), ("w", 32), ("w", 64), ("r", None), ("r", SEED2)]


def gens(sub, job):
    first, dep = job
    for tail in itertools.product(GOPS, repeat=dep - 1):
        g, m = C.prng(SEED), Gen(SEED)
        seq = (first,) + tail
        for n, (op, a) in enumerate(seq, 1):
            r, e = None, None
            if op == "n":
                r, e = attempt(lambda: bytes(g.next(a))), m.take(a)
            elif op == "B":
                bf = bytearray(b"\x55" * 80)
                r, e = attempt(lambda: (g.next(a, bf), bytes(bf))[1]), m.take(a)
                e = e + b"\x55" * (80 - a)
            elif op == "w":
                g.rewind(a)
                m.take(a)
            else:
                g.reset(a)
                m = Gen(a if a is not None else m.seed)
            sub.add(states=1, transitions=1)
            if r and (r[0] or r[1] != e):
                sub.violation("prng:%s" % (seq[:n],), "stream after %s is %r" % (seq[:n], r[1]))
                break
    sub.case(("gens", repr(first)))


def work(sub, job):
    if job[1] is None:
        globals()[job[0]](sub)
    else:
        globals()[job[0]](sub, job[1])


def chunks(x, n):
    return [x[i::n] for i in range(n) if x[i::n]]


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    py = env.BACKEND == "0"
    jobs = [("kdf_default", None)]
    depth = (4 if deep else 3) if py else (6 if deep else 5)
    for p in itertools.product(OPS, repeat=2):
        jobs.append(("machine", (list(p), depth)))
    lens = list(range(0, 420)) if deep or not py else [n for n in range(0, 420) if n < 4 or n % 136 in (0, 1, 2, 127, 128, 134, 135) or n % 32 == 0]
    jobs += [("oneshot", c) for c in chunks(lens, 16)]
    if py:
        sl = list(range(0, 300)) if deep else [0, 1, 2, 31, 32, 33, 64, 134, 135, 136, 137, 138, 271, 272, 273]
        jobs += [("splits", ([n], 1)) for n in sl]
    else:
        jobs += [("splits", (c, 1)) for c in chunks(list(range(0, 420)), 16)]
    kl = [0, 1, 31, 32, 33, 64, 134, 135, 136, 137, 138, 271, 272, 273]
    if deep or not py:
        kl = list(range(0, 300))
    jobs += [("macs", (c, [1, 31, 32, 63, 64, 135, 136, 137, 280] if not py or deep else [1, 32, 64, 137])) for c in chunks(kl, 16)]
    kd = [(p, s, ln, ct) for p in ((0, 1, 64, 65, 140) if not py or deep else (1, 65, 140)) for s in ((0, 8, 60, 140) if not py or deep else (0, 60))
          for ln in (1, 31, 32, 33, 64, 100) for ct in (1, 2, 3)]
    jobs += [("kdf", c) for c in chunks(kd, 16)]
    jobs += [("gens", (o, 5 if deep else 4)) for o in GOPS]
    chk.extra["depth of the hasher sequences"] = depth
    pmap(chk, work, jobs, 300)
    both.other_backend(chk, "P36", "quick")
