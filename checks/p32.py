"""P32: range proofs.

Bulletproofs: (a) every prover of the code over boundary amounts x masks x batch sizes: the proof verifies with the code (single, batch,
both memory modes) and with mc/ref.py, commits to the amounts, leaves its inputs alone; (b) every element of a proof changed in every
way of a menu must be refused; (c) a dishonest prover (written here from the paper) runs the protocol with one deviation at every
place of the protocol - value out of range, non-bit decomposition, blinding sums, the two verification equations broken alone or against
each other, across the proofs of a batch - and every such proof must be refused, alone and at every position of a batch of honest ones.
Borromean range proofs: every prover variant, every element changed, dishonest bit commitments."""
import copy
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C, bulletproof as bp, ring_ct, monero
from monero_serialize import xmrtypes
from checks.p30 import T8
from checks.p31 import sc, si, pt, sec, paths, put, changes, attempt

L = ref.L
N = 64
U = 2 ** 64
AMOUNTS = [0, 1, 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, U - 2, U - 1, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA, 10 ** 12]
MASKS = [0, 1, L - 1, ref.hs(b"p32m"), L // 2]


def fields(p):
    f = {"V": [bytes(x) for x in p.V]}
    f.update({k: bytes(getattr(p, k)) for k in ("A", "S", "T1", "T2")})
    f.update({k: ref.dec_sc(bytes(getattr(p, k))) for k in ("taux", "mu", "a", "b", "t")})
    f["L"] = [bytes(x) for x in p.L]
    f["R"] = [bytes(x) for x in p.R]
    return f


def obj(f):
    kw = {k: bytearray(v) for k, v in f.items() if isinstance(v, bytes)}
    kw.update({k: bytearray(v.to_bytes(32, "little")) for k, v in f.items() if isinstance(v, int)})
    kw.update({k: [bytearray(x) for x in v] for k, v in f.items() if isinstance(v, list)})
    return xmrtypes.Bulletproof(**kw)


def accepted(fs, single=True):
    """(accepted, objects unchanged)"""
    os_ = [obj(f) for f in fs]
    b = bp.BulletProofBuilder()
    r = attempt(lambda: b.verify_batch(os_, single))
    same = isinstance(r, Exception) or [fields(o) for o in os_] == list(fs)
    return r is True, same


def accepted1(f):
    return attempt(lambda: bp.BulletProofBuilder().verify(obj(f))) is True


def refv(f):
    return attempt(lambda: ref.bp_verify(f["V"], f)) is True


# ---- (a) honest proofs ----------------------------------------------------------------
PROVERS = {"prove_batch": lambda a, m: bp.BulletProofBuilder().prove_batch(a, m),
           "prove_batch_": lambda a, m: bp.BulletProofBuilder().prove_batch_(a, m),
           "prove": lambda a, m: bp.BulletProofBuilder().prove(a[0], m[0]),
           "prove_range_bp_batch": lambda a, m: env.run(ring_ct.prove_range_bp_batch([ref.dec_sc(bytes(C.encodeint(x))) for x in a], m)),
           "prove_range_bp": lambda a, m: env.run(ring_ct.prove_range_bp(ref.dec_sc(bytes(C.encodeint(a[0]))), m[0]))[2],
           "randmask": lambda a, m: randmask(a, m)}


def randmask(a, m):
    b = bp.BulletProofBuilder()
    b.use_det_masks = False
    return b.prove_batch(a, m)


def honest(sub_, item):
    _, prover, am, ms = item
    tag = "%s:%s" % (prover, ",".join("%x/%x" % (a, m % 65536) for a, m in zip(am, ms)))
    env.RNG.reset("p32" + tag)
    A, Mk = [sc(a) for a in am], [sc(m) for m in ms]
    p = attempt(lambda: PROVERS[prover](A, Mk))
    sub_.case(tag)
    sub_.add(states=1, transitions=1)
    if isinstance(p, Exception):
        sub_.violation("prove:" + tag, "proving amounts in range fails: %r" % p)
        return
    f = fields(p)
    sub_.expect([si(x) for x in A] == [a % L for a in am] and [si(x) for x in Mk] == [m % L for m in ms], "inputs:" + tag, "the prover changes its inputs")
    V = [ref.enc(ref.mul(ref.commit(m, a), pow(8, L - 2, L))) for a, m in zip(am, ms)]
    sub_.expect(f["V"] == V, "commit:" + tag, "the proof's commitments are not those of the amounts")
    sub_.expect(accepted1(f), "honest:" + tag, "a proof of amounts in range is refused")
    ok, same = accepted([f], False)
    sub_.expect(ok, "honestb:" + tag, "a proof of amounts in range is refused in batch mode")
    sub_.expect(same and accepted([f])[1], "mut:" + tag, "verification changes the proof")
    sub_.expect(refv(f), "honestr:" + tag, "a proof of amounts in range does not verify independently")
    # against the amounts and masks it is for, and others
    def vbp(a, m):
        return attempt(lambda: env.run(ring_ct.verify_bp(obj(f), a, [sc(x) for x in m]))) is True
    sub_.expect(vbp(list(am), ms), "vbp:" + tag, "verify_bp refuses the right amounts")
    if len(am) <= 2:
        for j in range(len(am)):
            b = list(am)
            b[j] = (b[j] + 1) % U
            sub_.expect(not vbp(b, ms), "vbpa:%s:%d" % (tag, j), "verify_bp accepts another amount")
            b = list(ms)
            b[j] = b[j] + 1
            sub_.expect(not vbp(list(am), b), "vbpm:%s:%d" % (tag, j), "verify_bp accepts another mask")
    sub_.add(traces=1)


def outrange(sub_, item):
    _, prover, am = item
    ms = [sec("or", i) for i in range(len(am))]
    tag = "%s:%s" % (prover, ",".join("%x" % a for a in am))
    env.RNG.reset("p32o" + tag)
    p = attempt(lambda: PROVERS[prover]([sc(a) for a in am], [sc(m) for m in ms]))
    sub_.case(tag)
    sub_.add(states=1, transitions=1)
    if isinstance(p, Exception):
        return
    f = fields(p)
    # a proof of other amounts for these commitments
    f["V"] = [ref.enc(ref.mul(ref.commit(m, a), pow(8, L - 2, L))) for a, m in zip(am, ms)]
    sub_.expect(not accepted1(f) and not accepted([f], False)[0], "outrange:" + tag, "a proof for an amount out of range is accepted")


# ---- (b) changes ----------------------------------------------------------------------
def alter(sub_, item):
    _, m, part, parts, deep = item
    env.RNG.reset("p32alter%d" % m)
    f = fields(bp.BulletProofBuilder().prove_batch([sc(AMOUNTS[3 + i]) for i in range(m)], [sc(sec("al", i)) for i in range(m)]))
    env.RNG.reset("p32alter2%d" % m)
    g = fields(bp.BulletProofBuilder().prove_batch([sc(AMOUNTS[3 + i]) for i in range(m)], [sc(sec("al", i)) for i in range(m)]))
    if part == 0:
        sub_.expect(accepted1(f), "alter-honest%d" % m, "honest proof refused")
    jobs = []
    for path, lab, x in changes(f, False):
        jobs.append((path, lab, put(f, path, x)))
        if isinstance(x, int) and lab == "+1":
            v = x - 1
            if v + L < 2 ** 256:
                jobs.append((path, "+L", put(f, path, (v % L) + L)))
    for k in f:         # the same element of another proof of the same amounts
        jobs.append(((k,), "other", put(f, (k,), g[k])))
    for sub_len in range(len(f["L"])):
        h = copy.deepcopy(f)
        h["L"], h["R"] = h["L"][:sub_len], h["R"][:sub_len]
        jobs.append((("LR",), "cut%d" % sub_len, h))
    h = copy.deepcopy(f)
    h["L"], h["R"] = h["R"], h["L"]
    jobs.append((("LR",), "swap", h))
    for k, k2 in itertools.combinations([k for k in f if isinstance(f[k], bytes)], 2):
        jobs.append(((k, k2), "swap", dict(f, **{k: f[k2], k2: f[k]})))
    for k, k2 in itertools.combinations([k for k in f if isinstance(f[k], int)], 2):
        jobs.append(((k, k2), "swap", dict(f, **{k: f[k2], k2: f[k]})))
        jobs.append(((k, k2), "+-", dict(f, **{k: (f[k] + 1) % L, k2: (f[k2] - 1) % L})))
        jobs.append(((k, k2), "--", dict(f, **{k: (-f[k]) % L, k2: (-f[k2]) % L})))
    for k, (path, lab, h) in enumerate(jobs):
        if k % parts != part or h == f:
            continue
        sub_.add(states=1, transitions=1)
        key = "alter:%d:%s:%s" % (m, ".".join(map(str, path)), lab)
        sub_.case(key)
        if accepted1(h):
            sub_.violation(key, "a proof is accepted although %s was changed (%s)%s" % (".".join(map(str, path)), lab, "" if refv(h) else "; independently it is invalid"))
        elif k % 5 == 0 or deep:
            sub_.expect(not accepted([h], False)[0], key + ":batch", "an altered proof is accepted in batch mode")


# ---- (c) the dishonest prover ----------------------------------------------------------
def prove_ref(values, gammas, seed, cheat=None, d=1):
    """Range proof by the paper, with one deviation."""
    ctr = itertools.count()

    def rnd():
        return ref.hs(seed, b"%d" % next(ctr))
    M = 1
    while M < len(values):
        M *= 2
    MN = M * N
    i8 = pow(8, L - 2, L)

    def out(pairs):
        return ref.enc(ref.mul(ref.msm([(s % L, p) for s, p in pairs]), i8))
    Gi = [ref.bp_gen(i, 0) for i in range(MN)]
    Hi = [ref.bp_gen(i, 1) for i in range(MN)]
    aL = []
    for j in range(M):
        v = values[j] if j < len(values) else 0
        bits = [(v >> i) & 1 for i in range(N)]
        if j == 0 and cheat == "overflow":
            v = (values[0] % (U // 2)) + U
            bits = [((v - U) >> i) & 1 for i in range(N)]
            bits[63] = 2
        if j == 0 and cheat == "negbit":
            v = -1 % L
            bits = [0] * N
            bits[0] = -1 % L
        if j == 0 and cheat == "plain-overflow":
            v = U + values[0]
        if j == 0 and cheat == "plain-negative":
            v = -1 % L
        if j < len(values):
            values = values[:j] + [v] + values[j + 1:]
        elif cheat == "padding":
            bits = [1] * N
        aL += bits
    aR = [(x - 1) % L for x in aL]
    if cheat == "aR":
        aR[5] = aL[5]
    if cheat == "aR-last":
        aR[MN - 1] = aL[MN - 1]
    if cheat == "aR2":
        aL[3], aR[3] = 7, 6
    V = [out([(g, ref.G), (v, ref.H)]) for g, v in zip(gammas, values)]
    alpha, rho, tau1, tau2 = rnd(), rnd(), rnd(), rnd()
    sL, sR = [rnd() for _ in range(MN)], [rnd() for _ in range(MN)]
    A = out([(alpha + (d if cheat == "A-blind" else 0), ref.G)] + list(zip(aL, Gi)) + list(zip(aR, Hi)))
    S = out([(rho + (d if cheat == "S-blind" else 0), ref.G)] + list(zip(sL, Gi)) + list(zip(sR, Hi)) + ([(1, Gi[0])] if cheat == "S-vec" else []))
    hc = ref.hs(*V)

    def mash(*parts):
        nonlocal hc
        hc = ref.hs(ref.enc_sc(hc), *parts)
        return hc
    y = mash(A, S)
    z = hc = ref.hs(ref.enc_sc(y))
    yn = [1]
    for _ in range(MN - 1):
        yn.append(yn[-1] * y % L)
    zt = [pow(z, 2 + i // N, L) * (1 << (i % N)) % L for i in range(MN)]
    if cheat == "z-order" and M > 1:
        zt = zt[N:2 * N] + zt[:N] + zt[2 * N:]
    l0 = [(x - z) % L for x in aL]
    r0 = [((x + z) * w + q) % L for x, w, q in zip(aR, yn, zt)]
    r1 = [w * x % L for w, x in zip(yn, sR)]

    def ip(a, b):
        return sum(p * q for p, q in zip(a, b)) % L
    t1, t2 = (ip(l0, r1) + ip(sL, r0)) % L, ip(sL, r1)
    T1 = out([(t1 + (d if cheat == "T1" else 0), ref.H), (tau1 + (d if cheat == "T1-blind" else 0), ref.G)])
    T2 = out([(t2 + (d if cheat == "T2" else 0), ref.H), (tau2 + (d if cheat == "T2-blind" else 0), ref.G)])
    x = mash(ref.enc_sc(z), T1, T2)
    taux = (tau1 * x + tau2 * x * x + sum(pow(z, 2 + j, L) * g for j, g in enumerate(gammas))) % L
    mu = (x * rho + alpha) % L
    lv = [(p + q * x) % L for p, q in zip(l0, sL)]
    rv = [(p + q * x) % L for p, q in zip(r0, r1)]
    t = ip(lv, rv)
    # what the first equation requires
    sy = sum(yn) % L
    delta = (z - z * z) * sy - sum(pow(z, j + 2, L) for j in range(1, M + 1)) * (U - 1)
    teq = (sum(pow(z, 2 + j, L) * v for j, v in enumerate(values)) + delta + t1 * x + t2 * x * x) % L
    forced = False
    if cheat and cheat.endswith("!"):
        forced = True
    if cheat in ("overflow", "negbit", "padding", "aR", "aR-last", "aR2", "plain-overflow", "plain-negative", "z-order") and d == 2:
        forced = True
    if forced:
        t = teq
    if cheat == "t":
        t = (t + d) % L
    if cheat in ("taux", "trade", "trade2"):
        taux = (taux + d) % L
    if cheat in ("mu", "trade2"):
        mu = (mu + d) % L
    if cheat == "trade":
        mu = (mu - d) % L
    xip = mash(ref.enc_sc(x), ref.enc_sc(taux), ref.enc_sc(mu), ref.enc_sc(t))
    yinv = pow(y, L - 2, L)
    cg, ch = [1] * MN, [1]
    for _ in range(MN - 1):
        ch.append(ch[-1] * yinv % L)
    a, b = lv, rv
    n = MN
    Ls, Rs = [], []
    rounds = MN.bit_length() - 1
    for k in range(rounds):
        h = n // 2
        cL, cR = ip(a[:h], b[h:]), ip(a[h:], b[:h])
        pl, pr = [(cL * xip, ref.H)], [(cR * xip, ref.H)]
        if cheat == "L" and k == d % rounds:
            pl.append((1, ref.H))
        if cheat == "R" and k == d % rounds:
            pr.append((1, ref.G))
        for i in range(MN):
            q = i % n
            if q < h:
                pr.append((a[h + q] * cg[i], Gi[i]))
                pl.append((b[h + q] * ch[i], Hi[i]))
            else:
                pl.append((a[q - h] * cg[i], Gi[i]))
                pr.append((b[q - h] * ch[i], Hi[i]))
        Ls.append(out(pl))
        Rs.append(out(pr))
        w = mash(Ls[-1], Rs[-1])
        wi = pow(w, L - 2, L)
        for i in range(MN):
            lo = i % n < h
            cg[i] = cg[i] * (wi if lo else w) % L
            ch[i] = ch[i] * (w if lo else wi) % L
        a = [(w * p + wi * q) % L for p, q in zip(a[:h], a[h:])]
        b = [(wi * p + w * q) % L for p, q in zip(b[:h], b[h:])]
        n = h
    a, b = a[0], b[0]
    if cheat == "a":
        a = (a + d) % L
    if cheat == "b":
        b = (b + d) % L
    if cheat == "ab":       # keeps the product
        a, b = a * 2 % L, b * pow(2, L - 2, L) % L
    return {"V": V, "A": A, "S": S, "T1": T1, "T2": T2, "taux": taux, "mu": mu, "a": a, "b": b, "t": t, "L": Ls, "R": Rs}


CHEATS = [(c, d) for c in ("overflow", "negbit", "plain-overflow", "plain-negative", "aR", "aR-last", "aR2") for d in (1, 2)] + [
    (c, 1) for c in ("A-blind", "S-blind", "S-vec", "T1", "T2", "T1-blind", "T2-blind", "t", "taux", "mu", "trade", "trade2", "a", "b", "ab")] + [
    (c, k) for c in ("L", "R") for k in (0, 1, 3, 5)]
CHEATS2 = [("z-order", 1), ("z-order", 2)]
CHEATS3 = [("padding", 1), ("padding", 2)]


def cheats(sub_, item):
    _, m, cheat, d = item
    vals, gam = [AMOUNTS[4 + i] for i in range(m)], [sec("ch", i) for i in range(m)]
    key = "cheat:%d:%s:%d" % (m, cheat, d)
    sub_.case(key)
    h1 = prove_ref(vals[:1], gam[:1], b"h1")
    f = prove_ref(vals, gam, b"cheat", cheat, d)
    if cheat is None:
        sub_.add(states=1, transitions=1, traces=1)
        sub_.expect(refv(f), key + ":ref", "harness: the reference prover's honest proof is invalid")
        sub_.expect(accepted1(f), key, "a valid proof of another prover is refused")
        sub_.expect(accepted([f], False)[0], key + ":b", "a valid proof of another prover is refused in batch mode")
        sub_.expect(accepted([f, h1])[0] and accepted([h1, f, h1])[0], key + ":bb", "a batch of valid proofs is refused")
        return
    if refv(f):
        raise AssertionError("harness: the dishonest proof %s is valid" % key)
    for lab, fs, single in (("alone", [f], True), ("batch1", [f], False), ("first", [f, h1], True), ("last", [h1, f], True), ("middle", [h1, f, h1], True), ("twice", [f, f], True)):
        sub_.add(states=1, transitions=1)
        sub_.expect(not accepted(fs, single)[0], key + ":" + lab, "a proof by a dishonest prover (%s) is accepted (%s)" % (cheat, lab))
    if cheat in ("taux", "mu", "trade", "trade2", "a", "b", "t", "T1-blind", "A-blind"):
        # compensating deviations in two proofs of a batch
        g = prove_ref(vals, gam, b"cheat", cheat, -d)
        sub_.add(states=2, transitions=2)
        for lab, fs in (("comp", [f, g]), ("comp2", [g, h1, f])):
            sub_.expect(not accepted(fs)[0], key + ":" + lab, "two dishonest proofs compensate each other (%s)" % cheat)
        if cheat in ("taux", "mu"):
            g = prove_ref(vals, gam, b"cheat2", "mu" if cheat == "taux" else "taux", -d)
            sub_.expect(not accepted([f, g])[0], key + ":comp3", "two dishonest proofs compensate each other (%s)" % cheat)


# ---- Borromean -------------------------------------------------------------------------
def boro_ref(Cc, f):
    """independent verification"""
    if any(len(f[k]) != 64 for k in ("s0", "s1", "Ci")):
        return False
    for s in f["s0"] + f["s1"] + [f["ee"]]:
        if not 0 <= s < L:
            return False
    tot, h2, buf = ref.ID, ref.H, []
    for i in range(64):
        P = ref.dec(f["Ci"][i])
        tot = ref.add(tot, P)
        LL = ref.add(ref.mulG(f["s0"][i]), ref.mul(P, f["ee"]))
        ch = ref.hs(ref.enc(LL))
        buf.append(ref.enc(ref.add(ref.mulG(f["s1"][i]), ref.mul(ref.sub(P, h2), ch))))
        h2 = ref.dbl(h2)
    return ref.eq(tot, ref.dec(Cc)) and ref.hs(*buf) == f["ee"]


def boro_obj(f):
    r = xmrtypes.RangeSig()
    r.asig = xmrtypes.BoroSig()
    r.asig.s0, r.asig.s1, r.asig.ee = [ref.enc_sc(x) for x in f["s0"]], [ref.enc_sc(x) for x in f["s1"]], ref.enc_sc(f["ee"])
    r.Ci = list(f["Ci"])
    return r


def boro_fields(R):
    if isinstance(R, (bytes, bytearray)):
        R = bytes(R)
        if len(R) != 64 * 32 * 3 + 32:
            raise ValueError("flat range proof of %d bytes" % len(R))
        u = [R[i:i + 32] for i in range(0, len(R), 32)]
        return {"s0": [ref.dec_sc(x) for x in u[:64]], "s1": [ref.dec_sc(x) for x in u[64:128]], "ee": ref.dec_sc(u[128]), "Ci": u[129:]}
    if isinstance(R, list):
        s0, s1, ee, Ci = [bytes(x) for x in R]
        w = lambda b: [b[i:i + 32] for i in range(0, 2048, 32)]     # noqa: E731
        return {"s0": [ref.dec_sc(x) for x in w(s0)], "s1": [ref.dec_sc(x) for x in w(s1)], "ee": ref.dec_sc(ee), "Ci": w(Ci)}

    def s(x):
        return ref.dec_sc(bytes(x)) if isinstance(x, (bytes, bytearray)) else si(x)

    def p(x):
        return bytes(x) if isinstance(x, (bytes, bytearray)) else bytes(C.encodepoint(x))
    return {"s0": [s(x) for x in R.asig.s0], "s1": [s(x) for x in R.asig.s1], "ee": s(R.asig.ee), "Ci": [p(x) for x in R.Ci]}


BORO = {"default": {}, "orig": {"mem_opt": False}, "decode": {"decode": True}, "orig-decode": {"mem_opt": False, "decode": True}, "bytes": {"byte_enc": True},
        "orig-bytes": {"mem_opt": False, "byte_enc": True}, "backend": {"backend_impl": True}, "backend-bytes": {"backend_impl": True, "byte_enc": True},
        "backend-decode": {"backend_impl": True, "decode": True}, "chunked": None, "prove_range_orig": None, "prove_range_mem": None}


def boro_prove(kind, amount, mask):
    m = None if mask is None else sc(mask)
    if BORO[kind] is not None:
        return ring_ct.prove_range(amount, m, **BORO[kind])
    return {"chunked": ring_ct.prove_range_chunked, "prove_range_orig": ring_ct.prove_range_orig, "prove_range_mem": ring_ct.prove_range_mem}[kind](amount, m)


def boro_ok(f, Cc):
    return attempt(lambda: bool(ring_ct.ver_range(None if Cc is None else pt(Cc), boro_obj(f)))) is True


def boro(sub_, item):
    _, kind, amounts, masks = item
    for a in amounts:
        for m in masks:
            tag = "%s:%x:%s" % (kind, a, "rnd" if m is None else "%x" % (m % 65536))
            env.RNG.reset("p32b" + tag)
            sub_.case("boro:" + tag)
            sub_.add(states=1, transitions=1)
            r = attempt(lambda: boro_prove(kind, a, m))
            if isinstance(r, Exception):
                sub_.violation("boro:" + tag, "proving fails: %r" % r)
                continue
            Cc, mask = bytes(C.encodepoint(r[0])) if not isinstance(r[0], (bytes, bytearray)) else bytes(r[0]), r[1]
            mask = ref.dec_sc(bytes(mask)) if isinstance(mask, (bytes, bytearray)) else si(mask)
            try:
                f = boro_fields(r[2])
            except Exception as e:
                sub_.violation("borof:" + tag, "range proof malformed: %r" % e)
                continue
            sub_.expect(m is None or mask == m % L, "borom:" + tag, "the mask is not the requested one")
            sub_.expect(Cc == ref.enc(ref.commit(mask, a)), "boroc:" + tag, "the commitment is not that of amount and mask")
            sub_.expect(boro_ok(f, Cc), "borov:" + tag, "range proof is refused")
            sub_.expect(boro_ref(Cc, f), "boror:" + tag, "range proof does not verify independently")
            if "decode" in kind:
                sub_.expect(attempt(lambda: bool(ring_ct.ver_range(pt(Cc), r[2], decode=False))) is True, "borod:" + tag, "decoded range proof is refused")
            for d in (1, -1, U):
                sub_.expect(not boro_ok(f, ref.enc(ref.commit(mask, a + d))), "boroo:%s:%d" % (tag, d), "range proof accepted for another amount")
    sub_.add(traces=1)


def boro_alter(sub_, item):
    _, part, parts = item
    env.RNG.reset("p32boroalter")
    a = 0xF0F1A5
    Cc, mask, R = ring_ct.prove_range(a, sc(sec("ba")))
    Cc = bytes(C.encodepoint(Cc))
    f = boro_fields(R)
    if part == 0:
        sub_.expect(boro_ok(f, Cc), "boroalter:honest", "range proof refused")
    jobs = [(p, l, put(f, p, x), Cc) for p, l, x in changes(f, False)]
    # commitments moved between positions with the sum kept
    for i in range(63):
        h = copy.deepcopy(f)
        p, q = ref.dec(f["Ci"][i]), ref.dec(f["Ci"][i + 1])
        h["Ci"][i], h["Ci"][i + 1] = ref.enc(ref.add(p, ref.H)), ref.enc(ref.sub(q, ref.H))
        jobs.append((("Ci", i), "shift", h, Cc))
        h = copy.deepcopy(f)
        for k in ("s0", "s1", "Ci"):
            h[k][i], h[k][i + 1] = h[k][i + 1], h[k][i]
        jobs.append((("all", i), "swap", h, Cc))
    for lab, x in (("+G", ref.G), ("+H", ref.H), ("+T8", T8)):
        jobs.append((("C",), lab, f, ref.enc(ref.add(ref.dec(Cc), x))))
    for n, (path, lab, h, c) in enumerate(jobs):
        if n % parts != part or (h == f and c == Cc):
            continue
        key = "boroalter:%s:%s" % (".".join(map(str, path)), lab)
        sub_.add(states=1, transitions=1)
        sub_.case(key)
        if boro_ok(h, c):
            sub_.violation(key, "a range proof is accepted although %s was changed (%s)" % (".".join(map(str, path)), lab))


def boro_cheat(sub_, item):
    """a prover who commits to 2 * 2^i, -2^i, 3 * 2^i at one position (cannot close that ring)"""
    _, i = item
    for mult in (2, 3, -1, L // 2):
        for hide in (0, 1):
            seed = b"bc%d/%d/%d" % (i, mult, hide)
            n = itertools.count()
            rnd = lambda: ref.hs(seed, b"%d" % next(n))     # noqa: E731
            ai = [rnd() for _ in range(64)]
            bits = [(0x1234567 >> j) & 1 for j in range(64)]
            val = [b << j for j, b in enumerate(bits)]
            val[i] = mult * (1 << i)
            bits[i] = hide
            Ci = [ref.commit(x, v) for x, v in zip(ai, val)]
            alpha, s0, s1, buf, h2, H2 = [rnd() for _ in range(64)], [0] * 64, [0] * 64, [], ref.H, []
            for j in range(64):
                H2.append(h2)
                LL = ref.mulG(alpha[j])
                if not bits[j]:
                    s1[j] = rnd()
                    LL = ref.add(ref.mulG(s1[j]), ref.mul(ref.sub(Ci[j], h2), ref.hs(ref.enc(LL))))
                buf.append(ref.enc(LL))
                h2 = ref.dbl(h2)
            ee = ref.hs(*buf)
            for j in range(64):
                if not bits[j]:
                    s0[j] = (alpha[j] - ai[j] * ee) % L
                else:
                    s0[j] = rnd()
                    s1[j] = (alpha[j] - ai[j] * ref.hs(ref.enc(ref.add(ref.mulG(s0[j]), ref.mul(Ci[j], ee))))) % L
            f = {"s0": s0, "s1": s1, "ee": ee, "Ci": [ref.enc(p) for p in Ci]}
            tot = ref.ID
            for p in Ci:
                tot = ref.add(tot, p)
            key = "borocheat:%d:%d:%d" % (i, mult, hide)
            sub_.add(states=1, transitions=1)
            sub_.case(key)
            if boro_ok(f, ref.enc(tot)):
                sub_.violation(key, "a range proof with a commitment to %d * 2^%d is accepted" % (mult, i))


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    slow = env.BACKEND == "0"
    items = []
    if not slow:
        for n, a in enumerate(AMOUNTS):
            for m in MASKS if deep or n in (0, 8) else MASKS[n % 5:n % 5 + 1]:
                items.append((honest, "prove_batch", [a], [m]))
        for p in PROVERS:
            items.append((honest, p, [U - 1], [MASKS[3]]))
            if p not in ("prove", "prove_range_bp"):
                for k in (2, 3, 4) + ((5, 8, 16) if deep else ()):
                    items.append((honest, p, [AMOUNTS[(7 + i) % 12] for i in range(k)], [MASKS[i % 5] for i in range(k)]))
        for a, b in itertools.product(AMOUNTS[::4] if not deep else AMOUNTS[::2], repeat=2):
            items.append((honest, "prove_batch", [a, b], [MASKS[3], MASKS[4]]))
        for p in ("prove_batch", "prove_batch_"):
            for bad in (U, U + 5, 2 * U, 2 ** 128, L - 1, L - 2 ** 63, 2 ** 252):
                items += [(outrange, p, [bad]), (outrange, p, [7, bad]), (outrange, p, [bad, 7])]
        for m in (1, 2) + ((3, 4) if deep else ()):
            P = 8 * m
            items += [(alter, m, k, P, deep) for k in range(P)]
        for m in (1, 2) + ((4,) if deep else ()):
            for c, d in CHEATS + (CHEATS2 if m > 1 else []):
                if m == 1 or deep or c in ("overflow", "negbit", "aR-last", "trade", "taux", "z-order", "L"):
                    items.append((cheats, m, c, d))
            items.append((cheats, m, None, 0))
        items += [(cheats, 3, c, d) for c, d in CHEATS3] + [(cheats, 3, None, 0)]
        items += [(boro_alter, k, 16) for k in range(16)]
        items += [(boro_cheat, i) for i in (range(64) if deep else (0, 1, 31, 62, 63))]
    else:
        items += [(honest, p, [U - 1], [MASKS[3]]) for p in PROVERS] + [(honest, "prove_batch", [0, 2 ** 63], MASKS[:2]), (outrange, "prove_batch", [U])]
        items += [(cheats, 1, c, 1) for c in ("trade", "overflow", "t")] + [(boro_cheat, 0)]
        items += [(alter, 1, k, 64, False) for k in range(0, 64, 16)]
    for k in BORO:
        if slow and (k.startswith("backend") or k not in ("default", "orig", "chunked")):
            continue
        am, ms = ((AMOUNTS, [None] + MASKS) if deep else (AMOUNTS[::3] + [U - 1], [None, 0, L - 1])) if not slow else ([0, U - 1], [None, L - 1])
        items += [(boro, k, [a], ms) for a in am]
    pmap(chk, lambda s, it: it[0](s, it), items, limit=800)
    both.other_backend(chk, "P32", "quick")
