"""P33: blinding of range proofs.

Every prover of the code (Bulletproof provers incl. random-mask, offloaded with each method through its client, ring_ct wrappers, Borromean)
is run over a controlled randomness source. The run is repeated once per draw with only that draw replaced: the set of proof elements which
change tells what the draw blinds. Each blinding factor of the protocol - that of A, of S (its scalar and its two vectors), of T1 and of T2 -
must have a draw of its own, with at least 32 effective bytes (every byte of every draw is replaced in turn); nothing except the commitments may
repeat between two runs, or between two proofs of one builder; the vectors sL, sR must not repeat an element anywhere. Which draw
influences what is decided by exhaustive substitution, not by looking at the code."""
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C, bulletproof as bp, ring_ct
from checks.p31 import sc, si, sec, attempt
from checks.p32 import fields, boro_prove, boro_fields, BORO

L = ref.L


class Subst:
    """random source with single draws replaced"""

    def __init__(self, tag):
        env.RNG.reset(tag)
        self.log = []
        self.sub = {}
        self.base = env.DetRng.bytes

    def __enter__(self):
        def f(n):
            x = self.base(env.RNG, n)
            k = len(self.log)
            if k in self.sub:
                x = self.sub[k](x)
            self.log.append(n)
            return x
        env.RNG.bytes = f
        return self

    def __exit__(self, *a):
        del env.RNG.bytes


def other(x):
    return (ref.keccak(b"other0" + x) + ref.keccak(b"other1" + x))[:len(x)] if len(x) <= 64 else bytes(b ^ 0x5A for b in x)


def flip(i):
    return lambda x: x[:i] + bytes([x[i] ^ 1]) + x[i + 1:]


# ---- provers --------------------------------------------------------------------------
def builder(a, m, det=True, fn="prove_batch"):
    b = bp.BulletProofBuilder()
    b.use_det_masks = det
    return getattr(b, fn)(a, m)


class Off:
    """the offloaded prover served by the client, in process"""

    def __init__(self, a, m, log=None):
        self.a, self.m, self.log, self.b = a, m, log, None

    def __call__(self, method, prm):
        from monero_glue.xmr import bulletproof_cl as cl
        c = cl.BulletproofClient(len(self.a), self.msg)
        c.off_method = method
        c.nprime_thresh, c.off2_thresh, c.batching = prm
        self.proof = None
        try:
            env.run(c.compute_bp())
        except Done:
            pass
        return self.proof

    async def msg(self, p1=0, p2=0, params=None, buffers=None):
        if p1 == 0:
            self.b = bp.BulletProofBuilder()
            self.b.off_method, self.b.nprime_thresh, self.b.off2_thresh, self.b.batching = params
            r = self.b.prove_batch_off(self.a, self.m, buffers)
        else:
            r = self.b.prove_batch_off_step(buffers)
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 1 and not isinstance(r[1], (bytes, bytearray)):
            self.proof = r[1]
            raise Done()
        if self.log is not None:
            self.log.append([bytes(x) for x in flat(r)])
        return r if isinstance(r, (list, tuple)) else [r] if r else None


class Done(Exception):
    pass


def flat(r):
    if r is None:
        return []
    if isinstance(r, (bytes, bytearray, memoryview)):
        return [bytes(r)]
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in flat(x)]
    return []


def plain(x):
    return ref.dec_sc(bytes(C.encodeint(x)))


PROVERS = {
    "prove_batch": lambda a, m: builder(a, m),
    "prove_batch_": lambda a, m: builder(a, m, fn="prove_batch_"),
    "prove": lambda a, m: bp.BulletProofBuilder().prove(a[0], m[0]),
    "randmask": lambda a, m: builder(a, m, False),
    "randmask_": lambda a, m: builder(a, m, False, "prove_batch_"),
    "ring_ct_batch": lambda a, m: env.run(ring_ct.prove_range_bp_batch([plain(x) for x in a], m)),
    "ring_ct_single": lambda a, m: env.run(ring_ct.prove_range_bp(plain(a[0]), m[0]))[2],
}
for _me in range(4):
    PROVERS["off%d" % _me] = (lambda me: lambda a, m: Off(a, m)(me, (16, 16, 16)))(_me)
SINGLE = ("prove", "ring_ct_single")
EL = ("A", "S", "T1", "T2", "taux", "mu", "t", "a", "b")


def run_(prover, am, tag, sub=None):
    ms = [sec("p33m", i) for i in range(len(am))]
    with Subst("p33" + tag) as s:
        s.sub = sub or {}
        p = PROVERS[prover]([sc(x) for x in am], [sc(x) for x in ms])
        return fields(p), s.log


def changed(f, g):
    return {k for k in EL if f[k] != g[k]} | {"L%d" % i for i, (x, y) in enumerate(zip(f["L"], g["L"])) if x != y} | \
        {"R%d" % i for i, (x, y) in enumerate(zip(f["R"], g["R"])) if x != y} | ({"V"} if f["V"] != g["V"] else set())


def first(ch):
    """which part of the protocol the change enters first, and whether it enters there alone"""
    if "A" in ch:
        return "A" if "S" not in ch else "AS"
    if "S" in ch:
        return "S"
    if "T1" in ch:
        return "T1" if "T2" not in ch else "T12"
    return "T2" if "T2" in ch else "rest" if ch else "none"


NEED = {"A": 1, "S": 2, "T1": 1, "T2": 1}


def item_draws(sub_, item):
    _, prover, am, bytes_ = item
    tag = "%s:%s" % (prover, ",".join(map(str, am)))
    try:
        f, log = run_(prover, am, tag)
        g, _ = run_(prover, am, tag)
    except Exception as e:
        sub_.violation("run:" + tag, "proving fails: %r" % e)
        return
    sub_.expect(f == g, "det:" + tag, "the proof depends on something else than inputs and randomness source")
    groups = {}
    for k, n in enumerate(log):
        g, _ = run_(prover, am, tag, {k: other})
        sub_.add(states=1, transitions=1)
        c = first(changed(f, g))
        groups.setdefault(c, []).append((k, n))
        if c in ("A", "S", "T1", "T2"):
            # everything computed after the blinding must differ, too (the verifier's challenges depend on it)
            rest = {"A": EL[:1] + EL[2:], "S": EL[1:], "T1": ("T1", "taux", "mu", "t", "a", "b"), "T2": ("T2", "taux", "mu", "t", "a", "b")}[c]
            same = [x for x in rest if f[x] == g[x]]
            sub_.expect(not same, "follow:%s:%d" % (tag, k), "replacing the %s blinding draw leaves %s the same" % (c, same))
    for c, n in NEED.items():
        sub_.expect(len(groups.get(c, [])) >= n, "own:%s:%s" % (tag, c), "%d independent draws of randomness blind %s, %d needed (draws by effect: %s)" % (
            len(groups.get(c, [])), c, n, {k: len(v) for k, v in groups.items()}))
    sub_.sample({"prover": prover, "outputs": len(am), "draws by first effect": {k: len(v) for k, v in groups.items()}})
    sub_.case(tag)
    if not bytes_:
        return
    # entropy: every byte of every draw (vector draws: first and last two)
    for c, dr in sorted(groups.items()):
        if c not in NEED:
            continue
        dr_ = dr if len(dr) <= 4 else dr[:2] + dr[-2:]
        for k, n in dr_:
            eff = 0
            for i in range(n):
                g, _ = run_(prover, am, tag, {k: flip(i)})
                sub_.add(states=1, transitions=1)
                eff += first(changed(f, g)) == c
            sub_.expect(eff >= 32, "entropy:%s:%s:%d" % (tag, c, k), "only %d of %d random bytes influence the blinding of %s" % (eff, n, c))
            sub_.case("%s:%s:%d" % (tag, c, k))


def elements(f):
    r = [("%s" % k, f[k]) for k in ("A", "S", "T1", "T2", "taux", "mu", "t", "a", "b")]
    r += [("L%d" % i, x) for i, x in enumerate(f["L"])] + [("R%d" % i, x) for i, x in enumerate(f["R"])]
    return [(k, x if isinstance(x, bytes) else x.to_bytes(32, "little")) for k, x in r]


def item_fresh(sub_, item):
    """runs of all provers for the same amounts and masks: nothing but V repeats within or between proofs"""
    _, am = item
    seen = {}
    tag0 = ",".join(map(str, am))
    n = 0
    for prover in PROVERS:
        if prover in SINGLE and len(am) > 1:
            continue
        for rep in range(2):
            f = attempt(lambda: run_(prover, am, "fresh%d%s" % (rep, prover)))
            if isinstance(f, Exception):
                sub_.violation("fresh:%s:%s" % (prover, tag0), "proving fails: %r" % f)
                continue
            f = f[0]
            n += 1
            for k, x in elements(f):
                if x in seen:
                    sub_.violation("repeat:%s:%s:%s" % (prover, tag0, k), "element %s of a proof repeats %s" % (k, seen[x]))
                sub_.expect(any(x), "zero:%s:%s:%s" % (prover, tag0, k), "zero proof element %s" % k)
                seen[x] = (prover, rep, k)
            # blinding factor of A, T1, T2 missing: element equals its unblinded value
            y = unblinded(f, am)
            sub_.expect(not y, "unblinded:%s:%s" % (prover, tag0), "without blinding: %s" % y)
            sub_.add(states=1, transitions=1)
    # one builder used for two proofs, same and other order
    for det in (True, False):
        for fn in ("prove_batch", "prove_batch_"):
            b = bp.BulletProofBuilder()
            b.use_det_masks = det
            env.RNG.reset("p33two%s%s" % (fn, det))
            ms = [sec("p33m", i) for i in range(len(am))]
            for rep in range(3):
                f = attempt(lambda: fields(getattr(b, fn)([sc(x) for x in am], [sc(x) for x in ms])))
                if isinstance(f, Exception):
                    sub_.violation("reuse:%s:%s:%s" % (fn, det, tag0), "second proof of a builder fails: %r" % f)
                    break
                sub_.expect(attempt(lambda: ref.bp_verify(f["V"], f)) is True, "reusev:%s:%s:%s" % (fn, det, tag0), "second proof of a builder is invalid")
                for k, x in elements(f):
                    if x in seen:
                        sub_.violation("repeat2:%s:%s:%s:%s" % (fn, det, tag0, k), "element %s repeats %s" % (k, seen[x]))
                    seen[x] = (fn, det, rep, k)
                sub_.add(states=1, transitions=1)
    sub_.case("fresh" + tag0)


def unblinded(f, am):
    """proof elements explained by the amounts without (some of) the blinding"""
    out = []
    m = len(f["V"])
    mm = 1
    while mm < m:
        mm *= 2
    # A without alpha, with the alpha that other published scalars would imply (alpha = mu, alpha = rho, rho = 0)
    y, z, x = challenges(f)
    acc = None
    for i in range(mm * 64):
        v = am[i // 64] if i // 64 < len(am) else 0
        bit = (v >> (i % 64)) & 1
        pt = ref.bp_gen(i, 0) if bit else ref.neg(ref.bp_gen(i, 1))
        acc = pt if acc is None else ref.add(acc, pt)
    A8 = ref.mul(ref.dec(f["A"]), 8)
    ag = ref.add(A8, ref.neg(acc))          # alpha * G
    mu = f["mu"]
    for nm, al in (("0", 0), ("mu (rho = 0)", mu), ("rho", mu * pow(1 + x, L - 2, L) % L), ("-rho", mu * pow(1 - x, L - 2, L) % L), ("1", 1),
                   ("taux", f["taux"]), ("t", f["t"]), ("x*rho", mu * pow(2, L - 2, L) % L)):
        if ref.enc(ref.mulG(al % L)) == ref.enc(ag):
            out.append("alpha = " + nm)
    for k, nm in (("T1", "T1"), ("T2", "T2")):
        if f[k] == bytes([1] + [0] * 31):
            out.append(nm + " is the identity")
    return out


def challenges(f):
    hs = lambda *a: ref.hs(b"".join(a))
    e = lambda n: n.to_bytes(32, "little")
    h = ref.hs(b"".join(f["V"]))
    y = hs(e(h), f["A"], f["S"])
    z = hs(e(y))
    x = hs(e(z), e(z), f["T1"], f["T2"])
    return y, z, x


def item_vectors(sub_, item):
    """elements of the blinding vectors: all different, within a vector, between the two, between seeds, from draws that blind S"""
    _, n = item
    seen = {}
    for rep in range(3):
        env.RNG.reset("p33v%d" % rep)
        b = bp.BulletProofBuilder()
        attempt(lambda: b.prove_setup([sc(5)] * (n // 64), [sc(7)] * (n // 64)))
        for nm in ("sL", "sR"):
            v = getattr(b, nm + "_vct")(n)
            prev = None
            for i in range(n):
                x = bytes(v.to(i))
                d = None if prev is None else (int.from_bytes(x, "little") - prev) % L
                prev = int.from_bytes(x, "little")
                for lab, k in (("value", x), ("difference", d)):
                    if k is None:
                        continue
                    if (lab, k) in seen:
                        sub_.violation("vec:%d:%s:%d:%s" % (rep, nm, i, lab), "the %s of blinding vector %s at %d repeats %s" % (lab, nm, i, seen[(lab, k)]))
                    seen[(lab, k)] = (rep, nm, i)
                sub_.expect(prev != 0 and prev < L, "vec0:%d:%s:%d" % (rep, nm, i), "blinding vector element zero or unreduced")
                sub_.add(states=1)
            # read twice: the same values (a prover that sees other values the second time opens nothing)
            w = [bytes(v.to(i)) for i in range(n)]
            u = [bytes(getattr(b, nm + "_vct")(n).to(i)) for i in range(1)]
            sub_.expect(all(("value", x) in seen for x in w), "vecr:%d:%s" % (rep, nm), "a blinding vector changes when read again")
            sub_.expect(u[0] == w[0], "vecs:%d:%s" % (rep, nm), "a blinding vector of one proof changes when created again")
    sub_.case("vectors%d" % n)


def item_off(sub_, item):
    """what the prover hands to an untrusted helper is blinded: the vectors differ between runs and do not multiply to the published t"""
    _, method, m = item
    tag = "%d:%d" % (method, m)
    am = list(range(3, 3 + m))
    ms = [sec("p33m", i) for i in range(m)]
    base = None
    with Subst("p33off" + tag) as s:
        lg = []
        o = Off([sc(x) for x in am], [sc(x) for x in ms], lg)
        p = o(method, (16, 16, 16))
        f, draws = fields(p), list(s.log)
    k = 64 * m // 16
    l = b"".join(x[0] for x in lg[:k])
    r = b"".join(x[1] for x in lg[:k])
    ls, rs = ([int.from_bytes(v[i:i + 32], "little") for i in range(0, len(v), 32)] for v in (l, r))
    sub_.expect(len(ls) == 64 * m == len(rs), "offlen:" + tag, "unexpected number of vector elements handed out")
    h = 32 * m
    t = f["t"]
    d1, d2 = sum(a * b for a, b in zip(ls[:h], rs[:h])) % L, sum(a * b for a, b in zip(ls[h:], rs[h:])) % L
    sub_.expect((d1 + d2) % L != t, "offdot:" + tag, "the vectors handed to the helper are the proof's secret vectors, unblinded")
    # each half separately blinded: changing one draw changes the elements of a half of one vector only
    seenp = set()
    for q in range(len(draws)):
        lg2 = []
        with Subst("p33off" + tag) as s:
            s.sub = {q: other}
            p2 = attempt(lambda: Off([sc(x) for x in am], [sc(x) for x in ms], lg2)(method, (16, 16, 16)))
        if isinstance(p2, Exception):
            sub_.violation("offrun:%s:%d" % (tag, q), "proof fails: %r" % p2)
            continue
        g = fields(p2)
        sub_.add(states=1, transitions=1)
        if any(f[x] != g[x] for x in ("A", "S", "T1", "T2")):
            continue
        sub_.expect(f == g, "offsame:%s:%d" % (tag, q), "the blinding of offloaded vectors changes the proof")
        l2 = b"".join(x[0] for x in lg2[:k])
        r2 = b"".join(x[1] for x in lg2[:k])
        pat = tuple(a != b for a, b in ((l[:32 * h], l2[:32 * h]), (l[32 * h:], l2[32 * h:]), (r[:32 * h], r2[:32 * h]), (r[32 * h:], r2[32 * h:])))
        if any(pat):
            seenp.add(pat)
    want = {tuple(i == j for j in range(4)) for i in range(4)}
    sub_.expect(want <= seenp, "offown:" + tag, "halves of the offloaded vectors without a blinding of their own: %s" % sorted(want - seenp))
    sub_.case("off" + tag)


# ---- Borromean ------------------------------------------------------------------------
def item_borromean(sub_, item):
    _, kind, amount, mask = item
    tag = "%s:%x:%s" % (kind, amount, "rnd" if mask is None else "set")

    def go(sub=None):
        with Subst("p33b" + tag) as s:
            s.sub = sub or {}
            r = attempt(lambda: boro_fields(boro_prove(kind, amount, mask)[2]))
            return r, list(s.log)
    base, log = go()
    if isinstance(base, Exception):
        sub_.violation("borr:" + tag, "proving fails: %r" % base)
        return
    sub_.expect(go()[0] == base, "borrdet:" + tag, "the proof depends on something else than inputs and randomness source")
    eff, own = 0, set()
    for k in range(len(log)):
        g = go({k: other})[0]
        if isinstance(g, Exception):
            sub_.violation("borr:%s:%d" % (tag, k), "proving fails: %r" % g)
            continue
        own |= {i for i in range(64) if g["Ci"][i] != base["Ci"][i]}
        eff += g["ee"] != base["ee"] or g["s0"] != base["s0"] or g["s1"] != base["s1"]
        sub_.add(states=1, transitions=1)
    # 64 commitments (the blinding of one follows from the others if the mask is given), 64 nonces, 64 simulated scalars
    n = 64 - (mask is not None)
    sub_.expect(len(own) == 64, "borrci:" + tag, "only %d bit commitments are blinded by random draws" % len(own))
    sub_.expect(eff >= n + 128, "borrn:" + tag, "only %d draws of randomness influence the proof, %d needed" % (eff, n + 128))
    vals = [x.to_bytes(32, "little") for x in base["s0"] + base["s1"]] + base["Ci"]
    sub_.expect(len(set(vals)) == len(vals), "borrrep:" + tag, "an element of the proof repeats")
    # commitments without blinding are 0 or 2^i H
    bare = [i for i in range(64) if base["Ci"][i] in (ref.enc(ref.ID), ref.enc(ref.mul(ref.H, 1 << i)))]
    sub_.expect(not bare, "borrbare:" + tag, "bit commitments without blinding: %s" % bare)
    sub_.case("borr" + tag)


def run(chk):
    chk.rule = ("each of the blinding factors of a range proof (A, S with its two vectors, T1, T2; 64 bit commitments, 64 nonces, 64 simulated "
                "responses of a Borromean proof) depends on a random draw of its own with >= 32 effective bytes; no element repeats")
    chk.assumptions = ["the randomness source itself (native library / OS) is taken as unpredictable; it is replaced by a controlled stream"]
    deep = chk.thorough
    slow = env.BACKEND == "0"
    items = []
    for p in PROVERS:
        multi = p not in SINGLE
        if slow:
            if p in ("prove_batch", "prove_batch_"):
                items.append((item_draws, p, [5], False))
            continue
        det = p.startswith(("prove", "ring_ct"))
        items.append((item_draws, p, [2 ** 64 - 1], det))
        if multi:
            items.append((item_draws, p, [5, 2 ** 63], deep and det))
            if deep:
                items.append((item_draws, p, [5, 2 ** 63, 0], False))
    if not slow:
        items += [(item_fresh, am) for am in ([0], [7], [0, 0], [7, 2 ** 64 - 1]) + (([1, 2, 3], [4, 4, 4, 4]) if deep else ())]
        items += [(item_off, me, m) for me in range(4) for m in (1, 2) + ((4,) if deep else ())]
    items += [(item_vectors, n) for n in ((64, 128, 1024) if not slow else (64,))]
    for k in BORO:
        if slow or k.startswith("backend"):
            continue
        for a in (0xF0F1A5,) if not deep else (0, 0xF0F1A5, 2 ** 64 - 1):
            items += [(item_borromean, k, a, None), (item_borromean, k, a, sec("bm"))]
    pmap(chk, lambda s, it: it[0](s, it), items, limit=850)
    both.other_backend(chk, "P33", "quick")
