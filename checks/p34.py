"""P34: stepwise range proving with suspensions.

The offloaded prover is driven by its real client. At chosen step boundaries the prover is suspended: its state is dumped, every buffer in it copied,
the old builder and the module's scratch buffers are scribbled over, another prover (other amounts, other method) runs one of its own steps, and
a fresh builder loads the state. Enumerated: no suspension, one suspension at every step boundary, every step boundary, all pairs of boundaries
(thorough, small configurations), for every offloading method x batch size x thresholds x chunk size the client supports. Oracle: the proof equals that of
the uninterrupted run under the same randomness, it verifies with the library and with mc/ref.py, and commits to the given amounts. Every configuration
either gives a valid proof or fails loudly."""
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C, bulletproof as bp, bulletproof_cl as cl
from checks.p31 import sc, sec, attempt
from checks.p32 import fields, AMOUNTS, MASKS

L = ref.L
EXPECT = ()


class Done(Exception):
    pass


def clone(v):
    """a copy of a dumped value that shares no mutable buffer with the original"""
    if isinstance(v, bytearray):
        return bytearray(v)
    if isinstance(v, memoryview):
        return memoryview(bytearray(v))
    if isinstance(v, list):
        return [clone(x) for x in v]
    if isinstance(v, tuple):
        return tuple(clone(x) for x in v)
    if type(v).__name__ in ("EdScalar",) or "Bn" in type(v).__name__ or "bignum" in type(v).__name__:
        return C.decodeint(bytes(C.encodeint(v)))
    return v


def scribble():
    """what another use of the module leaves in its scratch buffers"""
    for nm, v in list(vars(bp).items()):
        if nm.startswith("_tmp") and isinstance(v, bytearray):
            for i in range(len(v)):
                v[i] = 0xA5
        elif nm.startswith("_tmp_sc"):
            C.sc_init_into(v, 0xA5A5)
        elif nm.startswith("_tmp_pt"):
            C.identity_into(v)


class Prover:
    """prover end of the protocol; susp(step) tells whether the state is dumped and reloaded before step"""

    def __init__(self, am, ms, susp, between=None, det=True):
        self.am, self.ms, self.susp, self.between, self.det = am, ms, susp, between, det
        self.b, self.k, self.proof = None, 0, None

    async def msg(self, p1=0, p2=0, params=None, buffers=None):
        if p1 == 0:
            self.b = bp.BulletProofBuilder()
            self.b.use_det_masks = self.det
            self.b.off_method, self.b.nprime_thresh, self.b.off2_thresh, self.b.batching = params
            r = self.b.prove_batch_off([sc(x) for x in self.am], [sc(x) for x in self.ms], buffers)
        else:
            if self.susp(self.k):
                st = clone(self.b.dump_state())
                old, self.b = self.b, bp.BulletProofBuilder()
                for v in vars(old).values():
                    if isinstance(v, bytearray):
                        v[:] = b"\xEE" * len(v)
                scribble()
                if self.between:
                    self.between()
                self.b.load_state(st)
            r = self.b.prove_batch_off_step(buffers)
        self.k += 1
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 1 and not isinstance(r[1], (bytes, bytearray)):
            self.proof = r[1]
            raise Done()
        # a transport copies
        r = clone(r)
        return r if isinstance(r, (list, tuple)) else [r] if r else None


def prove(am, ms, cfg, susp, tag, between=None, det=True):
    me, npt, o2, batch = cfg
    env.RNG.reset("p34" + tag)
    p = Prover(am, ms, susp, between, det)
    c = cl.BulletproofClient(len(am), p.msg)
    c.off_method, c.nprime_thresh, c.off2_thresh, c.batching = me, npt, o2, batch
    try:
        env.run(c.compute_bp())
    except Done:
        pass
    return fields(p.proof), p.k


class Other:
    """another prover, advanced one step at a time (its randomness is separate)"""

    def __init__(self, cfg):
        self.cfg, self.co, self.done = cfg, None, 0

    def start(self):
        self.p = Prover([3, 4], [5, 6], lambda k: False)
        c = cl.BulletproofClient(2, self.wait)
        c.off_method, c.nprime_thresh, c.off2_thresh, c.batching = self.cfg
        self.co = c.compute_bp()
        self.rng = None

    async def wait(self, *a, **kw):
        await Pause()
        return await self.p.msg(*a, **kw)

    def __call__(self):
        if self.co is None:
            self.start()
        s = env.RNG.snapshot()
        if self.rng is None:
            env.RNG.reset("p34other")
        else:
            env.RNG.restore(self.rng)
        try:
            self.co.send(None)
        except (Done, StopIteration):
            f = fields(self.p.proof)
            if attempt(lambda: ref.bp_verify(f["V"], f)) is not True:
                self.bad = True
            self.done += 1
            self.co = None
        if self.co:
            self.rng = env.RNG.snapshot()
        env.RNG.restore(s)

    bad = False


class Pause:
    def __await__(self):
        yield


def verify(sub_, f, am, ms, key):
    V = [ref.enc(ref.mul(ref.commit(m, a), pow(8, L - 2, L))) for a, m in zip(am, ms)]
    sub_.expect(f["V"] == V, "commit:" + key, "the proof's commitments are not those of the amounts")
    from checks.p32 import obj
    sub_.expect(attempt(lambda: bp.BulletProofBuilder().verify(obj(f))) is True, "lib:" + key, "the stepwise proof is refused")
    sub_.expect(attempt(lambda: ref.bp_verify(f["V"], f)) is True, "ref:" + key, "the stepwise proof does not verify independently")


def vals(m):
    return [AMOUNTS[(7 + 2 * i) % 12] for i in range(m)], [MASKS[(i + 3) % 5] for i in range(m)]


def item_config(sub_, item):
    """base run, suspension at every boundary, both with and without another prover in between"""
    _, m, cfg = item
    key = "%d:%s" % (m, "/".join(map(str, cfg)))
    am, ms = vals(m)
    r = attempt(lambda: prove(am, ms, cfg, lambda k: False, key))
    sub_.case(key)
    sub_.add(states=1, transitions=1)
    if isinstance(r, Exception):
        sub_.expect(not supported(m, cfg), "fail:" + key, "stepwise proving fails: %r" % r)
        return
    f, n = r
    verify(sub_, f, am, ms, key)
    oth = Other((2, 32, 32, 32))
    for lab, btw in (("all", None), ("inter", oth)):
        g = attempt(lambda: prove(am, ms, cfg, lambda k: True, key, btw))
        sub_.add(states=n, transitions=n, traces=1)
        if isinstance(g, Exception):
            sub_.violation("%s:%s" % (lab, key), "proving suspended at every step fails: %r" % g)
            continue
        sub_.expect(g[0] == f, "%s:%s" % (lab, key), "a proof suspended at every step differs from the uninterrupted one")
        sub_.expect(g[1] == n, "%sn:%s" % (lab, key), "suspension changes the number of steps")
    sub_.expect(not oth.bad, "other:" + key, "the proof of the other prover is invalid")
    sub_.sample({"outputs": m, "config": cfg, "steps": n})


def supported(m, cfg):
    me, npt, o2, batch = cfg
    mm = 1
    while mm < m:
        mm *= 2
    # chunk no longer than the vectors exchanged
    return batch <= (16 * mm if me == 0 else 32 * mm if me == 1 else 64 * mm) and (me > 0 or batch <= npt)


def item_points(sub_, item):
    """suspension before exactly the given steps"""
    _, m, cfg, part, parts, pairs = item
    key = "%d:%s" % (m, "/".join(map(str, cfg)))
    am, ms = vals(m)
    r = attempt(lambda: prove(am, ms, cfg, lambda k: False, key))
    if isinstance(r, Exception):
        if part == 0:
            sub_.violation("fail:" + key, "stepwise proving fails: %r" % r)
        return
    f, n = r
    sets = [(k,) for k in range(1, n)] + ([tuple(p) for p in itertools.combinations(range(1, n), 2)] if pairs else [])
    # all except one: every step finds either a fresh or a used builder
    sets += [tuple(x for x in range(1, n) if x != k) for k in range(1, n)]
    for s in sets[part::parts]:
        g = attempt(lambda: prove(am, ms, cfg, lambda k: k in s, key))
        sub_.add(states=1, transitions=n, traces=1)
        lab = "%s" % (s if len(s) < 3 else "all-but-%d" % (set(range(1, n)) - set(s)).pop(),)
        if isinstance(g, Exception):
            sub_.violation("susp:%s:%s" % (key, lab), "proving suspended before step(s) %s of %d fails: %r" % (lab, n, g))
            continue
        sub_.expect(g[0] == f, "susp:%s:%s" % (key, lab), "a proof suspended before step(s) %s of %d differs from the uninterrupted one" % (lab, n))
        sub_.case("%s:%s" % (key, lab))


def item_runner(sub_, item):
    """client and prover as shipped (state dumped at every step), serialised proof"""
    _, m, cfg = item
    key = "%d:%s" % (m, "/".join(map(str, cfg)))
    env.RNG.reset("p34runner")
    rn = cl.BulletproofMPCRunner()

    async def msg(p1=0, p2=0, params=None, buffers=None):
        return await rn.step(p1, p2, params, buffers)
    c = cl.BulletproofClient(m, msg)
    c.off_method, c.nprime_thresh, c.off2_thresh, c.batching = cfg
    p = attempt(lambda: env.run(c.compute_bp()))
    bp.set_prng(None)
    sub_.case("runner" + key)
    sub_.add(states=1, transitions=c.n_msgs, traces=1)
    if isinstance(p, Exception):
        sub_.violation("runner:" + key, "proving fails: %r" % p)
        return
    verify(sub_, fields(p), [137 * i for i in range(m)], [991 * i for i in range(m)], "runner" + key)


def item_random(sub_, item):
    """masks that are not reproducible: refused, or a valid proof - with and without suspension"""
    _, m, cfg = item
    key = "%d:%s" % (m, "/".join(map(str, cfg)))
    am, ms = vals(m)
    for lab, susp in (("none", lambda k: False), ("all", lambda k: True)):
        r = attempt(lambda: prove(am, ms, cfg, susp, key, det=False))
        sub_.add(states=1, transitions=1)
        sub_.case("random:%s:%s" % (key, lab))
        if not isinstance(r, Exception):
            verify(sub_, r[0], am, ms, "random:%s:%s" % (key, lab))


def run(chk):
    chk.rule = ("a proof made step by step with the state dumped and reloaded at any set of step boundaries (each, all, all but one; pairs) equals the "
                "uninterrupted proof and is valid")
    chk.assumptions = ["native scalar objects inside a dumped state are carried by reference or re-encoded; in-memory transport"]
    deep = chk.thorough
    slow = env.BACKEND == "0"
    items = []
    if slow:
        pts = [(1, (2, 32, 32, 32), 0)]
        items += [(item_config, 1, (me, 16, 16, 16)) for me in range(4)]
    else:
        grid = [(1, c) for c in itertools.product(range(4), (16, 32, 64), (16, 32), (8, 16, 32)) if c[2] <= c[1]]
        grid += [(2, c) for c in itertools.product(range(4), (16, 32, 64) if deep else (32,), (8, 16, 32) if deep else (16,), (16, 32) if deep else (32,)) if c[2] <= c[1]]
        grid += [(m, (me, 32, 32, 32)) for me in range(4) for m in ((3, 4, 8) if deep else (3,))] + ([(16, (3, 64, 32, 32)), (16, (2, 64, 32, 64))] if deep else [])
        items += [(item_config, m, c) for m, c in grid]
        pts = [(1, (me, 16, 16, 16), deep and me > 0) for me in range(4)] + [(2, (me, 32, 16, 32), deep and me > 1) for me in range(4) if deep or me in (1, 3)]
        if deep:
            pts += [(4, (me, 32, 32, 32), False) for me in range(4)]
        items += [(item_runner, m, c) for m, c in ([(2, (me, 32, 16, 32)) for me in range(4)] + ([(4, (me, 64, 32, 32)) for me in range(4)] if deep else []))]
        items += [(item_random, m, (me, 32, 16, 16)) for me in range(4) for m in (1, 2)]
    for m, c, pairs in pts:
        P = 8 if not pairs else 32
        items += [(item_points, m, c, k, P, pairs) for k in range(P)]
    pmap(chk, lambda s, it: it[0](s, it), items, limit=850)
    both.other_backend(chk, "P34", "quick")
