"""Drive the real host agent against the real device object, with recording, replay and replacement of replies."""
import copy

from mc import env, ref

from mc import world

env.install_rng()

from monero_glue.agent import agent_lite
from monero_serialize import xmrtypes

M = world.M


class Link:
    """The device as the agent sees it.  canned: replies of an earlier honest run for the first messages; snap: device as it
    was before message len(canned); alter(n, reply) -> reply (or raises)."""

    def __init__(self, dev, canned=(), alter=None, keep=False):
        self.dev, self.canned, self.alter, self.keep = dev, canned, alter, keep
        self.sent, self.replies, self.snaps = [], [], []

    async def tsx_sign(self, msg):
        n = len(self.sent)
        msg = world.wire(msg)
        self.sent.append(copy.deepcopy(msg))
        if n < len(self.canned):
            r = copy.deepcopy(self.canned[n])
        else:
            if self.keep:
                self.snaps.append(self.dev.clone())
            env.RNG.reset("agent/%d" % n)
            r = world.wire(await self.dev.tok.tsx_sign(msg))
        self.replies.append(copy.deepcopy(r))
        env.RNG.reset("host/%d" % n)
        if self.alter:
            r = self.alter(n, r)
        return r


def new_dev(spec):
    d = world.Dev(spec.owner)
    d.rng_tag = "agent"
    return d


def make_agent(link, spec):
    ag = agent_lite.Agent(link, network_type=world.NET)
    ag.hf = spec.hf
    ag.client_version = spec.cv
    return ag


def sign(spec, dev=None, canned=(), alter=None, keep=False):
    """-> (link, agent, tx blob | None, exception | None)"""
    link = Link(dev or new_dev(spec), canned, alter, keep)
    ag = make_agent(link, spec)
    env.RNG.reset("host/start")
    con = spec.construction()
    try:
        tx = env.run(ag.sign_transaction_data(con))
        if tx is None:
            return link, ag, None, None
        blob = env.run(ag.serialized_tx())
    except Exception as e:
        return link, ag, None, e
    return link, ag, blob, None


class Tx:
    """A serialised transaction parsed independently, in the form verify_tx() takes."""

    def __init__(self, blob, spec):
        self.spec = spec
        b = bytes(blob)
        p = 0

        def take(n):
            nonlocal p
            if p + n > len(b):
                raise ValueError("transaction too short")
            r = b[p:p + n]
            p += n
            return r

        def vi():
            nonlocal p
            v, p = ref.read_varint(b, p)
            return v
        if vi() != 2:
            raise ValueError("version")
        self.unlock = vi()
        n_in = vi()
        self.vins = []
        for _ in range(n_in):
            s = p
            if take(1) != b"\x02":
                raise ValueError("input type")
            vi()
            for _ in range(vi()):
                vi()
            take(32)
            self.vins.append(b[s:p])
        self.vouts = []
        for _ in range(vi()):
            s = p
            vi()
            if take(1) != b"\x02":
                raise ValueError("output type")
            take(32)
            self.vouts.append(b[s:p])
        self.extra = take(vi())
        self.prefix_hash = ref.keccak(b[:p])
        self.rv_type = take(1)[0]
        if self.rv_type not in (3, 4):
            raise ValueError("rct type %d" % self.rv_type)
        self.fee = vi()
        n_out = len(self.vouts)
        self.ecdh = [take(8 if self.rv_type == 4 else 64) for _ in range(n_out)]
        masks = [take(32) for _ in range(n_out)]
        self.out_pk = [v[-32:] + m for v, m in zip(self.vouts, masks)]
        n_bp = vi() if self.rv_type == 4 else int.from_bytes(take(4), "little")
        self.bps, bps = [], []
        for _ in range(n_bp):
            o, q = ref.bp_parse(b[p:])
            self.bps.append(b[p:p + q])
            bps.append(o)
            p += q
        self.batches = []
        pos = 0
        for o in bps:
            size = min(n_out - pos, 1 << (len(o["L"]) - 6))
            self.batches.append((pos, pos + size))
            pos += size
        # one MLSAG per input: ring x 2 scalars and the challenge, sizes implied by the ring
        kis = [world.parse_vini(v)[2] for v in self.vins]
        by_ki = {i.ki: k for k, i in enumerate(spec.inputs)}
        self.perm = [by_ki.get(k) for k in kis]
        if None in self.perm or len(set(self.perm)) != len(spec.inputs):
            raise ValueError("key images are not those of the inputs to be spent")
        self.kis = kis
        self.sigs = []
        for j in self.perm:
            n = len(spec.inputs[j].ring)
            body = take(64 * n + 32)
            self.sigs.append(ref.varint(n) + b"".join(ref.varint(2) + body[64 * i:64 * i + 64] for i in range(n)) + body[-32:])
        self.pseudo = [take(32) for _ in range(n_in)]
        if p != len(b):
            raise ValueError("trailing data")
        self.full_hash = ref.rct_message(self.prefix_hash, self.rv_type, self.fee, self.ecdh, [k[32:] for k in self.out_pk], bps)


def _sc_pos(n):
    h = len(ref.varint(n))
    return [h + 65 * i + 1 + 32 * k for i in range(n) for k in (0, 1)] + [h + 65 * n]


def problems(blob, spec, deep_bp=True):
    """Everything wrong with a serialised transaction w.r.t. what was to be signed."""
    try:
        t = Tx(blob, spec)
    except (ValueError, IndexError, KeyError, AssertionError) as e:
        return ["the transaction cannot be parsed: %r" % e]
    out = []
    sc = [("ring signature", s[p:p + 32]) for s, i in zip(t.sigs, t.perm) for p in _sc_pos(len(spec.inputs[i].ring))]
    sc += [("range proof", b[p:p + 32]) for b in t.bps for p in (128, 160, len(b) - 96, len(b) - 64, len(b) - 32)]
    for what, x in sc:
        if int.from_bytes(x, "little") >= ref.L:
            out.append("scalar of a %s is not reduced (the network rejects it)" % what)
    if t.unlock != spec.unlock:
        out.append("unlock time %d" % t.unlock)
    if t.kis != sorted(t.kis, reverse=True):
        out.append("inputs are not sorted by key image")
    try:
        out += ["%s: %s" % x for x in world.verify_tx(t, deep_bp)]
    except (ValueError, IndexError, AssertionError, TypeError) as e:
        out.append("malformed content: %r" % e)
    return out
