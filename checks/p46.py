"""P46: the transaction builder emits the transaction asked for.

Builder programs are enumerated: all vectors of inputs (main / subaddress, found by the main or an additional key) up to length 3, all vectors of destinations (standard, subaddress,
integrated address) up to length 3 with every kind of change, payment ID and any number of shuffles at any place, for several accounts, ring sizes and networks.
A reference wallet checks every source (owner, index, key image, amount, commitment, ring), transfer record, destination, change, index set and the extra; the built set survives serialisation;
and for a menu of programs the real host agent and device sign what was built and the transaction verifies independently."""
import contextlib
import io
import itertools

from mc import env, hostagent, ref, world
from mc.check import pmap

env.install_rng()

from monero_glue.hwtoken import misc
from monero_glue.xmr import crypto, monero, transaction_builder
from monero_serialize import xmrtypes
from checks.p36 import attempt

SRC = world.SENDER
DST = world.RCPT[:2]
INS = [("m", 0, False), ("M", 0, True), ("s", 3, False), ("S", 7, True)]     # name, minor, additional keys
OUTS = [("std", 0, 0), ("sub", 1, 0), ("sub2", 2, 9), ("int", 0, 0)]
IPID = bytes(range(1, 9))
TAGS = ref.ADDR_TAGS


def builder(account=0, ring=3, fee=1000, net=1, seed=b"x"):
    b = transaction_builder.TransactionBuilder()
    b.prng.seed(seed)
    b.src_keys = world.creds_of(SRC)
    b.dest_keys = [world.creds_of(w) for w in DST]
    b.ring_size, b.fee, b.nettype, b.account_idx = ring, fee, net, account
    return b


class Prog:
    """a program and what is expected of it"""

    def __init__(self, ins, outs, change, pid, shuf, account=0, ring=3, fee=1000, net=1):
        self.ins, self.outs, self.change, self.pid, self.shuf, self.account, self.ring, self.fee, self.net = ins, outs, change, pid, shuf, account, ring, fee, net
        self.key = "in=%s:out=%s:chg=%s:pid=%d:shuf=%d:acc=%d:ring=%d:fee=%d:net=%d" % (
            "".join(i[0] for i in ins), "+".join(o[0] for o in outs), change, len(pid), shuf, account, ring, fee, net)

    def amounts(self):
        a_in = [10 ** 9 + 7 * i for i in range(len(self.ins))]
        a_out = [10 ** 7 + 3 * i for i in range(len(self.outs))]
        return a_in, a_out

    def build(self):
        b = builder(self.account, self.ring, self.fee, self.net)
        a_in, a_out = self.amounts()
        for (n, minor, add), a in zip(self.ins, a_in):
            env.run(b.gen_input(a, sub_minor=minor, additionals=add))
        for i, (o, a) in enumerate(zip(self.outs, a_out)):
            env.run(b.gen_output(a, dest=b.dest_keys[i % 2], sub_major=o[1], sub_minor=o[2], payment_id=IPID if o[0] == "int" else None))
        if self.change == "auto":
            env.run(b.gen_change())
        elif self.change != "none":
            env.run(b.gen_change(int(self.change)))
        for _ in range(self.shuf):
            env.run(b.shuffle_outputs())
        if self.pid:
            env.run(b.set_payment_id(self.pid))
        env.run(b.build())
        return b

    def want_outs(self):
        a_in, a_out = self.amounts()
        r = []
        for i, (o, a) in enumerate(zip(self.outs, a_out)):
            w = DST[i % 2]
            kind = {"std": 0, "int": 1}.get(o[0], 2)
            S, V = w.addr_enc(o[1], o[2])
            r.append((S, V, a, kind == 2, kind == 1, address(self.net, kind, S, V)))
        chg = None
        if self.change != "none":
            S, V = SRC.addr_enc(self.account, 0)
            a = int(self.change) if self.change != "auto" else sum(a_in) - sum(a_out) - self.fee
            chg = (S, V, a, self.account != 0, False, address(self.net, 2 if self.account else 0, S, V))
        return r, chg


def address(net, kind, S, V):
    return ref.addr_encode(TAGS[net][kind], S + V + (IPID if kind == 1 else b"")).encode()


def dst(e):
    o = getattr(e, "original", b"")      # not part of the serialised form
    return (bytes(e.addr.m_spend_public_key), bytes(e.addr.m_view_public_key), e.amount, bool(e.is_subaddress), bool(getattr(e, "is_integrated", False)), o.encode() if isinstance(o, str) else bytes(o))


class Src:
    """a built source in the form of mc/world.py's Inp, recomputed from the secret keys"""

    def __init__(self, s, index):
        self.idxs = [x[0] for x in s.outputs]
        self.ring = [(bytes(x[1].dest), bytes(x[1].mask)) for x in s.outputs]
        self.real, self.amount, self.minor = s.real_output, s.amount, index[1]
        self.P, self.C = self.ring[self.real]
        got = SRC.receive(self.P, s.real_output_in_tx_index, bytes(s.real_out_tx_key), [bytes(k) for k in s.real_out_additional_tx_keys] or None, [index])
        self.ok = got is not None
        if self.ok:
            self.x = SRC.spend_key(got[0], got[1], s.real_output_in_tx_index)
            self.ki = ref.enc(ref.key_image(self.x, self.P))
            self.ok = ref.enc(ref.mulG(self.x)) == self.P


def check(p, v, b=None, uns=None):
    """compares what was built with what was asked for"""
    a_in, a_out = p.amounts()
    uns = uns or b.unsigned_tx
    if len(uns.txes) != 1:
        return v("txes", len(uns.txes))
    tx = uns.txes[0]
    if len(tx.sources) != len(p.ins) or len(uns.transfers) != len(p.ins) or list(tx.selected_transfers) != list(range(len(p.ins))):
        return v("inputs", "%d sources, %d transfers, selected %s" % (len(tx.sources), len(uns.transfers), tx.selected_transfers))
    seen = set()
    for i, s in enumerate(tx.sources):
        idx = (p.account, p.ins[i][1])
        q = Src(s, idx)
        if not q.ok:
            v("owner", "source %d is not spendable by %s" % (i, idx))
            continue
        if s.amount != a_in[i] or ref.enc(ref.commit(ref.dec_sc(bytes(s.mask)), s.amount)) != q.C or not s.rct:
            v("amount", "source %d: amount or commitment" % i)
        if len(s.outputs) != p.ring or not 0 <= s.real_output < p.ring or len(set(q.ring)) != p.ring:
            v("ring", "source %d" % i)
        if any(y <= x for x, y in zip(q.idxs, q.idxs[1:])):
            v("ring-order", "source %d: indices %s" % (i, q.idxs))
        if bool(s.real_out_additional_tx_keys) != p.ins[i][2]:
            v("additional", "source %d" % i)
        for d, c in q.ring:
            ref.dec(d), ref.dec(c)
        seen.add(q.ki)
        t = uns.transfers[i]
        if (t.m_internal_output_index, t.m_global_output_index, t.m_amount, bytes(t.m_mask)) != (s.real_output_in_tx_index, q.idxs[s.real_output], s.amount, bytes(s.mask)):
            v("transfer", "record %d differs from its source" % i)
        if (t.m_subaddr_index.major, t.m_subaddr_index.minor) != idx or bytes(t.m_key_image) != q.ki or not t.m_rct or t.m_spent:
            v("transfer", "record %d: index, key image or flags" % i)
        if bytes(t.m_tx.vout[t.m_internal_output_index].target.key) != q.P:
            v("transfer", "record %d: the transaction does not hold the output" % i)
        ex = ref.parse_extra(bytes(t.m_tx.extra))
        if ex["pub"] != [bytes(s.real_out_tx_key)] or (ex["additional"] or []) != [bytes(k) for k in s.real_out_additional_tx_keys]:
            v("transfer", "record %d: keys in the extra" % i)
        if p.ins[i][2] and len(s.real_out_additional_tx_keys) != len(t.m_tx.vout):
            v("transfer", "record %d: number of additional keys" % i)
    if len(seen) != len(p.ins):
        v("inputs", "the same output twice")
    want, chg = p.want_outs()
    if b is None:
        want, chg = [w[:4] + (False, b"") for w in want], chg and chg[:4] + (False, b"")
    outs = [dst(o) for o in tx.splitted_dsts]
    exp = want + ([chg] if chg else [])
    if (sorted(outs) != sorted(exp)) if p.shuf else (outs != exp):
        v("outputs", "%s" % (outs,))
    dests = [dst(o) for o in tx.dests]
    if (sorted(dests) != sorted(want)) if p.shuf else (dests != want):
        v("dests", "%s" % (dests,))
    if (tx.change_dts is None) != (chg is None) or chg and dst(tx.change_dts) != chg:
        v("change", "%s" % (tx.change_dts and dst(tx.change_dts),))
    if tx.subaddr_account != p.account or sorted(tx.subaddr_indices) != sorted({x[1] for x in p.ins}):
        v("subaddr", "account %s, indices %s" % (tx.subaddr_account, list(tx.subaddr_indices)))
    nonce = ref.parse_extra(bytes(tx.extra))["nonce"]
    if nonce != ([] if not p.pid else [(b"\x01" if len(p.pid) == 8 else b"\x00") + p.pid]):
        v("extra", "nonces %s" % nonce)
    if tx.unlock_time != 0 or not tx.use_rct:
        v("misc", "unlock time or type")
    if b is not None:
        infos = [(bytes(crypto.encodepoint(x.creds.spend_key_public)), x.major, x.minor, x.payment_id) for x in b.outputs_extra]
        exi = {}
        for i, o in enumerate(p.outs):
            w = DST[i % 2]
            exi[dst_key(want[i])] = (ref.enc(w.B), o[1], o[2], IPID if o[0] == "int" else None)
        if chg:
            exi[dst_key(chg)] = (ref.enc(SRC.B), p.account, 0, None)
        for o, inf in zip(outs, infos):
            if exi.get(dst_key(o)) != inf:
                v("pairing", "description %s of output %s" % (inf, o))


def dst_key(d):
    return d[0], d[2]


def one(sub, p):
    v = lambda what, d: sub.violation("%s:%s" % (what, p.key), "%s" % (d,))
    sub.add(states=1, transitions=len(p.ins) + len(p.outs) + 2)
    r = attempt(p.build)
    if r[0]:
        return v("build", repr(r[1]))
    b = r[1]
    r = attempt(lambda: check(p, v, b))
    if r[0]:
        return v("malformed", repr(r[1]))
    if p.change != "none":      # the serialised form has no way to say that there is no change
        r = attempt(lambda: bytes(env.run(b.serialize_unsigned())))
        if r[0]:
            return v("serialise", repr(r[1]))
        m = xmrtypes.UnsignedTxSet()
        q = attempt(lambda: env.run(misc.parse_msg(r[1], m)))
        if q[0]:
            return v("parse", repr(q[1]))
        check(p, lambda w, d: v("reloaded-" + w, d), None, m)
    # asking for the description or the change index changes nothing
    tx = b.unsigned_tx.txes[0]
    chg = p.want_outs()[1]
    keys = world.creds_of(SRC)
    with contextlib.redirect_stdout(io.StringIO()):
        r = attempt(lambda: env.run(b.describe(b.unsigned_tx, keys)))
    if r[0]:
        v("describe", repr(r[1]))
    r = attempt(lambda: env.run(b.find_change_idx(tx)))
    if chg:
        if r[0] or r[1] is None or dst(tx.splitted_dsts[r[1]])[:3] != chg[:3]:
            v("change-index", repr(r[1]))
    check(p, lambda w, d: v("later-" + w, d), b)
    sub.case("built")


def sign(sub, p):
    v = lambda what, d: sub.violation("%s:%s" % (what, p.key), "%s" % (d,))
    r = attempt(p.build)
    if r[0]:
        return v("build", repr(r[1]))
    con = r[1].unsigned_tx.txes[0]
    ins = [Src(s, (p.account, i[1])) for s, i in zip(con.sources, p.ins)]
    if not all(i.ok for i in ins):
        return v("owner", "")
    chg = p.want_outs()[1]
    outs, ci = [], None
    table = {}
    for i, o in enumerate(p.outs):
        table[dst_key(p.want_outs()[0][i])] = (DST[i % 2], o[1], o[2])
    if chg:
        table[dst_key(chg)] = (SRC, p.account, 0)
    for k, o in enumerate(con.splitted_dsts):
        w, ma, mi = table[dst_key(dst(o))]
        x = world.Out("self", o.amount, owner=w, major=ma, minor=mi)
        outs.append(x)
        if chg and dst(o) == chg:
            ci = k
    class S(world.Spec):
        def construction(self):
            return con
    spec = S(p.key, ins, outs, change=ci, pid=p.pid, hf=10, cv=1, account=p.account, ring=p.ring)
    link, ag, blob, exc = hostagent.sign(spec)
    sub.add(states=len(link.sent), transitions=len(link.sent), traces=1)
    if blob is None:
        return v("sign", "signing failed: %r" % (exc,))
    for x in hostagent.problems(blob, spec):
        v("signed", x)
    sub.case("signed")


def change_addr(sub, accounts):
    """the helper which gives the change address of an account"""
    b = builder()
    for a in accounts:
        r = attempt(lambda: env.run(b.primary_change_address(world.creds_of(SRC), a)))
        sub.add(states=1, transitions=1)
        if r[0] or (bytes(r[1].m_spend_public_key), bytes(r[1].m_view_public_key)) != SRC.addr_enc(a, 0):
            sub.violation("primary-change:%d" % a, "%s" % (r[1],))
    # money cannot be made up
    for ins, outs in itertools.product((0, 1000, 5000), (0, 3999, 4000, 4001, 5000)):
        b = builder(fee=1000)
        if ins:
            env.run(b.gen_input(ins))
        if outs:
            env.run(b.gen_output(outs))
        r = attempt(lambda: env.run(b.gen_change()))
        sub.add(states=1, transitions=1)
        if (ins - outs - 1000 < 0) != r[0]:
            sub.violation("negative-change:%d:%d" % (ins, outs), "%s" % (r[1],))
        elif not r[0] and b.outputs[b.change_idx].amount != ins - outs - 1000:
            sub.violation("change-amount:%d:%d" % (ins, outs), "%d" % b.outputs[b.change_idx].amount)
    # an integrated subaddress does not exist
    b = builder()
    r = attempt(lambda: env.run(b.gen_output(5, sub_minor=1, payment_id=IPID)))
    if not r[0]:
        sub.violation("integrated-subaddress", "accepted")
    # each source of randomness answers with values of the right range and length
    b = builder()
    for n in range(0, 100):
        x = b.random_bytes(n)
        if len(x) != n:
            sub.violation("random-bytes:%d" % n, "%d bytes" % len(x))


def programs(thorough):
    n = 3
    r = []
    for k in range(1, n + 1):
        for ins in itertools.product(INS, repeat=k):
            r.append(("one", Prog(ins, [OUTS[0]], "auto", b"", 0)))
            r.append(("one", Prog(ins, [OUTS[1]], "auto", b"", 1, account=2)))
    for k in range(0, n + 1):
        for outs in itertools.product(OUTS, repeat=k):
            for change in ("none", "auto", "12345"):
                for shuf in (0, 1, 2):
                    if k + (change != "none") == 0:
                        continue
                    pid = [b"", bytes(range(32)), IPID][(k + shuf + (change == "auto")) % 3]
                    r.append(("one", Prog([INS[2], INS[0]], outs, change, pid, shuf, account=(k + shuf) % 2)))
    for ring, net, acc, pid, fee in itertools.product((1, 2, 11), (0, 1, 2), (0, 1), (b"", IPID, bytes(range(32))), (0, 10 ** 6)):
        r.append(("one", Prog([INS[3], INS[0]], [OUTS[3], OUTS[1]], "auto", pid, 1, account=acc, ring=ring, net=net, fee=fee)))
    for ins in itertools.product(INS, repeat=2):
        r.append(("sign", Prog(ins, [OUTS[0]], "auto", b"", 1, account=len(r) % 2)))
    for outs in itertools.product(OUTS[:3], repeat=2):
        r.append(("sign", Prog([INS[1], INS[2]], outs, "auto", b"", 1)))
    for pid in (IPID, bytes(range(32))):
        r.append(("sign", Prog([INS[0]], [OUTS[0]], "auto", pid, 1)))
    if thorough:
        for ring in (1, 2, 5, 11, 16):
            for ins in itertools.product(INS, repeat=3):
                r.append(("sign", Prog(ins, [OUTS[0]], "auto", b"", 1, ring=ring)))
    return r


def worker(sub, it):
    if it[0] == "misc":
        return change_addr(sub, it[1])
    (one if it[0] == "one" else sign)(sub, it[1])


def run(chk):
    chk.rule = __doc__
    progs = programs(chk.thorough)
    pmap(chk, worker, [("misc", [0, 1, 2, 3, 100, 2 ** 32 - 1])] + progs, 300)
    chk.extra["bounds"] = "%d builder programs (1-3 inputs, 0-3 destinations), %d of them signed and verified" % (len(progs), sum(1 for x in progs if x[0] == "sign"))
