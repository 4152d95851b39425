"""P17: the host agent's signing run.

Shapes: every combination of numbers of inputs, ring sizes, numbers and kinds of outputs, payment id, protocol variant is
signed by the real agent against the real device object over the wire: the messages sent are exactly the protocol sequence
(reference host of mc/world.py), the returned serialised transaction is parsed and verified independently (mc/ref.py).
Faults: at every message of a run, every kind of bad reply - a failure, an error object, nothing, every acknowledgement type
of the protocol other than the expected one (with the contents seen in the run), an exception in the transport - the agent raises, sends no
further message and returns no transaction; also a failure after any prefix followed by a new signing, which succeeds."""
import itertools

from mc import env, ref, world, hostagent
from mc.check import pmap
from mc.world import Spec, Out, inp, chg, std, sub, simple_spec, wire
from monero_glue.agent import agent_lite
from monero_glue.protocol_base.base import TError
from monero_glue.xmr import monero

M = world.M


def kinds(n_out, mix):
    """n_out outputs, the last being the change"""
    o = []
    for i in range(n_out - 1):
        k = mix[i % len(mix)]
        o.append(std(500 + i, i % 3) if k == "s" else sub(600 + i, 1, i % 2, 3 + i))
    return o


def spec_of(n_in, n_out, mix, pid, hf, cv, ring=3, change=True, unlock=0, real=None, account=0, minors=2):
    ins = [inp("p17-%d-%d" % (ring, i), 10 ** 6 * (i + 1) + 7 * i, major=account, minor=i % minors, additional=(i == 1), ring=ring, real=real if real is None else real % ring)
           for i in range(n_in)]
    outs = kinds(n_out, mix)
    left = sum(i.amount for i in ins) - sum(o.amount for o in outs) - 137
    if change:
        outs.append(chg(left, account))
    else:
        outs.append(std(left, 2))
    name = "i%do%d%sp%dhf%dcv%dr%d%s%s" % (n_in, n_out, mix, len(pid), hf, cv, ring, "" if change else "nochg", real if real is not None else "") + ("u%d" % unlock if unlock else "") + ("a%d" % account if account else "") + ("m%d" % minors if minors != 2 else "")
    return Spec(name, ins, outs, change=len(outs) - 1 if change else None, pid=pid, hf=hf, cv=cv, ring=ring, unlock=unlock, account=account,
                change_dts=None if change else Out("chg", 0, owner=world.SENDER))


def specs(deep):
    S = []
    V = [(10, 1), (9, 1), (9, 0)]
    for hf, cv in V:
        for n_in in (1, 2, 3):
            S.append(spec_of(n_in, 2, "s", b"", hf, cv))
        for n_out in (1, 2, 3, 4, 5) + ((6, 7, 8) if deep else ()):
            for mix in ("s", "b", "sb"):
                if n_out > 1 or mix == "s":
                    S.append(spec_of(2, n_out, mix, b"", hf, cv))
        for pid in (b"12345678", b"P" * 32):
            S.append(spec_of(1, 2, "s", pid, hf, cv))
    for u in (1, 255, 2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 63 + 5) if deep else (1, 2 ** 32 + 9, 2 ** 63 + 5):
        S.append(spec_of(2, 3, "sb", b"", 10, 1, ring=2, unlock=u))
    for ring in (2, 5, 11) + ((16, 129) if deep else ()):
        for real in ((0, ring - 1) if not deep else (0, 1, ring // 2, ring - 1)):
            S.append(spec_of(2, 2, "s", b"", 10, 1, ring=ring, real=real))
    for n_out in (9, 16, 17) if deep else (16, 17):
        S.append(spec_of(1, n_out, "s", b"", 10, 1))
    S.append(spec_of(18, 2, "s", b"", 10, 1, ring=2, minors=18))
    for acc in (1, 7, 2 ** 31, 2 ** 32 - 1) if deep else (1, 2 ** 31):
        S.append(spec_of(2, 3, "sb", b"", 10, 1, ring=2, account=acc))
    for n_in in (4, 9, 17):
        S.append(spec_of(n_in, 2, "s", b"", 10, 1, ring=2))
    S.append(spec_of(2, 9, "sb", b"", 9, 0))
    S.append(spec_of(2, 2, "s", b"", 10, 1, change=False))       # sweep: zero change is supported for two outputs
    if deep:
        for n_in in (4, 5, 8):
            S.append(spec_of(n_in, 2, "s", b"", 10, 1))
        S.append(spec_of(3, 16, "b", b"", 9, 0))
    seen, out = set(), []
    for s in S:
        if s.name not in seen:
            seen.add(s.name)
            out.append(s)
    return out


def order(sub_, key, spec, sent):
    h = world.Host(spec)
    CL = {"init": M.MoneroTransactionInitRequest, "inp": M.MoneroTransactionSetInputRequest, "perm": M.MoneroTransactionInputsPermutationRequest,
          "vini": M.MoneroTransactionInputViniRequest, "allin": M.MoneroTransactionAllInputsSetRequest,
          "out": M.MoneroTransactionSetOutputRequest, "bp": M.MoneroTransactionSetOutputRequest,
          "allout": M.MoneroTransactionAllOutSetRequest, "sign": M.MoneroTransactionSignInputRequest, "final": M.MoneroTransactionFinalRequest}
    got = [m.__class__.__name__ for m in sent]
    exp = [CL[s[0]].__name__ for s in h.script]
    sub_.expect(got == exp, "order:" + key, "messages %s expected %s" % (got, exp))


def shape(sub_, spec):
    link, ag, blob, e = hostagent.sign(spec)
    sub_.add(states=len(link.sent), transitions=len(link.sent), traces=1)
    sub_.case(spec.name)
    if blob is None:
        sub_.violation("complete:" + spec.name, "signing fails after %d messages: %r" % (len(link.sent), e))
        return
    order(sub_, spec.name, spec, link.sent)
    got, want = link.sent[0].tsx_data, wire(spec.tsx_data())
    for f in ("payment_id", "unlock_time", "outputs", "change_dts", "num_inputs", "mixin", "fee", "account", "minor_indices", "client_version"):
        a, b = flat(getattr(got, f)), flat(getattr(want, f))
        if f == "minor_indices":
            a, b = sorted(set(a or [0])), sorted(set(b or [0]))
        if a != b and not (f == "change_dts" and spec.change is None):
            sub_.violation("told:%s" % f, "the device is told %s %r, expected %r" % (f, a, b), spec.name)
    for p in hostagent.problems(blob, spec):
        sub_.violation("tx:%s:%s" % (spec.name, p[:40]), p)


def flat(x):
    """nothing, empty and zero are the same on the wire"""
    if isinstance(x, (list, tuple)):
        return [flat(y) for y in x] or 0
    if isinstance(x, (bytes, bytearray)):
        return bytes(x) or 0
    return {k: flat(v) for k, v in vars(x).items()} if hasattr(x, "__dict__") else x or 0


class Boom(Exception):
    pass


def faults(sub_, item):
    spec, part, nparts = item
    link, ag, blob, e = hostagent.sign(spec)
    if blob is None:
        sub_.violation("complete:" + spec.name, "signing fails: %r" % e)
        return
    canned = link.replies
    acks = {}
    for r in canned:
        acks.setdefault(r.__class__.__name__, r)
    extra = {c.__name__: c() for c in (M.MoneroKeyImageSyncStepAck, M.MoneroGetTxKeyAck, M.MoneroLiveRefreshStepAck)}
    empty = {"empty " + n: r.__class__() for n, r in acks.items()}
    # the repo-internal error reply and the failure message
    bad = [("failure", M.Failure(code=99, message="no")), ("empty failure", M.Failure()), ("error object", TError()), ("nothing", None), ("exception", Boom())]
    for n in range(part, len(canned), nparts):
        expd = canned[n].__class__.__name__
        menu = bad + [(k, v) for k, v in list(acks.items()) + list(extra.items()) if k != expd] + [(k, v) for k, v in empty.items() if k != "empty " + expd]
        for name, rep in menu:
            def alter(k, r, n=n, rep=rep):
                if k != n:
                    return r
                if isinstance(rep, Boom):
                    raise rep
                return rep
            l2, ag2, blob2, e2 = hostagent.sign(spec, None, canned, alter)
            key = "%s:%d:%s" % (spec.name, n, name)
            sub_.add(states=1, transitions=len(l2.sent), traces=1)
            if blob2 is not None or e2 is None:
                sub_.violation("fault:" + key, "reply to message %d (%s) replaced by %s: signing returns %s" % (n, expd, name, "a transaction" if blob2 is not None else "no error"))
            elif len(l2.sent) != n + 1:
                sub_.violation("goes-on:" + key, "after the bad reply to message %d (%s replaced by %s) the host sent %d more" % (n, expd, name, len(l2.sent) - n - 1))
        sub_.case("%s:%d" % (spec.name, n))


def again(sub_, item):
    """a failed signing of the same request does not spoil the next one, on the same agent and data"""
    spec, upto = item
    dev = hostagent.new_dev(spec)

    def alter(k, r):
        return M.Failure(code=99, message="no") if k == upto else r
    link = hostagent.Link(dev, (), alter)
    ag = hostagent.make_agent(link, spec)
    con = spec.construction()
    failed = False
    try:
        env.run(ag.sign_transaction_data(con))
    except Exception:
        failed = True
    sub_.add(states=1, traces=1, transitions=len(link.sent))
    sub_.expect(failed, "nofail:%s:%d" % (spec.name, upto), "failure of message %d ignored" % upto)
    link2 = hostagent.Link(dev, (), None)
    ag.trezor = link2
    key = "again:%s:%d" % (spec.name, upto)
    try:
        env.run(ag.sign_transaction_data(con))
        blob = env.run(ag.serialized_tx())
    except Exception as e:
        sub_.violation(key, "signing the same request again after a failure at message %d fails: %r" % (upto, e))
        return
    order(sub_, key, spec, link2.sent)
    for p in hostagent.problems(blob, spec, False):
        sub_.violation("%s:%s" % (key, p[:40]), p)


def many(sub_, item):
    """several transactions in one call: every one is returned, in order; a failure of one is reported"""
    entry, menu, fail = item
    key = "many:%s:%s:%s" % (entry, "+".join(s.name for s in menu), fail)
    dev = hostagent.new_dev(menu[0])

    def alter(k, r):
        return M.Failure(code=99, message="no") if fail is not None and k == fail else r
    link = hostagent.Link(dev, (), alter)
    ag = hostagent.make_agent(link, menu[0])
    cons = [s.construction() for s in menu]
    env.RNG.reset("host/start")
    try:
        if entry == "list":
            blobs = env.run(ag.sign_tx(cons))
        elif entry == "one":
            blobs = env.run(ag.sign_tx(cons[0]))
        else:
            blobs = env.run(ag.sign_unsigned_tx(type("Set", (), {"txes": cons})()))
        e = None
    except Exception as x:
        blobs, e = None, x
    sub_.add(states=len(link.sent), transitions=len(link.sent), traces=1)
    sub_.case(key)
    if fail is not None and fail < sum(len(world.Host(s).script) for s in menu):
        sub_.expect(blobs is None and len(link.sent) == fail + 1, "many-fail:" + entry, "%s: failure of message %d: %d messages sent, returned %r" % (key, fail, len(link.sent), blobs), key)
        return
    if blobs is None or len(blobs) != len(menu):
        sub_.violation("many:" + entry, "%s: %s" % (key, "error %r" % e if blobs is None else "%d transactions returned" % len(blobs)), key)
        return
    for i, (b, s) in enumerate(zip(blobs, menu)):
        for p in hostagent.problems(b, s, False):
            sub_.violation("many-tx:%s:%s" % (entry, p[:40]), "%s: transaction %d: %s" % (key, i, p), key)


def extras(sub_, part):
    """the payment ID of the request reaches the device wherever it stands among the extra fields"""
    pk = b"\x01" + std(1).S
    more = [b"\x04" + bytes([n]) + b"".join(std(1, i % 3).V for i in range(n)) for n in (1, 2, 3)]
    p8, p32 = b"\x0a\x00\xff\x01\x02\x03\x04\x05", bytes(range(40, 72))
    nonces = [(b"", b""), (b"\x02\x09\x01" + p8, p8), (b"\x02\x21\x00" + p32, p32), (b"\x02\x09\x01" + bytes(8), bytes(8)), (b"\x02\x21\x00" + bytes(32), bytes(32)), (b"\x02\x00", b""),
              (b"\x02\x01\x01", b""), (b"\x02\x08\x01" + p8[:7], b""), (b"\x02\x0a\x01" + p8 + b"\x07", b""), (b"\x02\x09\x00" + p8, b""), (b"\x02\x09\x02" + p8, b""),
              (b"\x02\x21\x01" + p32, b""), (b"\x02\x20\x00" + p32[:31], b""), (b"\x02\x05hello", b"")]
    spec = spec_of(1, 2, "s", b"", 10, 1, ring=2)
    for k, (nonce, pid) in enumerate(nonces):
        if k % 2 != part:
            continue
        for before, after in itertools.product([()] + [c for n in (1, 2) for c in itertools.permutations([pk, more[0], more[1]], n)] + [(pk, more[2], more[0])], [(), (pk,), (more[2],), (pk, more[0])]):
            extra = b"".join(before) + nonce + b"".join(after)
            con = spec.construction()
            con.extra = list(extra)
            link = hostagent.Link(None)
            got = []

            async def init(msg):
                got.append(world.wire(msg))
                return M.Failure(code=99, message="no")
            link.tsx_sign = init
            try:
                env.run(hostagent.make_agent(link, spec).sign_transaction_data(con))
                err = None
            except Exception as x:
                err = x
            sub_.add(states=1, transitions=1, traces=1)
            have = bytes(got[0].tsx_data.payment_id or b"") if len(got) == 1 else repr(err)
            sub_.expect(have == pid, "extras:%d" % k, "payment id of extra %s: the device is told %r, expected %s" % (extra.hex(), have, pid.hex()), extra.hex())
    sub_.case("extras:%d" % part)


def integrated(sub_, item):
    """the device is told of exactly those outputs which pay an integrated address the user entered, wherever the wallet put them"""
    net, n, part = item
    pid = b"\x01\x02\x03\x04\x05\x06\x07\x08"
    std_tag, int_tag, sub_tag = ref.ADDR_TAGS[net]
    for pick in itertools.product(range(6), repeat=n):
        if pick[0] % 2 != part:
            continue
        # address number, amount number, as an integrated address or plain; the last address is a subaddress
        dsts = [(0, 500, 1), (1, 500, 1), (0, 501, 1), (1, 501, 0), (0, 502, 0), (2, 500, 0)]
        d = [dsts[i] for i in pick]
        outs = [std(a, w) if w < 2 else sub(a, 1, 0, 3) for w, a, _ in d]
        ins = [inp("p17-int", 10 ** 6, ring=2)]
        left = 10 ** 6 - sum(o.amount for o in outs) - 137
        for last in (chg(left), chg(500)):
            oo = outs + [last]
            spec = Spec("int", ins, oo, change=len(oo) - 1, pid=pid, hf=10, cv=1, ring=2)
            entered = []
            for o, (w, a, i) in zip(outs, d):
                e = ref.addr_encode(int_tag, o.S + o.V + pid) if i else ref.addr_encode(sub_tag if o.is_sub else std_tag, o.S + o.V)
                entered.append((monero.decode_addr(e if isinstance(e, bytes) else e.encode()), a))
            for perm in itertools.permutations(range(len(oo))):
                if perm != tuple(sorted(perm)) and len(set(pick)) == 1 and perm[-1] == len(oo) - 1:
                    continue
                con = spec.construction()
                con.splitted_dsts = [con.splitted_dsts[k] for k in perm]
                aux = agent_lite.SignAuxData()
                aux.destinations = entered
                dev = hostagent.Link(None)
                got = []

                async def init(msg):
                    got.append(world.wire(msg))
                    return M.Failure(code=99, message="no")
                dev.tsx_sign = init
                ag = hostagent.make_agent(dev, spec)
                ag.network_type = net
                try:
                    env.run(ag.sign_transaction_data(con, aux_data=aux))
                    err = "none"
                except Exception as x:
                    err = repr(x)
                sub_.add(states=1, transitions=1, traces=1)
                want = [k for k, j in enumerate(perm) if j < n and any((oo[j].S, oo[j].V, oo[j].amount) == (outs[t].S, outs[t].V, outs[t].amount) and d[t][2] for t in range(n))]
                have = list(got[0].tsx_data.integrated_indices or []) if got else err
                if sorted(set(have) if got else []) != want:
                    sub_.violation("integrated:%d" % n, "outputs %s, entered %s: the device is told %s, expected %s" % (perm, d, have, want), (net, pick, perm))
    sub_.case("integrated:%d:%d:%d" % item)


def work(sub_, job):
    globals()[job[0]](sub_, job[1])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    jobs = [("shape", s) for s in specs(deep)]
    fs = [spec_of(2, 2, "s", b"", 10, 1), spec_of(1, 3, "sb", b"", 10, 1)]
    if deep:
        fs += [spec_of(2, 3, "s", b"", 9, 0), spec_of(2, 2, "s", b"", 9, 0), spec_of(3, 1, "s", b"", 9, 1), spec_of(1, 5, "b", b"", 10, 1)]
    jobs += [("faults", (s, k, 8)) for s in fs for k in range(8)]
    sa = spec_of(2, 2, "s", b"", 10, 1)
    jobs += [("again", (sa, k)) for k in range(len(world.Host(sa).script))]
    if deep:
        sb = spec_of(3, 3, "s", b"", 10, 1)
        jobs += [("again", (sb, k)) for k in range(len(world.Host(sb).script))]
    sm = [spec_of(1, 2, "s", b"", 10, 1, ring=2), spec_of(2, 2, "b", b"", 10, 1, ring=2), spec_of(1, 3, "sb", b"", 10, 1, ring=2), spec_of(1, 2, "s", b"12345678", 10, 1, ring=2)]
    first = len(world.Host(sm[0]).script)
    jobs += [("many", (en, [a, b], None)) for en in ("list", "set") for a in sm for b in sm]
    jobs += [("many", ("one", [a], None)) for a in sm]
    jobs += [("many", (en, [sm[0], sm[1], sm[0]], f)) for en in ("list", "set") for f in [None] + list(range(first - 1, first + (12 if deep else 3)))]
    jobs += [("extras", p) for p in (0, 1)]
    jobs += [("integrated", (net, n, part)) for net in sorted(ref.ADDR_TAGS) for n in (1, 2) + ((3,) if deep and not net else ()) for part in (0, 1)]
    pmap(chk, work, jobs)
