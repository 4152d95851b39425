"""P08: recipients, and only they, find and spend their outputs.

All vectors of output kinds (standard / subaddress of one of several recipients, the same recipient twice, an own
subaddress) with and without change, for each kind of payment ID, both encodings of hidden amounts; the completed
transaction is handed to independent recipient wallets."""
import itertools

from mc import env, ref, world
from mc.check import pmap
from mc.explore import *

# kind letter -> output
KINDS = {
    "a": lambda amt: std(amt, 0), "b": lambda amt: std(amt, 1), "A": lambda amt: sub(amt, 0, 0, 3),
    "B": lambda amt: sub(amt, 1, 2, 0), "C": lambda amt: sub(amt, 1, 2, 5),
    "o": lambda amt: Out("self", amt, owner=SENDER, major=0, minor=0),
    "O": lambda amt: Out("self", amt, owner=SENDER, major=0, minor=4),
}


def mk(vec, change, pid, hf, cv, acct=0, zero=False):
    ins = [inp("p8-%d" % acct, 50000, major=acct, minor=0)]
    outs = [KINDS[k](1000 + 10 * i) for i, k in enumerate(vec)]
    ch = None
    if change is not None:
        c = chg(50000 - 77 - sum(o.amount for o in outs), acct)
        ch = 0 if change == "first" else len(outs)
        outs.insert(ch, c)
    elif zero:
        # sweep: everything to one destination, a zero amount dummy to a foreign address
        outs = [KINDS[vec[0]](50000 - 77), std(0, 3)]
    else:
        outs[-1].amount += 50000 - 77 - sum(o.amount for o in outs)
    return Spec("p8", ins, outs, change=ch, pid=pid, hf=hf, cv=cv, account=acct)


def case(sub_, item):
    name, cs = item
    for c in cs:
        vec, change, pid, hf, cv, acct, zero = c
        key = "%s-%s-pid%d-hf%d-cv%d-acct%d%s" % ("".join(vec), change, len(pid), hf, cv, acct, "-z" if zero else "")
        spec = mk(*c)
        dev, h = Dev(spec.owner), Host(spec)
        res = h.run(dev)
        sub_.add(states=1, transitions=len(h.script))
        sub_.case(key)
        dests = {(o.S, o.V) for i, o in enumerate(spec.outputs) if i != spec.change and o.amount}
        # outputs to the change address itself count as change
        if spec.change is not None:
            co = spec.outputs[spec.change]
            dests = {d for d in dests if d != (co.S, co.V)}
        if res is not None:
            if len(pid) == 8 and len(dests) > 1 or (len(pid) == 8 and not dests):
                sub_.count("refused_ambiguous_payment_id")
                continue
            sub_.violation("refused:" + key, "well-formed transaction %s refused at %s: %s" % (
                key, res[0], str(getattr(res[1], "message", res[1]))[-500:]), {"case": key})
            continue
        if len(pid) == 8 and len(dests) > 1:
            sub_.violation("pid-ambiguous:" + key, "an encrypted payment ID with several destinations is accepted", {"case": key})
            continue
        tx = world.TxResult(h)
        bad = world.verify_tx(tx, deep_bp=False)
        for asp, msg in bad:
            sub_.violation("%s:%s" % (asp, key), "%s: %s" % (key, msg), {"case": key})
        if bad:
            continue
        sub_.add(traces=1)
        # nobody else recognises the outputs
        ex = ref.parse_extra(tx.extra)
        owners = {id(o.w) for o in spec.outputs}
        for i, o in enumerate(spec.outputs):
            for w in RCPT_ALL:
                if w is o.w:
                    continue
                got = w.receive(tx.vouts[i][2:], i, ex["pub"][0], ex["additional"],
                                [(0, 0), (0, 3), (2, 0), (2, 5), (0, 4), (o.major, o.minor)])
                sub_.expect(got is None, "leak:%s:%d" % (key, i), "output %d is recognised by another wallet" % i)


RCPT_ALL = world.RCPT + [world.SENDER, world.OTHER]


def run(chk):
    chk.rule = "all vectors of output kinds x change x payment ID x encodings"
    chk.assumptions = ["mc/ref.py wallet implements Monero's receiving rules"]
    cs = []
    ks = "abABCO" if not chk.thorough else "abABCoO"
    for n in (1, 2):
        for vec in itertools.product(ks, repeat=n):
            for change in ("last", "first", None):
                if n + (change is not None) < 2:
                    continue
                for pid in (b"", bytes(range(1, 9)), bytes(range(32))):
                    for hf, cv in ((10, 1), (9, 0)):
                        if not chk.thorough and n == 2 and (change == "first" or len(pid) == 32) and hf == 9:
                            continue
                        cs.append((vec, change, pid, hf, cv, 0, False))
    for vec in itertools.product("aAOB", repeat=1):
        for acct in (1, 3):
            for change in ("last", "first"):
                for pid in (b"", bytes(range(1, 9))):
                    cs.append((vec, change, pid, 10, 1, acct, False))
        cs.append((vec, None, b"", 10, 1, 0, True))
        cs.append((vec, None, bytes(range(1, 9)), 10, 1, 0, True))
    trip = list(itertools.product("aAbBC", repeat=3)) if chk.thorough else \
        [tuple(v) for v in ("aAB", "ABC", "AAA", "aab", "abO", "OOA", "BAb", "aBb")]
    for vec in trip:
        for change in ("last", None):
            cs.append((vec, change, b"", 10, 1, 0, False))
            cs.append((vec, change, b"", 9, 0, 1, False))
    for n in (7, 8, 15) if not chk.thorough else range(4, 16):
        for pat in ("a", "aA", "aAO") + (("AC", "bBO", "aaaaaaaA") if chk.thorough else ()):
            cs.append(((pat * n)[:n], "last", b"", 10, 1, 0, False))
            if n < 8:
                cs.append(((pat * n)[:n], None, b"", 9, 0, 1, False))
    chk.extra["configurations"] = len(cs)
    n = 96
    pmap(chk, case, [("p%d" % i, cs[i::n]) for i in range(n)], limit=800)
