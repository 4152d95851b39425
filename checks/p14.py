"""P14: change goes only to the user's own address.

All combinations of a declared change entry (address x amount), output lists (1..3 outputs over a menu of addresses and
amounts) and account; the device's answer to the initialisation is compared with a reference rule."""
import itertools

from mc import env, world
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed


def addr_menu(acct):
    own = chg(0, acct)
    own2 = Out("self", 0, owner=SENDER, major=acct, minor=1)
    other_acct = chg(0, acct + 1)
    foreign = std(0, 0)
    fsub = sub(0, 1, 0, 3)
    import copy
    mixS = copy.copy(own)
    mixS.S = foreign.S          # own view key, foreign spend key
    mixV = copy.copy(own)
    mixV.V = foreign.V          # own spend key, foreign view key
    return [("own", own), ("ownsub", own2), ("acct", other_acct), ("foreign", foreign), ("fsub", fsub), ("mixS", mixS),
            ("mixV", mixV)]


def with_amount(o, a):
    import copy
    x = copy.copy(o)
    x.amount = a
    return x


def case(sub_, item):
    name, acct, chl, cha, thorough = item
    menu = addr_menu(acct)
    d = dict(menu)
    own = d["own"]
    change = with_amount(d[chl], cha) if chl else None
    ent = [(l, with_amount(o, a), a) for l, o in menu for a in ((0, 700) if not thorough else (0, 1, 700))]
    n = 0
    for k in (1, 2, 3):
        for outs in itertools.product(ent, repeat=k):
            if k == 3 and not thorough and len({o[0] for o in outs} & {"own", "foreign", chl}) < 2:
                continue
            n += 1
            key = "acct%d-%s:%s-%s" % (acct, chl, cha, ",".join("%s:%d" % (l, a) for l, _, a in outs))
            xs = [inp("p14", 50000, major=acct, minor=0)]
            spec = Spec("p14", xs, [o for _, o, _ in outs], change=None, change_dts=change, account=acct)
            dev, h = Dev(spec.owner), Host(spec)
            r = send_guard(dev, h.build())
            sub_.add(states=1, transitions=1)
            sub_.case(key)
            ok = not failed(r)
            sub_.add(traces=1 if ok else 0)
            if change is None:
                must_ok, must_fail = True, False
            else:
                idx = [i for i, (l, o, a) in enumerate(outs) if (o.S, o.V) == (change.S, change.V)]
                idx_amt = [i for i in idx if outs[i][2] == change.amount]
                mine = (change.S, change.V) == (own.S, own.V)
                hidden = [i for i in idx if outs[i][2] != 0 or change.amount != 0]
                must_ok = mine and bool(idx_amt)
                # paying a foreign "change" address, or change that is not among the outputs
                must_fail = (not mine and bool(hidden)) or (change.amount != 0 and not idx)
            if must_ok and not ok and any(a for _, _, a in outs):
                sub_.violation("refused:" + key, "well-formed change refused: %s" % str(getattr(r, "message", r))[-200:], {"case": key})
            if must_fail and ok:
                sub_.violation("accepted:" + key, "change %s:%s accepted with outputs %s" % (
                    chl, cha, [(l, a) for l, _, a in outs]), {"case": key})
    sub_.count("combinations", n)


def run(chk):
    chk.rule = "every combination of declared change and outputs; distinct labels"
    chk.assumptions = ["an output to the declared change address is what the user is not shown as a payment"]
    items = []
    for acct in (0, 2):
        for chl in (None, "own", "ownsub", "acct", "foreign", "fsub", "mixS", "mixV"):
            for cha in (0, 700) if not chk.thorough else (0, 1, 700):
                items.append(("a%d-%s-%d" % (acct, chl, cha), acct, chl, cha, chk.thorough))
    pmap(chk, case, items, limit=800)
