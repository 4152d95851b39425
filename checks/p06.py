"""P06: the transaction conserves money.

A grid of input amounts, output amounts and fees (small values and 2^63 / 2^64 boundaries, chosen so that sums agree
exactly, agree only modulo 2^64, or are off by one) goes through complete sessions of the real device.  It completes
exactly when the integers balance, and what it completes is verified independently (commitments + fee balance)."""
import itertools

from mc import env, world
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed

U = 1 << 64
BIG = [0, 1, 5, 1 << 63, U - 1, U - 5]


def mkspec(ins, outs, fee, hf, cv, decl=None, change=True):
    xs = [inp("m%d-%d" % (i, a % U), a % U, minor=i % 2) for i, a in enumerate(ins)]
    os_ = [std(a, i % 3) for i, a in enumerate(outs[:-1])] + ([chg(outs[-1])] if change else [std(outs[-1], 3)])
    s = Spec("m", xs, os_, change=len(outs) - 1 if change else None, hf=hf, cv=cv, fee=fee)
    if decl:
        for x, d in zip(xs, decl):
            x.amount = d
    return s


def drive(spec):
    """('done', problems) or ('refused', ...); unsendable messages are refusals"""
    dev = Dev(spec.owner)
    h = Host(spec)
    while not h.done:
        try:
            m = h.build()
        except Exception as e:
            if not h.acks:
                raise
            return "refused", "host cannot go on: %r" % e
        r = send_guard(dev, m)
        if r is None or failed(r):
            return "refused", h.cur()
        h.feed(r)
    return "done", world.verify_tx(world.TxResult(h))


def case(sub_, item):
    name, cases = item
    for c in cases:
        ins, outs, fee, hf, cv, decl, change = c
        spec = mkspec(ins, outs, fee, hf, cv, decl, change)
        key = "%s-%s-%s-hf%d-cv%d-%s%s" % (",".join(map(_s, ins)), ",".join(map(_s, outs)), _s(fee), hf, cv,
                                       "d" + ",".join(map(_s, decl)) if decl else "", "" if change else "-nochg")
        real_in = sum(ins)
        out = drive(spec)
        sub_.add(states=1, transitions=len(ins) + len(outs))
        sub_.case(key)
        sane = all(0 <= x < U for x in outs) and 0 <= fee < U
        balanced = sane and real_in == sum(outs) + fee and (decl is None or list(decl) == list(ins))
        if out[0] == "done":
            sub_.count("completed")
            if not balanced:
                sub_.violation("unbalanced:" + key, "completed although inputs %s != outputs %s + fee %s (declared %s)" % (
                    ins, outs, fee, decl))
            elif out[1]:
                sub_.violation("verify:" + key, "completed transaction does not verify: %s" % out[1])
            else:
                sub_.add(traces=1)
        else:
            sub_.count("refused")
            if balanced and sum(ins) < U and not (change and outs[-1] == 0 and len(outs) == 2 and False):
                sub_.violation("balanced-refused:" + key, "balanced transaction refused at %s" % (out[1],))


def _s(x):
    for b, n in ((U, "2^64"), (1 << 63, "2^63")):
        if abs(x - b) < 1000:
            return n + ("%+d" % (x - b) if x != b else "")
    return str(x)


def run(chk):
    chk.rule = "grid of (inputs, outputs, fee); every balanced and every nearly balanced vector"
    cases, cases2 = [], []
    for i1, i2, o1, o2, f in itertools.product(BIG, repeat=5):
        d = i1 + i2 - o1 - o2 - f
        if i1 > i2:
            continue
        if d == 0 and i1 + i2 < U:
            cases2.append(([i1, i2], [o1, o2], f, 10, 1, None, True))
        elif d and d % U == 0:
            cases.append(([i1, i2], [o1, o2], f, 10, 1, None, True))
        elif d % U in (1, U - 1) and (chk.thorough or len(cases) % 3 == 0 or f in (0, 1)):
            cases.append(([i1, i2], [o1, o2], f, 10, 1, None, True))
    # small exact grid, around balance
    for o1, o2, f in itertools.product((0, 1, 2, 7), (0, 1, 3, 8), (0, 1, 2, 9)):
        if abs(10 - o1 - o2 - f) <= 2:
            (cases2 if o1 + o2 + f == 10 else cases).append(([10], [o1, o2], f, 10, 1, None, True))
    for hf, cv in ((9, 0), (9, 1), (10, 0)):
        for d in (-1, 0, 1, U, -U):
            for where in range(4):
                ins, outs, fee = [1000, 500], [700, 100, 650], 50
                if where < 3:
                    outs[where] += d
                else:
                    fee += d
                if min(outs + [fee]) < 0:
                    continue
                (cases2 if d == 0 else cases).append((ins, outs, fee, hf, cv, None, True))
    # compensating changes: fee against an output; outputs against each other with wrap-around
    for hf, cv in ((10, 1), (9, 0)):
        for d in (U, 1 << 63, U - 1):
            cases.append(([1000], [500 + d, 400], 100 - d, hf, cv, None, True))
            cases.append(([1000], [500, 400 + d], 100 + d, hf, cv, None, True))
            cases.append(([1000], [500 + d, 400 - d], 100, hf, cv, None, True))
            cases.append(([1000], [500 + d, 400], 100, hf, cv, None, True))
            # declared amount larger than the committed one by d
            cases.append(([1000], [500, 400], 100 + d, hf, cv, [1000 + d], True))
            cases.append(([1000], [500 + d, 400], 100, hf, cv, [1000 + d], True))
            cases.append(([1000], [500, 400 + d], 100, hf, cv, [1000 + d], False))
            cases.append(([1000, 7], [500, 407], 100, hf, cv, [1000 + d, 7 - d], True))
        for d in (1, -1):
            cases.append(([1000], [500, 400], 100 + d, hf, cv, [1000 + d], True))
            cases.append(([1000], [500 + d, 400], 100, hf, cv, [1000 + d], True))
            cases.append(([1000, 7], [500, 407], 100, hf, cv, [1000 + d, 7 - d], True))
    chk.extra["grid_balanced"] = len(cases2)
    if not chk.thorough:
        cases2 = cases2[::2]
    allc = cases + cases2
    chk.extra["grid"] = len(allc)
    pmap(chk, case, [("g%d" % i, c) for i, c in enumerate(chunks(allc, 48))], limit=800)
