"""P07: a completed signing session yields a transaction the network accepts.

Every configuration of a cube (inputs x outputs x ring x real position x hard fork x client generation x range-proof
batching x account x subaddress inputs x unlock time x permutation) is driven through the real device by the
reference host; each must complete and verify independently."""
import itertools

from mc import env, world
from mc.check import pmap
from mc.explore import *


def build(c):
    """c: dict of parameters -> Spec"""
    n_in, n_out = c["ni"], c["no"]
    acct = c.get("acct", 0)
    ins = []
    for i in range(n_in):
        kind = c.get("kinds", "msaM")[i % len(c.get("kinds", "msaM"))]
        # main / subaddress / subaddress with additional keys / main with additional keys present
        major, minor = (acct, 0) if kind in "mM" else (acct, 1 + i)
        if kind not in "mM" and "minor" in c:
            minor = c["minor"]
        amt = c["amts"][i] if "amts" in c else 20000 * (i + 1) + 3 * i
        ins.append(inp("c%d%s" % (i, c.get("seed", "")), amt, major=major, minor=minor, oidx=c.get("oidx"), gbase=c.get("gbase"),
                       additional=kind in "aM", ring=c.get("ring", 3),
                       real=None if c.get("real") is None else c["real"] % c.get("ring", 3)))
    tot = sum(x.amount for x in ins)
    outs = []
    okinds = c.get("outs", "ss")
    for i in range(n_out - (1 if c.get("change", True) else 0)):
        k = okinds[i % len(okinds)]
        amt = c["oamts"][i] if "oamts" in c else 100 + i
        outs.append(std(amt, i % 4) if k == "s" else sub(amt, i % 4, 0, 3 + i))
    fee = c.get("fee", 1234)
    rest = tot - fee - sum(o.amount for o in outs)
    if c.get("change", True):
        outs.append(chg(rest, acct))
    else:
        outs[-1].amount += rest
    order = c.get("chpos", "last")
    if order == "first" and c.get("change", True):
        outs = [outs[-1]] + outs[:-1]
    change = [i for i, o in enumerate(outs) if o.kind == "chg"]
    return Spec("cfg", ins, outs, change=change[0] if change else None, pid=c.get("pid", b""), hf=c.get("hf", 10),
                cv=c.get("cv", 1), account=acct, unlock=c.get("unlock", 0), grouping=c.get("grp"),
                rsig_type=2 if c.get("grp") else None)


def partitions(n):
    """compositions of n into powers of two"""
    if n == 0:
        return [[]]
    r = []
    for b in (1, 2, 4, 8, 16):
        if b <= n:
            r += [[b] + x for x in partitions(n - b)]
    return r


def configs(thorough):
    cs = []
    gens = [(10, 1), (10, 0), (9, 1), (9, 0)]
    # inputs x outputs x generation
    for ni, no, (hf, cv) in itertools.product((1, 2, 3), (1, 2, 3), gens):
        if no == 1:
            cs.append(dict(ni=ni, no=no, hf=hf, cv=cv, change=False))
        else:
            cs.append(dict(ni=ni, no=no, hf=hf, cv=cv))
    # ring sizes and real positions
    for ring in (2, 3, 5) if not thorough else (2, 3, 4, 5, 7, 11):
        for real in range(ring):
            cs.append(dict(ni=1, no=2, ring=ring, real=real, seed="r%d" % real))
            if ring <= 3:
                cs.append(dict(ni=2, no=2, ring=ring, real=real, seed="r%d" % real, hf=9, cv=0))
    # batching of delegated proofs
    for no in (3, 4) if not thorough else (3, 4, 5, 6):
        for grp in partitions(no):
            for hf, cv in gens:
                if not thorough and no == 4 and (hf, cv) in ((9, 1), (10, 0)):
                    continue
                cs.append(dict(ni=1, no=no, grp=grp, hf=hf, cv=cv))
    # accounts, input kinds, change position, unlock times, fee
    for acct, kinds in itertools.product((0, 2), ("m", "s", "a", "M", "sa", "ms")):
        cs.append(dict(ni=len(kinds), no=2, acct=acct, kinds=kinds))
    for chpos, change, outs in itertools.product(("last", "first"), (True, False), ("s", "S", "sS")):
        cs.append(dict(ni=1, no=3, chpos=chpos, change=change, outs=outs))
        cs.append(dict(ni=2, no=2, chpos=chpos, change=change, outs=outs, hf=9, cv=1))
    for u in (1, 127, 128, 2 ** 32, 2 ** 63):
        cs.append(dict(ni=1, no=2, unlock=u))
    for f in (0, 1, 127, 128, 16383, 16384, 19999 - 100):
        cs.append(dict(ni=1, no=2, fee=f))
    for pid in (bytes(8), b"\xff" * 8, bytes(range(8))):
        cs.append(dict(ni=1, no=2, pid=pid))
    for pid in (bytes(32), b"\x01" * 32):
        cs.append(dict(ni=1, no=3, pid=pid))
    # amounts: every power of two as what goes to the recipient, as change and as fee; parts that add up to the largest amount
    U = 2 ** 64 - 1
    for b in range(0, 64) if thorough else (0, 7, 8, 16, 31, 32, 33, 48, 53, 62, 63):
        for d in (-1, 0, 1):
            v = 2 ** b + d
            if 0 <= v <= U - 2000:
                cs.append(dict(ni=1, no=2, ring=2, amts=[v + 2000], oamts=[v], fee=5))
                cs.append(dict(ni=1, no=2, ring=2, amts=[v + 2000], oamts=[1995], fee=5, hf=9, cv=b % 2))
    cs.append(dict(ni=1, no=2, ring=2, amts=[U], oamts=[1], fee=0))
    cs.append(dict(ni=1, no=2, ring=2, amts=[U], oamts=[U], fee=0))
    cs.append(dict(ni=1, no=2, ring=2, amts=[U], oamts=[0], fee=U))
    cs.append(dict(ni=3, no=3, ring=2, amts=[2 ** 63, 2 ** 63 - 2, 1], oamts=[2 ** 62, 2 ** 63 + 5], fee=7))
    cs.append(dict(ni=3, no=3, ring=2, amts=[0, 1, U - 1], oamts=[2 ** 32, 0], fee=2 ** 32, hf=9, cv=0))
    cs.append(dict(ni=2, no=2, ring=2, amts=[0, 100], oamts=[0], fee=100))
    # positions of ring members in the chain, of the output in its transaction, of the subaddress
    for g in (0, 126, 127, 16383, 2 ** 21, 2 ** 31, 2 ** 32 - 2, 2 ** 32, 2 ** 53, 2 ** 62):
        cs.append(dict(ni=2, no=2, gbase=g, ring=2))
    for o in (0, 1, 15, 127, 128, 300):
        for kinds in ("m", "s", "a", "M"):
            cs.append(dict(ni=1, no=2, oidx=o, kinds=kinds, ring=2))
    for acct in (0, 1, 255, 256, 65536, 2 ** 31, 2 ** 32 - 1):
        for minor in (0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
            if (acct, minor) != (0, 0) and (thorough or acct in (0, 256) or minor in (0, 128, 2 ** 32 - 1)):
                for kinds in ("s", "a"):
                    cs.append(dict(ni=1, no=2, acct=acct, minor=minor, kinds=kinds, ring=2))
    # wide shapes
    for n in (6, 8, 9, 16, 17) if not thorough else range(6, 34):
        for hf, cv in gens if thorough else gens[:1] + gens[-1:]:
            cs.append(dict(ni=n, no=2, ring=2, hf=hf, cv=cv))
    for n in (8, 16) if not thorough else range(6, 17):
        for outs in ("s", "sS"):
            cs.append(dict(ni=1, no=n, ring=2, outs=outs))
    for ring in (11, 12, 16, 17, 32) if not thorough else range(12, 66):
        for real in (0, ring - 1):
            cs.append(dict(ni=1, no=2, ring=ring, real=real))
    if thorough:
        cs += [dict(ni=4, no=no, hf=hf, cv=cv, kinds="msaM") for no in (2, 5, 8) for hf, cv in gens]
        cs += [dict(ni=1, no=16), dict(ni=1, no=17), dict(ni=2, no=9, hf=9, cv=0)]
        cs += [dict(ni=5, no=2, kinds="msaM"), dict(ni=8, no=2), dict(ni=17, no=2, ring=2)]
    else:
        cs += [dict(ni=5, no=5, ring=2), dict(ni=1, no=9, ring=2)]
    # an order of the inputs other than the sorted one
    for perm in itertools.permutations(range(3)):
        cs.append(dict(ni=3, no=2, ring=2, perm=list(perm)))
        cs.append(dict(ni=3, no=2, ring=2, perm=list(perm), hf=9, cv=0))
    return cs


def case(sub_, item):
    name, cs = item
    for c in cs:
        key = ",".join("%s=%s" % (k, v.hex() if isinstance(v, bytes) else v) for k, v in sorted(c.items()))
        spec = build(c)
        dev, h = Dev(spec.owner), Host(spec, c.get("perm"))
        logs = []
        res = h.run(dev, record=logs)
        sub_.add(states=1, transitions=len(logs))
        sub_.case(key)
        if res is not None:
            sub_.violation("refused:" + key, "well-formed transaction %s refused at %s: %s" % (
                key, res[0], str(getattr(res[1], "message", res[1]))[-500:]), c)
            continue
        bad = world.verify_tx(world.TxResult(h))
        for asp, msg in bad:
            sub_.violation("%s:%s" % (asp, key), "%s: %s" % (key, msg), c)
        if not bad:
            sub_.add(traces=1)


def run(chk):
    chk.rule = "every configuration of the cube listed in checks/p07.py; distinct parameter vectors"
    chk.assumptions = ["mc/ref.py implements the Monero rules (cross-validated at setup)",
                       "sorted key images are the host's duty"]
    cs = configs(chk.thorough)
    cs.sort(key=lambda c: -(c["ni"] * 2 + c["no"] * 3))
    n = 64
    items = [("c%d" % i, cs[i::n]) for i in range(n) if cs[i::n]]
    chk.extra["configurations"] = len(cs)
    chk.sample(str(cs[0]))
    pmap(chk, case, items, limit=800)
