"""P22: output recognition.

All combinations of (receiving address index) x (key it is found by: main / additional) x (position in the transaction) x
(subaddress table) x (owner: us, another wallet) - plus every wrong position - are scanned with the library and compared
with the reference wallet (mc/ref.py): the same output is recognised or not, with the right index, one-time secret, key
image, amount and mask.  Tables built by the library are compared with the reference for all index pairs of a grid and
for boundary indices.  Both EC backends."""
import collections
import itertools

from mc import env, ref, both
from mc.check import pmap
from mc.explore import chunks
from mc.world import SENDER, RCPT, creds_of, NET

env.install_rng()

from monero_glue.xmr import crypto, monero
from monero_serialize import xmrtypes

B32 = 2 ** 32 - 1
IDX = [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (0, 128), (B32, B32)]
AMTS = [0, 1, 2 ** 32, 2 ** 64 - 1, 123456789]


def tables(deep):
    out = [("all", IDX), ("main", [(0, 0)]), ("none", [])]
    out += [("only%d" % i, [s]) for i, s in enumerate(IDX) if i]
    out += [("no%d" % i, [s for s in IDX if s != IDX[i]]) for i in range(len(IDX))]
    return out


def table(cr, subs):
    t = {}
    for mj, mn in subs:
        monero.compute_subaddresses(cr, mj, [mn], t)
    return t


def tabs(sub_, part):
    for w in (SENDER, RCPT[1]):
        cr = creds_of(w)
        for mj, mns in part:
            sub_.add(states=len(mns), transitions=1)
            exp = {w.addr_enc(mj, mn)[0]: (mj, mn) for mn in mns}
            start = {b"x" * 32: (9, 9)}
            got = monero.compute_subaddresses(cr, mj, mns)
            got2 = monero.compute_subaddresses(cr, mj, mns, dict(start))
            if {bytes(k): tuple(v) for k, v in got.items()} != exp:
                sub_.violation("table:%d" % mj, "subaddress table of account %d differs: %r" % (mj, sorted(got.values())))
            if {bytes(k): tuple(v) for k, v in got2.items()} != {**exp, **start}:
                sub_.violation("table-add:%d" % mj, "extending a table of account %d" % mj)
            for mn in mns:
                D, C = monero.generate_sub_address_keys(cr.view_key_private, cr.spend_key_public, mj, mn)
                if (bytes(crypto.encodepoint(D)), bytes(crypto.encodepoint(C))) != w.addr_enc(mj, mn):
                    sub_.violation("subkeys:%d:%d" % (mj, mn), "subaddress keys of (%d, %d) differ from the definition" % (mj, mn))


class FakeTx:
    pass


def mkout(w, s, oidx, add, amount, rtype, tag):
    """one output paying (w, s) at position oidx; returns dict"""
    S, V = w.sub_pub(*s)
    issub = s != (0, 0)
    r, r2 = ref.hs(b"r" + tag), ref.hs(b"r2" + tag)
    R = ref.mul(S, r) if issub and not add else ref.mulG(r)
    adds = []
    if add:
        adds = [ref.enc(ref.mulG(ref.hs(b"add%d" % i + tag))) for i in range(oidx + 2)]
        adds[oidx] = ref.enc(ref.mul(S, r2) if issub else ref.mulG(r2))
        der = ref.derivation(V, r2)
    else:
        der = ref.derivation(V, r)
    k = ref.deriv_scalar(der, oidx)
    P = ref.enc(ref.add(ref.mulG(k), S))
    ak = k
    if rtype == 4:
        mask = ref.commitment_mask(ak)
        ec = (bytes(32), bytes(ref.ecdh_v2(amount, ak)) + bytes(24))
    else:
        mask = ref.hs(b"m" + tag)
        a, b = ref.ecdh_v1(mask, amount, ak)
        ec = (bytes(a), bytes(b))
    return dict(R=ref.enc(R), adds=adds, P=P, mask=mask, C=ref.enc(ref.commit(mask, amount)), ecdh=ec, der=der, k=k,
                amount=amount, s=s, x=(k + w.sub_sec(*s)) % ref.L)


def mktx(o, oidx, rtype, clear=0):
    tx = FakeTx()
    tx.vout = []
    for i in range(oidx + 2):
        P = o["P"] if i == oidx else ref.enc(ref.mulG(ref.hs(b"fill%d" % i)))
        tx.vout.append(xmrtypes.TxOut(amount=clear if i == oidx else 0, target=xmrtypes.TxoutToKey(key=P)))
    rv = FakeTx()
    rv.type = rtype
    rv.ecdhInfo = [xmrtypes.EcdhTuple(mask=bytes(32), amount=bytes(32)) for _ in range(oidx + 2)]
    rv.outPk = [xmrtypes.CtKey(dest=bytes(32), mask=ref.enc(ref.G)) for _ in range(oidx + 2)]
    rv.ecdhInfo[oidx] = xmrtypes.EcdhTuple(mask=o["ecdh"][0], amount=o["ecdh"][1])
    rv.outPk[oidx] = xmrtypes.CtKey(dest=o["P"], mask=o["C"])
    tx.rct_signatures = rv
    return tx


def scan(cr, subs_table, tx, o, idx, nadd=None):
    """-> None (not ours) | ("err", ..) | (index, x, ki, amount, mask)"""
    der = crypto.generate_key_derivation(crypto.decodepoint(o["R"]), cr.view_key_private)
    adds = [crypto.generate_key_derivation(crypto.decodepoint(a), cr.view_key_private) for a in o["adds"][:nadd]]
    info = monero.check_acc_out_precomp(tx.vout[idx], subs_table, der, adds, idx)
    if info.error:
        return ("err", "error flag")
    if not info.received:
        return None
    got = collections.defaultdict(int)
    outs = []
    info = monero.scan_output(cr, tx, idx, info, got, outs, False)
    mask = getattr(info, "mask", None)
    return (tuple(info.received[0]), ref.dec_sc(crypto.encodeint(info.in_ephemeral)), bytes(crypto.encodepoint(info.ki)), info.amount,
            ref.dec_sc(crypto.encodeint(mask)) if mask is not None else None, dict(got), outs)


def outputs(sub_, item):
    s, oidx, add, deep = item
    for who, w in (("us", SENDER), ("other", RCPT[2])):
        for rtype in (3, 4):
            amts = AMTS if deep or s in ((0, 0), (0, 1)) else AMTS[1:3]
            for amount in amts:
                o = mkout(w, s, oidx, add, amount, rtype, ("%s%r%d%d" % (who, s, oidx, add)).encode())
                cr = creds_of(SENDER)
                tx = mktx(o, oidx, rtype)
                for name, subs in (tables(deep) if amount == 1 and rtype == 4 else tables(deep)[:1]):
                    t = table(cr, subs)
                    key = "%s:%s:%d:%d:%d:%s:%d" % (who, s, oidx, add, rtype, name, amount)
                    ours = who == "us" and s in subs
                    rounds = []
                    for rnd in range(2):
                        try:
                            g = scan(cr, t, tx, o, oidx)
                        except Exception as e:
                            g = ("err", repr(e))
                        rounds.append(g)
                        sub_.add(states=1, transitions=1)
                    exp = None
                    if ours:
                        exp = (s, o["x"], ref.enc(ref.key_image(o["x"], o["P"])), amount, o["mask"], {s: amount}, [oidx])
                    if rounds[0] != exp:
                        sub_.violation("scan:" + key, "scanned %r expected %r" % (rounds[0], exp))
                    elif rounds[1] != exp:
                        sub_.violation("rescan:" + key, "second scan of the same transaction gives %r" % (rounds[1],))
                    # helper used by the device
                    try:
                        h = monero.generate_key_image_helper(cr, t, crypto.decodepoint(o["P"]), crypto.decodepoint(o["R"]),
                                                             [crypto.decodepoint(a) for a in o["adds"]], oidx)
                        h = (ref.dec_sc(crypto.encodeint(h[0])), bytes(crypto.encodepoint(h[1])))
                    except Exception:
                        h = None
                    if h != (exp[1:3] if exp else None):
                        sub_.violation("helper:" + key, "generate_key_image_helper: %r" % (h,))
                    sub_.case(key)
                    # every other position: not recognised
                    if amount == 1 and rtype == 4 and name == "all":
                        for j in [x for x in (0, 1, 2, 3, 127, 128, 129, 255, 256, 2 ** 32 - 1) if x != oidx]:
                            der = crypto.generate_key_derivation(crypto.decodepoint(o["R"]), cr.view_key_private)
                            for ad in ([], o["adds"]):
                                ads = [crypto.generate_key_derivation(crypto.decodepoint(a), cr.view_key_private) for a in ad]
                                try:
                                    f = monero.is_out_to_acc_precomp(t, crypto.decodepoint(o["P"]), der, ads, j)
                                except ValueError:
                                    f = None        # fewer additional keys than outputs
                                sub_.add(states=1, transitions=1)
                                if f is not None:
                                    sub_.violation("position:%s:%d" % (key, j), "output %d recognised at position %d: %r" % (oidx, j, f[0]))
                # corrupted amount or mask: an error, not a wrong amount
                if who == "us" and amount == 1:
                    for field, bit in [("amount", 0), ("amount", 63), ("C", 0)] + ([("mask", 0), ("amount", 100)] if rtype == 3 else []):
                        o2 = dict(o)
                        flip = lambda b: bytes([b[bit // 8] ^ (1 << (bit % 8)) if i == bit // 8 else b[i] for i in range(32)])
                        if field == "C":
                            o2["C"] = ref.enc(ref.commit(o["mask"], amount + 1))
                        elif field == "mask":
                            o2["ecdh"] = (flip(o["ecdh"][0]), o["ecdh"][1])
                        else:
                            o2["ecdh"] = (o["ecdh"][0], flip(o["ecdh"][1]))
                        try:
                            g = scan(cr, table(cr, IDX), mktx(o2, oidx, rtype), o2, oidx)
                        except Exception:
                            continue
                        sub_.violation("corrupt:%s:%d:%s:%d" % (s, rtype, field, bit), "corrupted %s scanned as %r" % (field, g))
    # clear amounts (before ringct)
    o = mkout(SENDER, s, oidx, add, 5, 4, b"clear%r%d%d" % (str(s).encode(), oidx, add))
    cr = creds_of(SENDER)
    tx = mktx(o, oidx, 0, clear=77)
    g = scan(cr, table(cr, IDX), tx, o, oidx)
    if g is None or g[0] != s or g[3] != 77 or g[1] != o["x"]:
        sub_.violation("clear:%s:%d" % (s, oidx), "output with a clear amount scanned as %r" % (g,))


def misc(sub_, _):
    cr = creds_of(SENDER)
    t = table(cr, IDX)
    # both found by main and additional derivation: main key wins or additional, both give a spendable key
    o = mkout(SENDER, (0, 1), 1, True, 5, 4, b"mx")
    tx = mktx(o, 1, 4)
    # no additional keys given: not recognised; too few: error or not recognised
    g = scan(cr, t, tx, dict(o, adds=[]), 1)
    sub_.expect(g is None, "no-adds", "recognised without the additional key: %r" % (g,))
    for n in (1,):
        try:
            g = scan(cr, t, tx, o, 1, n)
        except Exception:
            g = None
        sub_.expect(g is None, "few-adds", "recognised with too few additional keys: %r" % (g,))
    # a watch only wallet has no spend key: recognition works, key images do not
    w = creds_of(SENDER)
    w.spend_key_private = crypto.sc_0()
    der = crypto.generate_key_derivation(crypto.decodepoint(o["adds"][1]), w.view_key_private)
    try:
        monero.generate_key_image_helper_precomp(w, crypto.decodepoint(o["P"]), der, 1, (0, 1))
        sub_.violation("watch-only", "key image made without the spend key")
    except Exception:
        pass
    # wrong index handed in: refused
    for s in IDX:
        if s == (0, 1):
            continue
        try:
            monero.generate_key_image_helper_precomp(cr, crypto.decodepoint(o["P"]), der, 1, s)
            sub_.violation("wrong-sub:%s" % (s,), "key made for the wrong subaddress")
        except Exception:
            pass
        sub_.add(states=1, transitions=1)
    # other output types
    tx.vout[0] = xmrtypes.TxOut(amount=1, target=None)
    info = monero.check_acc_out_precomp(tx.vout[0], t, der, [], 0)
    sub_.expect(info.error, "foreign-target", "an output of another type is not flagged")


def run(chk):
    deep = chk.thorough
    chk.rule = __doc__
    grid = [(i, list(range(8 if not deep else 24))) for i in range(8 if not deep else 24)]
    grid += [(a, [0, 1, 127, 128, 255, 256, 2 ** 31, B32]) for a in (127, 128, 256, 2 ** 31, B32)]
    if env.BACKEND == "0":
        grid = [(i, list(range(4))) for i in range(4)] + grid[-5:]
    pmap(chk, tabs, list(chunks(grid, 8)))
    pos = [0, 1, 2] + ([3, 127, 128, 255] if deep else [128])
    if env.BACKEND == "0" and not deep:
        pos = [0, 1]
    pmap(chk, outputs, [(s, p, a, deep and env.BACKEND == "1") for s in IDX for p in pos for a in (False, True)])
    pmap(chk, misc, [0])
    chk.traces = chk.transitions
    both.other_backend(chk, "P22", "quick")
