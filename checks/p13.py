"""P13: only owned and correctly valued inputs are signed.

A source entry is corrupted consistently (the same wrong entry is used at every step): every single change and every
pair of changes of a menu of semantic deviations, for every input and position. A signature handed out for it must belong to a
transaction that verifies for the true output (owner, key image, amount, commitment); otherwise the device must have refused."""
import copy
import itertools

from mc import env, ref, world, mutate
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed
from checks.p04 import send_ok
from mc.ref import enc, mulG, commit, hs


class BadInp(Inp):
    """An Inp whose announced entry is edited"""

    def pb(self):
        m = self.base.pb()
        for e in self.edits:
            m = e(m)
        return m


def bad_inp(base, edits, **over):
    x = copy.copy(base)
    x.__class__ = BadInp
    x.base = base
    x.edits = edits
    # what the network sees: the ring as announced
    m = x.pb()
    try:
        x.ring = [(bytes(o.key.dest), bytes(o.key.commitment)) for o in m.outputs]
        x.idxs = [o.idx for o in m.outputs]
    except Exception:
        pass
    return x


def setter(path, val):
    return lambda m: mutate.with_value(m, path, val(mutate.get(m, path)) if callable(val) else val)


def menu(i, other, foreign):
    """(label, edit). i: the honest Inp; other: another owned Inp; foreign: Inp of another wallet"""
    r = i.real
    n = len(i.ring)
    d = (r + 1) % n
    om, fm = other.pb(), foreign.pb()
    P = lambda k: enc(mulG(hs(b"p13" + k)))
    return [
        ("amount+1", setter(("amount",), lambda v: v + 1)), ("amount-1", setter(("amount",), lambda v: v - 1)),
        ("amount=0", setter(("amount",), 0)), ("amount+2^63", setter(("amount",), lambda v: v + 2 ** 63)),
        ("mask+1", setter(("mask",), lambda v: ref.enc_sc((ref.dec_sc(bytes(v)) + 1) % ref.L))),
        ("mask0", setter(("mask",), bytes(32))), ("mask-other", setter(("mask",), om.mask)),
        ("real+1", setter(("real_output",), d)), ("real=n", setter(("real_output",), n)),
        ("real=n+9", setter(("real_output",), n + 9)),
        ("oidx+1", setter(("real_output_in_tx_index",), lambda v: v + 1)),
        ("oidx=0", setter(("real_output_in_tx_index",), 0)),
        ("txkey-rand", setter(("real_out_tx_key",), P(b"tx"))), ("txkey-other", setter(("real_out_tx_key",), om.real_out_tx_key)),
        ("txkey-foreign", setter(("real_out_tx_key",), fm.real_out_tx_key)),
        ("addkeys-none", setter(("real_out_additional_tx_keys",), [])),
        ("addkeys-rand", setter(("real_out_additional_tx_keys",), [P(b"a%d" % k) for k in range(6)])),
        ("dest-decoy", setter(("outputs", r, "key", "dest"), i.ring[d][0])),
        ("dest-rand", setter(("outputs", r, "key", "dest"), P(b"d"))),
        ("dest-other", setter(("outputs", r, "key", "dest"), other.P)),
        ("dest-foreign", setter(("outputs", r, "key", "dest"), foreign.P)),
        ("com-decoy", setter(("outputs", r, "key", "commitment"), i.ring[d][1])),
        ("com+1", setter(("outputs", r, "key", "commitment"), enc(commit(i.mask, i.amount + 1)))),
        ("com-mask+1", setter(("outputs", r, "key", "commitment"), enc(commit((i.mask + 1) % ref.L, i.amount)))),
        ("com-other", setter(("outputs", r, "key", "commitment"), other.C)),
        ("decoydest", setter(("outputs", d, "key", "dest"), P(b"dd"))),
        ("decoycom", setter(("outputs", d, "key", "commitment"), P(b"dc"))),
        ("decoy=real", setter(("outputs", d, "key"), i.pb().outputs[r].key)),
        ("minor+1", setter(("subaddr_minor",), lambda v: (v or 0) + 1)),
        ("swap-keys", lambda m: mutate.with_value(mutate.with_value(m, ("outputs", r, "key"), m.outputs[d].key),
                                                  ("outputs", d, "key"), m.outputs[r].key)),
        ("idx+1", setter(("outputs", r, "idx"), lambda v: v + 1)),
        ("foreign-all", lambda m: fm), ("foreign-amount", lambda m: mutate.with_value(fm, ("amount",), i.amount)),
    ]


def truth(x, m, acct, minors):
    """Key image of the announced real output if it is owned and opens to the declared amount, else None."""
    try:
        e = m.outputs[m.real_output]
        P, C = bytes(e.key.dest), bytes(e.key.commitment)
        mask, amount = ref.dec_sc(bytes(m.mask)), m.amount or 0
        if mask >= ref.L or not 0 <= amount < 2 ** 64 or enc(commit(mask, amount)) != C:
            return None
        subs = [(0, 0)] + [(acct, k) for k in minors]
        got = SENDER.receive(P, m.real_output_in_tx_index or 0, bytes(m.real_out_tx_key),
                             [bytes(k) for k in m.real_out_additional_tx_keys] or None, subs)
        if got is None:
            return None
        xs = SENDER.spend_key(got[0], got[1], m.real_output_in_tx_index or 0)
        return enc(ref.key_image(xs, P))
    except (IndexError, ValueError, AttributeError, TypeError):
        return None


def bases(thorough):
    r = [("main", lambda: [inp("q0", 30000), inp("q1", 7000, minor=1)], 10, 1),
         ("addl", lambda: [inp("q2", 30000, minor=1, additional=True)], 10, 1),
         ("sub9", lambda: [inp("q3", 30000, minor=2), inp("q4", 9000)], 9, 0)]
    if thorough:
        r += [("acct", lambda: [inp("q5", 30000, major=2, minor=0), inp("q6", 30000, major=2, minor=3)], 10, 1),
              ("addm", lambda: [inp("q7", 30000, additional=True), inp("q8", 100, minor=1, additional=True)], 9, 1)]
    return r


def case(sub_, item):
    name, mkins, hf, cv, which, fee_follow, todo = item
    ins = mkins()
    acct = ins[0].major
    foreign = inp("foreign", ins[which].amount, owner=OTHER)
    other = ins[(which + 1) % len(ins)] if len(ins) > 1 else inp("q-extra", 12345)
    mn = dict(menu(ins[which], other, foreign))
    for labs in todo:
        key = "%s-%d-%s%s" % (name, which, "+".join(labs), "-fee" if fee_follow else "")
        try:
            bad = bad_inp(ins[which], [mn[l] for l in labs])
            m = bad.pb()
            if not send_ok(m) or world.pb_dump(m) == world.pb_dump(ins[which].pb()):
                continue
        except Exception:
            continue  # the two edits do not combine
        declared = m.amount or 0
        true = truth(bad, m, acct, sorted({x.minor for x in ins}))
        if true is not None:
            bad.ki, bad.amount = true, declared
        sub_.count("consistent" if true is not None else "inconsistent")
        xs = list(ins)
        xs[which] = bad
        # keep the declared totals balanced so that the amount test alone cannot catch the deviation
        tot = sum(x.amount for k, x in enumerate(ins) if k != which) + (declared if fee_follow else ins[which].amount)
        if tot < 700:
            continue
        outs = [std(500), chg(tot - 500 - 99, acct)]
        spec = Spec("p13", xs, outs, change=1, hf=hf, cv=cv, fee=99, account=acct)
        dev, h = Dev(spec.owner), Host(spec)
        signed = []
        sub_.add(states=1)
        sub_.case(key)
        while not h.done:
            st = h.cur()
            try:
                msg = h.build()
            except Exception:
                break
            r = send_guard(dev, msg)
            sub_.add(transitions=1)
            if r is None or failed(r):
                break
            if st[0] == "sign" and h.get_perm()[st[1]] == which:
                signed.append(r)
            h.feed(r)
        if not signed:
            sub_.count("refused")
            continue
        if true is None:
            sub_.violation("signed:" + key, "an input that is not owned or not of the declared value is signed (%s)" % (
                labs,), {"case": key})
            continue
        # a signature was released: complete and judge the transaction against the true output
        if not h.done:
            sub_.violation("partial:" + key, "a signature for a wrong input (%s) was released" % key, {"case": key})
            continue
        pr = [x for x in world.verify_tx(world.TxResult(h), deep_bp=False) if x[0] != "dupki"]
        sub_.count("signed_valid" if not pr else "signed_invalid")
        sub_.add(traces=1)
        if pr:
            sub_.violation("signed:" + key, "input with deviation %s is signed: %s" % (labs, pr), {"case": key})


def run(chk):
    chk.rule = "every single deviation and every pair of deviations from the menu, each input; with and without balanced totals"
    items = []
    for name, mkins, hf, cv in bases(chk.thorough):
        ins = mkins()
        for which in range(len(ins)):
            labs = [l for l, _ in menu(ins[which], ins[0], ins[0])]
            todo = [(l,) for l in labs] + list(itertools.combinations(labs, 2))
            if not chk.thorough and name != "main":
                todo = [t for t in todo if len(t) == 1 or t[0].startswith(("amount", "mask", "com", "dest"))]
            for ff in (True, False):
                for i, c in enumerate(chunks(todo, 8)):
                    items.append(("%s%d%s.%d" % (name, which, ff, i), name, mkins, hf, cv, which, ff, c))
    pmap(chk, lambda s, it: case(s, it[1:]), items, limit=800)
