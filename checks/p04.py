"""P04: outputs cannot differ from the confirmed ones.

At every output step of sessions of several shapes: every assignment (entry of output i, code of output j, both also
from another session over the same data), every field of the entry changed, every bit of the code.
The device must accept exactly the confirmed entry of that position with its own code."""
from mc import env, world, mutate
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed
from monero_glue import messages as M


def specs(thorough):
    r = [lambda: simple_spec(1, 2), lambda: simple_spec(1, 3),
         lambda: Spec("twins", [inp("tw", 9000)], [std(1000), std(1000), chg(3000)], change=2),
         lambda: simple_spec(1, 3, 9, 0), lambda: simple_spec(1, 2, 9, 0),
         lambda: Spec("subs", [inp("sb", 9000)], [sub(1000, 1), sub(1000, 1), std(70, 1)]),
         lambda: simple_spec(1, 4, rsig_type=2, grouping=[2, 2], seed="g22")]
    if thorough:
        r += [lambda: simple_spec(2, 5, rsig_type=2, grouping=[1, 4], seed="g14"), lambda: simple_spec(2, 2, 9, 1),
              lambda: simple_spec(2, 4, 9, 0)]
    return r


def explore(sub_, item):
    name, mk, thorough = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    rec2 = record(spec, "other-session")
    if rec is None:
        return
    host, steps, dev0, snaps = rec
    n = len(spec.outputs)
    dumps = [world.pb_dump(o.pb()) for o in spec.outputs]
    macs = {("A", i): bytes(rec[1][0][2].hmacs[i]) for i in range(n)}
    macs.update({("B", i): bytes(rec2[1][0][2].hmacs[i]) for i in range(n)})
    for i in range(n):
        for j in range(n):
            for s in "AB":
                for s2 in "AB":
                    if (s, i) != (s2, j):
                        sub_.expect(macs[(s, i)] != macs[(s2, j)], "mac-reuse:%s:%s%d%s%d" % (name, s, i, s2, j),
                                    "two outputs share an authentication code")

    def deliver(k, msg, lab, must):
        r = send_guard(snaps[k][0].clone(), msg)
        if r is None:
            return
        sub_.add(states=1, transitions=1)
        sub_.case("%s:%d:%s" % (name, k, lab))
        if failed(r) == must:
            sub_.violation("out:%s:%d:%s" % (name, steps[k][0][1], lab),
                           "%s at output %d (%s)" % ("accepted" if not must else "refused", steps[k][0][1], lab),
                           {"spec": spec.name, "fault": lab})

    for k, (st, m, r) in enumerate(steps):
        if st[0] != "out":
            continue
        pos = st[1]
        for i in range(n):
            for s in "AB":
                for j in range(n):
                    mm = mutate.with_value(mutate.with_value(m, ("dst_entr",), spec.outputs[i].pb()),
                                           ("dst_entr_hmac",), macs[(s, j)])
                    must = s == "A" and j == pos and dumps[i] == dumps[pos]
                    deliver(k, mm, "entry%d-code%s%d" % (i, s, j), must)
        for lab, mm in mutate.all_mutations(m, full_bits=True):
            if lab.startswith("rsig_data"):
                continue
            if lab.startswith("is_offloaded_bp"):
                continue
            same = world.pb_dump(mm) == world.pb_dump(m) if send_ok(mm) else False
            deliver(k, mm, lab, same)
        # an entry that is absent, or one accepted by replacing the whole message content
        d = m.dst_entr
        for fld, val in (("amount", d.amount + 2 ** 32), ("is_subaddress", not d.is_subaddress),
                         ("is_integrated", True), ("original", b"x")):
            if any(f[0] == fld for f in mutate.fields(d)):
                mm = mutate.with_value(m, ("dst_entr", fld), val)
                if send_ok(mm) and world.pb_dump(mm) != world.pb_dump(m):
                    deliver(k, mm, "set-" + fld, False)
        other = M.MoneroTransactionDestinationEntry(
            amount=d.amount, is_subaddress=d.is_subaddress, addr=M.MoneroAccountPublicAddress(
                spend_public_key=d.addr.view_public_key, view_public_key=d.addr.spend_public_key))
        deliver(k, mutate.with_value(m, ("dst_entr",), other), "swapped-keys", False)
        # the wallet's own change address or another recipient in place of the confirmed one
        for lab, o in (("to-change", chg(d.amount)), ("to-other", std(d.amount, 3)), ("to-sub", sub(d.amount, 3))):
            if world.pb_dump(o.pb()) != dumps[pos]:
                deliver(k, mutate.with_value(m, ("dst_entr",), o.pb()), lab, False)
    sub_.add(traces=1)
    sub_.sample({"spec": spec.name, "outputs": n})
    bad = world.verify_tx(world.TxResult(host))
    sub_.expect(not bad, "verify:" + name, "honest transaction does not verify: %s" % bad)


def wide(sub_, item):
    """the largest transaction: every (position, entry, code) of sixteen outputs"""
    name, mk = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, snaps = rec
    n = len(spec.outputs)
    macs = [bytes(rec[1][0][2].hmacs[i]) for i in range(n)]
    dumps = [world.pb_dump(o.pb()) for o in spec.outputs]
    sub_.expect(len(set(macs)) == n, "mac-reuse:" + name, "two outputs share an authentication code")
    for k, (st, m, r) in enumerate(steps):
        if st[0] != "out":
            continue
        pos = st[1]
        for i in range(n):
            mi = mutate.with_value(m, ("dst_entr",), spec.outputs[i].pb())
            for j in range(n):
                r = send_guard(snaps[k][0].clone(), mutate.with_value(mi, ("dst_entr_hmac",), macs[j]))
                sub_.add(states=1, transitions=1)
                sub_.case("%s:%d:entry%d-code%d" % (name, pos, i, j))
                must = j == pos and dumps[i] == dumps[pos]
                if failed(r) == must:
                    sub_.violation("out:%s:%d:entry%d-code%d" % (name, pos, i, j), "%s entry %d with code %d at output %d"
                                   % ("refused" if must else "accepted", i, j, pos), {"spec": spec.name})
    bad = world.verify_tx(world.TxResult(host))
    sub_.expect(not bad, "verify:" + name, "honest transaction does not verify: %s" % bad)


def send_ok(m):
    try:
        world.pb_dump(m)
        return True
    except Exception:
        return False


def run(chk):
    chk.rule = "every (output step, entry, code) combination and every single-field change; codes bit by bit"
    chk.assumptions = ["HMAC key guessing is outside (32-byte keys)", "device randomness fixed per session"]
    items = [("s%d" % i, mk, chk.thorough) for i, mk in enumerate(specs(chk.thorough))]
    wides = [("wide-cv1", lambda: simple_spec(1, 16, seed="w"))]
    if chk.thorough:
        wides += [("wide-cv0", lambda: simple_spec(1, 16, 9, 0, seed="w")),
                  ("wide-88", lambda: simple_spec(1, 16, rsig_type=2, grouping=[8, 8], seed="w"))]
    pmap(chk, lambda s, it: (wide if len(it) == 2 else explore)(s, it), wides + items, limit=600)
