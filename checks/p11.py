"""P11: delegated range proofs must cover every output, batch by batch.

(a) every partition vector (batch sizes 0..n+1, bounded length) is announced and a cooperative host follows it;
(b) for some partitions, every delivery pattern: at every point of the output phase every message of an alphabet (next output
    with/without a proof, stand-alone proof messages, with correct, wrong-batch, wrong-size, swapped, damaged proofs,
    'all outputs set') is tried on the real device; accepted branches are explored to the end of the session;
(c) every damaged proof element.
A completed session is verified with exactly the proofs that were delivered."""
import itertools

from mc import env, ref, world
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed

M = world.M


def mk(n, grouping, hf, cv, n_in=1):
    return simple_spec(n_in, n, hf, cv, rsig_type=2, grouping=list(grouping), seed="p11")


def plan(grouping, n):
    """outputs covered by batch: {last: (a, b)} for positive batches until n is reached; None when not coverable"""
    pos, last = 0, {}
    for g in grouping:
        if pos >= n:
            break
        if g <= 0:
            continue
        last[pos + g - 1] = (pos, pos + g)
        pos += g
    return last, pos == n


def verify_with(host, delivered, grouping):
    """verify the completed session with the proofs delivered (raw bytes, in order)"""
    n = len(host.spec.outputs)
    last, ok = plan(grouping, n)
    tx = world.TxResult.__new__(world.TxResult)
    h2 = host
    saved = h2.last_in_batch
    h2.last_in_batch = {}
    tx.__init__(h2)
    h2.last_in_batch = saved
    if not ok:
        return [("bp", "partition %s leaves outputs uncovered" % (grouping,))]
    tx.batches = [last[k] for k in sorted(last)]
    tx.bps = [canon_bp(b) for b in delivered]
    return world.verify_tx(tx)


def canon_bp(raw):
    """drop anything after the proof (ignored by the device, not part of the proof)"""
    try:
        o, p = ref.bp_parse(raw)
        return raw[:p]
    except Exception:
        return raw


def partition(sub_, item):
    name, cases = item
    for n, g, hf, cv in cases:
        key = "n%d-%s-hf%d-cv%d" % (n, ".".join(map(str, g)), hf, cv)
        spec = mk(n, g, hf, cv)
        last, full = plan(g, n)
        h = Host(spec)
        # the script of a cooperative host
        s = [x for x in h.script if x[0] not in ("out", "bp", "allout", "sign", "final")]
        for i in range(n):
            s.append(("out", i))
            if spec.offload and spec.det and i in last:
                s.append(("bp", i))
        s += [("allout", 0)] + [("sign", i) for i in range(len(spec.inputs))] + [("final", 0)]
        h.script, h.last_in_batch = s, {k: v for k, v in last.items() if v[1] <= n}
        dev = Dev(spec.owner)
        sub_.case(key)
        r = None
        while not h.done:
            st = h.cur()
            try:
                m = h.build()
            except Exception as e:      # nothing to send (e.g. cannot prove a batch reaching past the outputs)
                r = (st, e)
                break
            resp = send_guard(dev, m)
            sub_.add(transitions=1)
            if resp is None or failed(resp):
                r = (st, resp)
                break
            h.feed(resp)
        sub_.add(states=1)
        supported = full and all(0 < x <= 16 for x in g) and sum(g) == n
        if r is None:
            delivered = [(h.prove(i) if spec.offload else bytes(h.acks[("out", i)].rsig_data.rsig)) for i in sorted(last)] if full else []
            bad = verify_with(h, delivered, g) if full else [("bp", "not every output is covered by a proof")]
            sub_.count("completed")
            if bad:
                sub_.violation("completed:" + key, "session completes with partition %s of %d outputs: %s" % (list(g), n, bad),
                               {"grouping": list(g)})
            else:
                sub_.add(traces=1)
        else:
            sub_.count("refused")
            if supported:
                sub_.violation("refused:" + key, "partition %s of %d outputs is refused at %s: %s" % (
                    list(g), n, r[0], str(getattr(r[1], "message", r[1]))[-200:]))


def damaged(raw, deep):
    """(label, bytes) wrong versions of a proof"""
    o, p = ref.bp_parse(raw)
    nl = len(o["L"])
    body = bytearray(raw)
    offs = [("A", 0), ("S", 32), ("T1", 64), ("T2", 96), ("taux", 128), ("mu", 160)]
    base = 193
    offs += [("L%d" % i, base + 32 * i) for i in range(nl)]
    base = 193 + 32 * nl + 1
    offs += [("R%d" % i, base + 32 * i) for i in range(nl)]
    base += 32 * nl
    offs += [("a", base), ("b", base + 32), ("t", base + 64)]
    assert base + 96 == p
    n = len(offs)
    for k, (nm, off) in enumerate(offs):
        bits = (0,) if not deep else (0, 3, 255)
        for bit in bits:
            b = bytearray(body)
            b[off + bit // 8] ^= 1 << (bit % 8)
            yield "flip-%s-%d" % (nm, bit), bytes(b)
        nxt = offs[(k + 1) % n][1]
        b = bytearray(body)
        b[off:off + 32] = raw[nxt:nxt + 32]
        yield "copy-" + nm, bytes(b)
        b = bytearray(body)
        b[off:off + 32] = bytes(32)
        yield "zero-" + nm, bytes(b)
        b[off:off + 32] = b"\x01" + bytes(31)
        yield "one-" + nm, bytes(b)
        if nm in ("taux", "mu", "a", "b", "t"):
            v = int.from_bytes(raw[off:off + 32], "little") + ref.L
            if v < 1 << 256:
                b[off:off + 32] = v.to_bytes(32, "little")
                yield "plusL-" + nm, bytes(b)
    # structure
    def build(L, R):
        return raw[:192] + ref.varint(len(L)) + b"".join(L) + ref.varint(len(R)) + b"".join(R) + raw[p - 96:p]
    Ls = [raw[193 + 32 * i:225 + 32 * i] for i in range(nl)]
    rb = 193 + 32 * nl + 1
    Rs = [raw[rb + 32 * i:rb + 32 + 32 * i] for i in range(nl)]
    yield "drop-pair", build(Ls[:-1], Rs[:-1])
    yield "drop-L", build(Ls[:-1], Rs)
    yield "drop-R", build(Ls, Rs[:-1])
    yield "dup-pair", build(Ls + Ls[-1:], Rs + Rs[-1:])
    yield "no-LR", build([], [])
    yield "swap-LR", build(Rs, Ls)
    yield "trunc1", raw[:-1]
    yield "trunc32", raw[:-32]
    yield "empty", b""
    yield "one-byte", b"\x00"
    if deep:
        yield "swap-L01", build([Ls[1], Ls[0]] + Ls[2:], Rs)
        yield "swap-R01", build(Ls, [Rs[1], Rs[0]] + Rs[2:])
        for k in (31, 192, 193, 224, p // 2):
            yield "trunc-at-%d" % k, raw[:k]


def to_outputs(spec):
    """device and host right before the first output"""
    dev, h = Dev(spec.owner), Host(spec)
    while h.cur()[0] != "out":
        r = dev.send(h.build())
        assert not is_fail(r), r.message
        h.feed(r)
    return dev, h


def known_masks(spec):
    """masks of a reference run (same randomness, hence the same masks)"""
    dev, h = to_outputs(spec)
    while h.cur()[0] in ("out", "bp"):
        h.feed(dev.send(h.build()))
    return h.masks()


def deliveries(sub_, item):
    name, n, g, hf, cv, deep = item
    spec = mk(n, g, hf, cv)
    last, full = plan(g, n)
    masks = known_masks(spec)
    amts = [o.amount for o in spec.outputs]
    prv = world.prove_cached
    pool = {}
    for k, (a, b) in last.items():
        pool["b%d" % k] = prv(amts[a:b], masks[a:b])
    pool["all"] = prv(amts, masks)
    pool["first"] = prv(amts[:1], masks[:1])
    pool["shifted"] = prv(amts[1:], masks[1:])
    pool["reversed"] = prv(amts[::-1], masks[::-1])
    pool["swapmask"] = prv(amts[:2], masks[:2][::-1])
    pool["amount+1"] = prv([amts[0] + 1] + amts[1:max(2, list(last.values())[0][1])], masks[:max(2, list(last.values())[0][1])])
    if deep:
        for lab, raw in damaged(pool["b%d" % min(last)], False):
            if raw:
                pool["dmg-" + lab] = raw
    inv = {}
    for k, v in list(pool.items()):
        if v in inv:
            del pool[k]
        inv[v] = k
    dev0, h0 = to_outputs(spec)

    def outmsg(h, i, proof, off):
        m = M.MoneroTransactionSetOutputRequest(dst_entr=spec.outputs[i].pb(), dst_entr_hmac=h.acks[("init", 0)].hmacs[i])
        if proof is not None:
            m.rsig_data = M.MoneroTransactionRsigData(rsig=proof)
        if off:
            m.is_offloaded_bp = True
        return m

    def bpmsg(proof):
        return M.MoneroTransactionSetOutputRequest(rsig_data=M.MoneroTransactionRsigData(rsig=proof) if proof is not None else None,
                                                   is_offloaded_bp=True)

    done, seen = 0, set()
    stack = [(dev0, h0, 0, [], ())]
    while stack:
        dev, h, i, got, path = stack.pop()
        acts = [("allout", None, M.MoneroTransactionAllOutSetRequest())]
        if i < n:
            acts.append(("out", None, outmsg(h, i, None, False)))
            acts.append(("out*", None, outmsg(h, i, None, True)))
            acts += [("out", p, outmsg(h, i, v, False)) for p, v in pool.items()]
            acts += [("out*", p, outmsg(h, i, v, True)) for p, v in list(pool.items())[:3]]
        if i > 0:       # the previous output once more, with and without a proof
            acts.append(("again", None, outmsg(h, i - 1, None, False)))
            acts += [("again", p, outmsg(h, i - 1, v, False)) for p, v in list(pool.items())[:3]]
        acts.append(("bp", None, bpmsg(None)))
        acts += [("bp", p, bpmsg(v)) for p, v in pool.items()]
        for kind, p, m in acts:
            d = dev.clone()
            d.nstep = 100 + i if kind == "out" else 200 + len(path)
            r = send_guard(d, m)
            sub_.add(transitions=1)
            lab = path + (kind + (":" + p if p else ""),)
            sub_.case("%s:%s" % (name, "/".join(lab)))
            if r is None or failed(r):
                continue
            h2 = fresh_host(spec, (h.pos, h.acks, h.perm))
            # the proof counts where the protocol expects it; elsewhere it has to be refused or ignored
            is_out = kind != "allout" and bool(r.tx_out)
            got2 = got + ([pool[p]] if p and is_out != spec.det else [])
            if kind == "allout":
                h2.acks[("allout", 0)] = r
                h2.pos = h2.script.index(("sign", 0))
                end = finish(d, h2)
                sub_.count("completed" if end is None else "stopped")
                if end is not None:
                    continue
                bad = verify_with(h2, got2, g)
                if bad:
                    sub_.violation("%s:%s" % (name, "/".join(lab)), "completed with delivery %s: %s" % (lab, bad), {"path": list(lab)})
                else:
                    sub_.add(traces=1)
                    done += 1
                continue
            k = (full_digest(d), i + is_out, tuple(got2))
            if k in seen:       # e.g. an ignored attachment: same state, same delivered proofs
                continue
            seen.add(k)
            sub_.add(states=1)
            if is_out:
                h2.acks[("out", i)] = r
                h2.pos += 1
                stack.append((d, h2, i + 1, got2, lab))
            else:
                if len(lab) > 3 * n:
                    continue
                stack.append((d, h2, i, got2, lab))
    if not done:
        sub_.violation("honest:%s" % name, "no delivery completes the transaction")


def damage(sub_, item):
    """every damaged version of the proof at its correct place"""
    name, n, g, hf, cv, part, parts, deep = item
    spec = mk(n, g, hf, cv)
    dev, h = to_outputs(spec)
    want = "bp" if spec.det else "out"
    while h.cur()[0] in ("out", "bp"):
        st = h.cur()
        m = h.build()
        if st[0] == want and st[1] in h.last_in_batch:
            for k, (lab, raw) in enumerate(damaged(bytes(m.rsig_data.rsig), deep)):
                if k % parts != part:
                    continue
                m2 = world.wire(m)
                m2.rsig_data.rsig = raw
                d = dev.clone()
                r = send_guard(d, m2)
                sub_.add(transitions=1, states=1)
                sub_.case("%s:%s%d:%s" % (name, st[0], st[1], lab))
                if r is None or failed(r):
                    continue
                sub_.violation("damaged:%s:%s:%s%d" % (name, lab, st[0], st[1]), "damaged range proof (%s) accepted at %s" % (lab, st))
        r = dev.send(m)
        if is_fail(r):
            sub_.violation("damaged-honest:" + name, "honest proof refused at %s: %s" % (st, r.message[-200:]))
            return
        h.feed(r)
    end = finish(dev, h)
    if end is not None or world.verify_tx(world.TxResult(h)):
        sub_.violation("damaged-honest:" + name, "honest session fails: %s" % (end,))
    sub_.add(traces=1)


def run(chk):
    chk.rule = "every partition vector within the bounds; every delivery pattern over the alphabet; every element damaged"
    parts = []
    for n in (2, 3, 4) if not chk.thorough else (2, 3, 4, 5):
        mx = 3 if n < 4 else 2
        if chk.thorough:
            mx = n if n < 5 else 3
        for k in range(0, mx + 1):
            for g in itertools.product(range(0, n + 2), repeat=k):
                if sum(g) > n + 2 and not (k == 1):
                    continue
                for hf, cv in ((10, 1), (9, 0), (9, 1)) if (chk.thorough or sum(g) == n) else ((10, 1), (9, 0)):
                    parts.append((n, g, hf, cv))
        if n == 4:
            for g in ((1, 1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 1), (1, 1, 1, 1, 1), (2, 2, 2), (1, 2), (2, 1, 0, 1)):
                for hf, cv in ((10, 1), (9, 0)):
                    if (n, g, hf, cv) not in parts:
                        parts.append((n, g, hf, cv))
    chk.extra["partitions"] = len(parts)
    items = [("part%d" % i, c, partition) for i, c in enumerate(chunks(parts, 40))]
    for hf, cv in ((10, 1), (9, 1), (9, 0)):
        gs = [(3, (3,)), (3, (2, 1)), (4, (2, 2))]
        if chk.thorough:
            gs += [(3, (1, 2)), (3, (1, 1, 1)), (4, (1, 2, 1)), (5, (4, 1))]
        for n, g in gs:
            nm = "del-n%d-%s-hf%d-cv%d" % (n, ".".join(map(str, g)), hf, cv)
            items.append((nm, (nm, n, g, hf, cv, chk.thorough), deliveries))
        for n, g in ((3, (2, 1)), (4, (4,))) if not chk.thorough else ((3, (2, 1)), (4, (4,)), (3, (3,)), (5, (4, 1))):
            nm = "dmg-n%d-%s-hf%d-cv%d" % (n, ".".join(map(str, g)), hf, cv)
            for part in range(4):
                items.append((nm + ".%d" % part, (nm, n, g, hf, cv, part, 4, chk.thorough), damage))

    def go(s, it):
        nm, arg, fn = it
        fn(s, arg if fn is not partition else (nm, arg))
    pmap(chk, go, items, limit=800)
