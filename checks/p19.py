"""P19: range-proof batches.

All numbers of outputs 0..300 x all proof variants (and unknown ones): the planned batches are checked against the definition
(positive, powers of two unless one proof covers everything, not above the maximum, exact sum, nothing else in between).
For each number of outputs up to the protocol's maximum the real agent prepares the signing request for the real device: the
batches it announces are those, the device accepts them, asks the host to prove exactly when there are more than two outputs,
and the proofs delivered cover every output exactly once in order."""
from mc import env, ref, world, hostagent
from mc.check import pmap
from checks.p17 import spec_of

from monero_glue.agent import agent_lite

M = world.M
MAXB = 16


def plan(sub_, ns):
    for n in ns:
        for use_bp in (False, True):
            t = agent_lite.get_rsig_type(use_bp, n)
            sub_.add(states=1, transitions=1)
            exp = 0 if not use_bp else (2 if n > MAXB else 3)
            sub_.expect(t == exp, "type:%s:%d" % (use_bp, n), "range proof type %r for %d outputs" % (t, n))
        for t in (0, 1, 2, 3, 4, 5, -1, 255):
            key = "%d:%d" % (t, n)
            sub_.add(states=1, transitions=1)
            try:
                b = list(agent_lite.generate_rsig_batch_sizes(t, n))
            except ValueError:
                b = None
            if b is None:
                sub_.expect(n > 0 and (t not in (0, 1, 2, 3) or (t == 3 and n > MAXB)), "refused:" + key, "no batches for %d outputs" % n)
                continue
            sub_.expect(t in (0, 1, 2, 3) or n == 0, "unknown:" + key, "batches %r for an unknown type" % b)
            sub_.expect(all(isinstance(x, int) and x > 0 for x in b) and sum(b) == n, "sum:" + key, "batches %r do not partition %d outputs" % (b, n))
            sub_.expect(all(x <= MAXB for x in b), "max:" + key, "batch above the maximum: %r" % b)
            sub_.expect(all(x & (x - 1) == 0 for x in b) or (len(b) == 1 and t == 3), "pow2:" + key, "batches %r" % b)
            if t in (0, 1):
                sub_.expect(b == [1] * n, "per-output:" + key, "batches %r" % b)
            if t == 3 and n:
                sub_.expect(b == [n], "single:" + key, "batches %r" % b)
            if t == 2:
                # as few proofs as possible: each batch is the largest power of two fitting the rest
                left, e = n, []
                while left:
                    x = min(MAXB, 1 << (left.bit_length() - 1))
                    e.append(x)
                    left -= x
                sub_.expect(b == e, "greedy:" + key, "batches %r expected %r" % (b, e))
    sub_.case(tuple(ns))


class Stop(Exception):
    pass


def device(sub_, n):
    """the agent's plan reaches the device and is followed by both"""
    for hf, cv in ((10, 1), (9, 1), (9, 0)):
        spec = spec_of(1, n, "s", b"", hf, cv)
        full = n <= 5 or n in (16, 17) and hf == 10

        def alter(k, r):
            if k == 0 and not full:
                raise Stop()
            return r
        link, ag, blob, e = hostagent.sign(spec, None, (), alter)
        key = "%d:%d:%d" % (n, hf, cv)
        sub_.add(states=len(link.sent), transitions=len(link.sent), traces=1)
        d = link.sent[0].tsx_data.rsig_data
        sub_.expect(list(d.grouping) == spec.grouping and d.rsig_type == spec.rsig_type, "announce:" + key,
                    "announced type %r batches %r" % (d.rsig_type, d.grouping))
        r = link.replies[0]
        if not sub_.expect(r.__class__.__name__ == "MoneroTransactionInitAck", "refuse:" + key, "the device refuses: %r" % str(r)[-200:]):
            continue
        off = r.rsig_data.offload_type if r.rsig_data else 0
        sub_.expect(bool(off) == (n > 2), "offload:" + key, "%d outputs: proof delegated to the host: %r" % (n, off))
        if not full:
            continue
        if not sub_.expect(blob is not None, "complete:" + key, "signing fails: %r" % e):
            continue
        # proofs: from the host when delegated, from the device otherwise; one per batch, at the batch's last output
        last = set()
        p = 0
        for g in spec.grouping:
            p += g
            last.add(p - 1)
        i = -1
        for m, a in zip(link.sent, link.replies):
            if m.__class__.__name__ != "MoneroTransactionSetOutputRequest":
                continue
            if not m.is_offloaded_bp:
                i += 1
            hostp = bool(m.rsig_data and m.rsig_data.rsig)
            devp = bool(a.rsig_data and (a.rsig_data.rsig or a.rsig_data.rsig_parts))
            wanth = n > 2 and i in last and (m.is_offloaded_bp or cv == 0)
            wantd = n <= 2 and i in last
            sub_.expect((hostp, devp) == (wanth, wantd), "proof:%s:%d:%s" % (key, i, bool(m.is_offloaded_bp)), "output %d: proof from host %s, device %s" % (i, hostp, devp))
        t = hostagent.Tx(blob, spec)
        pos = 0
        for raw, g in zip(t.bps, spec.grouping):
            o, q = ref.bp_parse(raw)
            w = (g - 1).bit_length() + 6
            sub_.expect(len(o["L"]) == len(o["R"]) == w, "size:%s:%d" % (key, pos), "proof has %d rounds, %d outputs" % (len(o["L"]), g))
            V = [ref.enc(ref.mul(ref.dec(k[32:]), ref.INV8)) for k in t.out_pk[pos:pos + g]]
            sub_.expect(ref.bp_verify(V, o), "valid:%s:%d" % (key, pos), "proof of outputs %d.. does not verify" % pos)
            pos += g
        sub_.expect(len(t.bps) == len(spec.grouping) and pos == n, "cover:" + key, "%d proofs" % len(t.bps))
    sub_.case(n)


def work(sub_, job):
    globals()[job[0]](sub_, job[1])


def run(chk):
    chk.rule = __doc__
    N = 300 if not chk.thorough else 5000
    step = 100 if not chk.thorough else 500
    jobs = [("device", n) for n in range(1, 33 if not chk.thorough else 65)]
    jobs += [("plan", range(a, a + step)) for a in range(0, N + 1, step)]
    pmap(chk, work, jobs, limit=600)
