"""P16: exported key images.

(a) every kind of owned output (main / subaddress / via additional key, every output index of a set, several accounts)
    x every position in an export: the record opens with the released key and only with it, holds the key image computed
    by the reference, and a ring signature over it that the reference verifies; every single flipped bit of the record is
    detected; the record is not readable with keys available before the end;
(b) everything the wallet does not own or that is inconsistent is refused (every field of an owned output replaced by every
    value of a pool, index shifts), never answered with a key image;
(c) the host agent, for lists of 0..n outputs around the batch boundary, returns exactly the images in order, and fails
    when any record of the device is altered."""
import copy
import itertools

from mc import env, ref, world
from mc.check import pmap
from mc.explore import *
from checks.p02 import failed
from checks.p15 import td, td_hash, list_hash, init_msg, ki_send, chapoly_open, subs_of

from monero_glue.agent import agent_lite
from monero_glue.xmr.enc import chacha_poly

M = world.M
xt = world.xmrtypes


def kinds(thorough):
    r = []
    n = 0
    for (ma, mi) in [(0, 0), (0, 1), (0, 5), (1, 0), (3, 2)] + ([(0, 200), (7, 0), (1000, 1000)] if thorough else []):
        for add in (False, True):
            for oidx in ([0, 1, 3] + ([127, 128, 300, 16384] if thorough else [130])):
                if add and oidx > 3 and not thorough:
                    continue
                if add and oidx > 300:
                    continue
                r.append(Inp("p16-%d" % n, SENDER, 1000 + n, ma, mi, additional=add, oidx=oidx, ring=1, real=0))
                n += 1
    return r


def check_record(sub_, key, rec, i, k, bits):
    p = chapoly_open(k, bytes(rec.iv), bytes(rec.blob))
    if p is None or len(p) != 96:
        sub_.violation("open:" + key, "record does not open with the released key")
        return
    sub_.expect(p[:32] == i.ki, "ki:" + key, "exported key image is not the one of the output")
    sig = [(ref.dec_sc(p[32:64]), ref.dec_sc(p[64:]))]
    sub_.expect(ref.ring_sig_verify(i.ki, i.ki, [i.P], sig), "sig:" + key, "ring signature over the key image does not verify")
    body = bytes(rec.iv) + bytes(rec.blob)
    sub_.expect(i.ki not in body and p[32:64] not in body, "plain:" + key, "record carries the image in clear")
    if bits:
        for b in range(len(body) * 8):
            x = bytearray(body)
            x[b // 8] ^= 1 << (b % 8)
            try:
                chacha_poly.decrypt(k, bytes(x[:12]), bytes(x[12:]))
                sub_.violation("flip:%s:%d" % (key, b), "bit %d of the record can be flipped unnoticed" % b)
            except Exception:
                pass
            sub_.add(transitions=1)
    for wrong in (bytes(32), bytes([k[0] ^ 1]) + k[1:], k[:31] + bytes([k[31] ^ 128]), ref.keccak(k), ref.enc_sc(SENDER.a), i.tx_key):
        try:
            chacha_poly.decrypt(wrong, bytes(rec.iv), bytes(rec.blob))
            sub_.violation("wrongkey:" + key, "record opens with a key other than the released one")
        except Exception:
            pass


def export(dev, inps, split):
    tds = [td(i) for i in inps]
    r = ki_send(dev, init_msg(tds, inps))
    if r is None or failed(r):
        return None, r
    recs, pos = [], 0
    for n in split:
        r = ki_send(dev, M.MoneroKeyImageSyncStepRequest(tdis=tds[pos:pos + n]))
        if r is None or failed(r):
            return None, r
        recs += list(r.kis)
        pos += n
    r = ki_send(dev, M.MoneroKeyImageSyncFinalRequest())
    if r is None or failed(r):
        return None, r
    return recs, bytes(r.enc_key)


def single(sub_, item):
    name, inps, bits = item
    for i in inps:
        key = "%d.%d-%s-o%d" % (i.major, i.minor, "add" if i.add_keys else "main", i.oidx)
        recs, k = export(Dev(SENDER, tag="p16"), [i], [1])
        sub_.add(states=1, traces=1)
        sub_.case(key)
        if recs is None:
            sub_.violation("refused:" + key, "export of an owned output refused: %s" % getattr(k, "message", k))
            continue
        check_record(sub_, key, recs[0], i, k, bits)
    sub_.sample({"outputs": [("%d.%d" % (i.major, i.minor), i.oidx, bool(i.add_keys)) for i in inps][:4]})


def lists(sub_, item):
    name, inps, split = item
    recs, k = export(Dev(SENDER, tag="p16l"), inps, split)
    sub_.add(states=len(inps), traces=1)
    sub_.case(name)
    if recs is None:
        sub_.violation("refused:" + name, "export refused: %s" % getattr(k, "message", k))
        return
    sub_.expect(len(recs) == len(inps), "count:" + name, "%d records for %d outputs" % (len(recs), len(inps)))
    for j, (rec, i) in enumerate(zip(recs, inps)):
        check_record(sub_, "%s:%d" % (name, j), rec, i, k, False)
    ivs = [bytes(r.iv) for r in recs]
    sub_.expect(len(set(ivs)) == len(ivs), "nonce:" + name, "a nonce is used twice with one key")
    # the same export again on the same device: a different key
    recs2, k2 = export(Dev(SENDER, tag="p16l2"), inps, split)
    sub_.expect(k2 != k, "rekey:" + name, "two exports use the same key")


def refused(sub_, item):
    """every replacement of a field of an owned output which makes it not owned"""
    name, i, pool_inps = item
    pool = {"P": [x.P for x in pool_inps], "R": [x.tx_key for x in pool_inps]}
    bad_points = [b"\xff" * 32, bytes(32), b"\x02" + bytes(31), i.P[:31], b"", None, b"\x01" + bytes(31)]
    cases = []
    for f in ("out_key", "tx_pub_key"):
        vals = pool["P"] + pool["R"] + [ref.enc(SENDER.A) if hasattr(SENDER, "A") else ref.enc(ref.mulG(SENDER.a)), ref.enc(ref.mulG(SENDER.b))]
        for n, v in enumerate(vals + bad_points):
            cases.append(("%s%d" % (f, n), {f: v}))
    for d in list(range(0, 6)) + [127, 128, 129, 255, 256, 65536, 2 ** 32, 2 ** 32 + i.oidx, 2 ** 64 - 1, None]:
        if d != i.oidx:
            cases.append(("idx%s" % d, {"internal_output_index": d}))
    for n, v in enumerate(bad_points[:6]):
        cases.append(("addkey%d" % n, {"additional_tx_pub_keys": [v if v is not None else b""] * (i.oidx + 1), "tx_pub_key": pool_inps[0].tx_key}))
    for lab, kw in cases:
        t = td(i, **kw)
        own = owned(t)
        dev = Dev(SENDER, tag="p16r")
        try:
            h = list_hash([t])
        except Exception:
            h = bytes(32)
        im = init_msg([], pool_inps + [i], num=1, h=h)
        r = ki_send(dev, im)
        if r is None or failed(r):
            continue
        r = ki_send(dev, M.MoneroKeyImageSyncStepRequest(tdis=[t]))
        ok = r is not None and not failed(r)
        key = "%s:%s" % (name, lab)
        sub_.add(states=1, transitions=2)
        sub_.case("%s:%s" % (key, ok))
        if "tx_pub_key" in kw and i.add_keys:
            own = i.ki if ok else None      # owned through the additional key: the main key does not matter
        if own is None and ok:
            sub_.violation("accepted:" + key, "an output the wallet does not own (or invalid data) is exported")
        elif own is not None and not ok:
            sub_.violation("refused:" + key, "an owned output is refused: %s" % getattr(r, "message", r))
        elif own is not None and ok:
            f = ki_send(dev, M.MoneroKeyImageSyncFinalRequest())
            if f is not None and not failed(f):
                p = chapoly_open(bytes(f.enc_key), bytes(r.kis[0].iv), bytes(r.kis[0].blob))
                sub_.expect(p is not None and p[:32] == own, "ki:" + key, "wrong key image")
        if not ok:      # and the session is over
            f = ki_send(dev, M.MoneroKeyImageSyncFinalRequest())
            sub_.expect(f is None or failed(f), "after:" + key, "the export continues after a refused output")


SUBS = [(0, 0), (0, 1), (0, 5), (1, 0), (3, 2)]


def owned(t):
    """key image when the reference says the (valid) output belongs to the sender's known addresses, else None"""
    try:
        if t.internal_output_index is None or len(t.out_key) != 32 or len(t.tx_pub_key) != 32:
            return None
        P = ref.dec(bytes(t.out_key))
        keys = [bytes(t.tx_pub_key)]
        adds = [bytes(x) for x in t.additional_tx_pub_keys]
        for x in keys + adds:
            ref.dec(x)
        if adds:
            if t.internal_output_index < len(adds):
                keys.append(adds[t.internal_output_index])
        for k in keys:
            der = ref.derivation(ref.dec(k), SENDER.a)
            s = ref.deriv_scalar(der, t.internal_output_index)
            for (ma, mi) in SUBS:
                x = (s + SENDER.sub_sec(ma, mi)) % ref.L
                if ref.enc(ref.mulG(x)) == bytes(t.out_key):
                    return ref.enc(ref.key_image(x, bytes(t.out_key)))
    except Exception:
        return None
    return None


class Proxy:
    """The device as the agent sees it, with an optional alteration of replies."""

    def __init__(self, dev, alter=None):
        self.dev, self.alter, self.n = dev, alter, 0
        self.batches = []

    async def key_image_sync(self, msg):
        if hasattr(msg, "tdis"):
            self.batches.append(len(msg.tdis))
        r = world.wire(await self.dev.tok.key_image_sync(world.wire(msg)))
        self.n += 1
        if self.alter:
            r = self.alter(self.n - 1, r)
        return r


def transfer(i):
    vout = [xt.TxOut(amount=0, target=xt.TxoutToKey(key=ref.enc(ref.mulG(ref.hs(b"o%d" % j))))) for j in range(i.oidx + 2)]
    vout[i.oidx] = xt.TxOut(amount=0, target=xt.TxoutToKey(key=i.P))
    extra = b"\x01" + i.tx_key
    if i.add_keys:
        extra += b"\x04" + ref.varint(len(i.add_keys)) + b"".join(i.add_keys)
    t = xt.TransferDetails()
    t.m_tx = xt.TransactionPrefix(version=2, unlock_time=0, vin=[], vout=vout, extra=list(extra))
    t.m_internal_output_index = i.oidx
    t.m_subaddr_index = xt.SubaddressIndex(major=i.major, minor=i.minor)
    t.m_amount = i.amount
    return t


def agent(sub_, item):
    name, inps, tamper = item
    env.RNG.reset("p16a")
    dev = Dev(SENDER)
    px = Proxy(dev)
    ag = agent_lite.Agent(px, network_type=world.NET)
    res = env.run(ag.import_outputs([transfer(i) for i in inps]))
    sub_.add(traces=1, states=len(inps))
    sub_.case(name)
    sub_.expect([bytes(x[0]) for x in res] == [i.ki for i in inps], "agent:" + name,
                "the host gets %d images, of the right outputs in order: %s" % (len(res), [bytes(x[0]) for x in res] == [i.ki for i in inps]))
    for i, (ki, s) in zip(inps, res):
        sub_.expect(ref.ring_sig_verify(i.ki, i.ki, [i.P], [(ref.dec_sc(bytes(s[0])), ref.dec_sc(bytes(s[1])))]), "agentsig:" + name,
                    "signature does not verify")
    sub_.expect(sum(px.batches) == len(inps), "batches:" + name, "batches %s" % px.batches)
    sub_.count("agent_exports")
    if not tamper:
        return
    n = px.n
    for step in range(n):
        for what in ("fail", "ivbit", "blobbit", "blobcut", "key", "drop", "twice"):
            if what in ("ivbit", "blobbit", "blobcut", "drop", "twice") and not (0 < step < n - 1) or what == "key" and step != n - 1:
                continue
            for which in range(1 if what in ("fail", "key") else px.batches[step - 1]):
                def alter(k, r, what=what, step=step, which=which):
                    if k != step:
                        return r
                    if what == "fail":
                        return M.Failure(code=1, message="no")
                    if what == "key":
                        x = bytearray(r.enc_key)
                        x[7] ^= 16
                        r.enc_key = bytes(x)
                        return r
                    if what == "drop":
                        del r.kis[which]
                        return r
                    rec = r.kis[which]
                    if what == "twice":
                        r.kis.insert(which, copy.deepcopy(rec))
                        return r
                    f = "iv" if what == "ivbit" else "blob"
                    x = bytearray(getattr(rec, f))
                    if what == "blobcut":
                        x = x[:-1]
                    else:
                        x[(which * 7 + 3) % len(x)] ^= 1 << (which % 8)
                    setattr(rec, f, bytes(x))
                    return r

                env.RNG.reset("p16a")
                ag = agent_lite.Agent(Proxy(Dev(SENDER), alter), network_type=world.NET)
                try:
                    env.run(ag.import_outputs([transfer(i) for i in inps]))
                    sub_.violation("agent-accepts:%s:%s:%d:%d" % (name, what, step, which), "the host does not notice: %s of reply %d" % (what, step))
                except Exception:
                    pass
                sub_.add(transitions=1)
                sub_.case("%s:%s" % (name, what))


def run(chk):
    chk.rule = "every record equals the reference key image with a valid signature; distinct = output kinds, list shapes, refused variants"
    t = chk.thorough
    ks = kinds(t)
    pmap(chk, single, [("single%d" % n, c, True) for n, c in enumerate(chunks(ks, 16))], limit=600)
    base = [Inp("L%d" % i, SENDER, 10 + i, *SUBS[i % len(SUBS)], additional=i % 3 == 2, oidx=i % 4, ring=1, real=0) for i in range(32)]
    shapes = []
    for n in range(1, 6 if t else 5):     # every composition of n outputs into steps
        for cuts in itertools.product((0, 1), repeat=n - 1):
            split, cur = [], 1
            for c in cuts:
                if c:
                    split.append(cur)
                    cur = 1
                else:
                    cur += 1
            split.append(cur)
            shapes.append(("list%s" % ".".join(map(str, split)), base[:n], split))
    shapes += [("list-dup", [base[0], base[0], base[1]], [2, 1]), ("list32", base, [16, 16])]
    pmap(chk, lists, shapes, limit=300)
    pool = [Inp("p%d" % i, SENDER, 1, *SUBS[i], oidx=i % 2, ring=1, real=0) for i in range(5)] + [Inp("px", OTHER, 1, ring=1, real=0)]
    reps = [Inp("q%d" % i, SENDER, 1, *SUBS[i], additional=bool(i % 2), oidx=i % 3, ring=1, real=0) for i in range(5)]
    pmap(chk, refused, [("r%d" % n, i, pool) for n, i in enumerate(reps)], limit=600)
    many = [Inp("A%d" % i, SENDER, 10 + i, *SUBS[i % len(SUBS)], additional=i % 4 == 3, oidx=i % 3, ring=1, real=0) for i in range(31 if t else 22)]
    sizes = [0, 1, 2, 9, 10, 11, 20, 21] + ([19, 22, 29, 30, 31] if t else [])
    pmap(chk, agent, [("agent%d" % n, many[:n], n in (1, 2, 11) or t) for n in sizes], limit=600)
    chk.extra["bounds"] = "%d output kinds, all compositions of up to %d outputs into steps, lists up to %d, every bit of a record" % (
        len(ks), 5 if t else 4, sizes[-1])
    chk.assumptions = ["The reference derivation and ring signature verification (mc/ref.py, self-tested against Monero vectors)."]
