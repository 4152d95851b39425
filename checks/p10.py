"""P10: streaming transaction hashers equal the one-shot hash.

(a) the archive hasher: all operation sequences up to a depth over an alphabet of writes (buffers around the block size, varints,
    fixed integers, typed fields, container sizes), with every kind of save/restore/peek between any two operations, and all
    chunkings of messages around one and two blocks, against keccak over the reference serialization;
(b) the message hasher: explicit-state search over all call sequences (every call in every reachable state; order automaton as
    reference), every interleaving of range-proof deliveries, every save/restore point, against the reference message hash;
(c) the one-shot hash of complete signature objects of every type."""
import copy
import itertools

from mc import env, ref
from mc.check import pmap
from mc.ref import keccak, varint

env.install_rng()
from monero_glue.xmr.sub.keccak_hasher import KeccakXmrArchive, KeccakArchive, get_keccak_writer
from monero_glue.xmr.sub.mlsag_hasher import PreMlsagHasher, get_pre_mlsag_hash
from monero_serialize import xmrtypes, xmrserialize

run_ = env.run


def b32(s):
    return keccak(s.encode())


def pat(n, k=0):
    return bytes((7 * i + 13 * k + 1) % 256 for i in range(n))


# ------------------------------------------------------------------ (a)
def ops():
    r = []
    for n in (0, 1, 31, 32, 64, 135, 136, 137, 272):
        r.append(("buf%d" % n, lambda h, n=n: h.buffer(pat(n)), pat(n)))
    for v in (0, 1, 127, 128, 16383, 16384, 2 ** 32, 2 ** 63, 2 ** 64 - 1):
        r.append(("uvarint%d" % v, lambda h, v=v: h.uvarint(v), varint(v)))
    for v, w in ((0, 1), (255, 1), (513, 2), (2 ** 32 - 1, 4), (2 ** 64 - 2, 8)):
        r.append(("uint%d.%d" % (v, w), lambda h, v=v, w=w: h.uint(v, w), v.to_bytes(w, "little")))
    for v in (0, 1, 130, 300):
        r.append(("csize%d" % v, lambda h, v=v: h.container_size(v, None), varint(v)))
    r.append(("key", lambda h: h.field(b32("k"), xmrtypes.ECKey), b32("k")))
    r.append(("vin", lambda h: h.field(xmrtypes.TxinToKey(amount=300, key_offsets=[1, 200, 3], k_image=b32("ki")), xmrtypes.TxinToKey),
              varint(300) + varint(3) + varint(1) + varint(200) + varint(3) + b32("ki")))
    tx = lambda: xmrtypes.TransactionPrefix(version=2, unlock_time=70000, vin=[], vout=[], extra=[1, 2, 200])
    fs = {f[0]: f for f in xmrtypes.TransactionPrefix.f_specs()}
    r.append(("mf-version", lambda h: h.message_field(tx(), fs["version"]), varint(2)))
    r.append(("mf-unlock", lambda h: h.message_field(tx(), fs["unlock_time"]), varint(70000)))
    r.append(("mf-extra", lambda h: h.message_field(tx(), fs["extra"]), varint(3) + bytes([1, 2, 200])))
    return r


def sv_none(h):
    return h


def sv_ctx(h):
    return KeccakXmrArchive(h.ctx())


def sv_refresh(h):
    h.refresh()
    return h


def sv_copyctx(h):
    return KeccakXmrArchive(copy.deepcopy(h.ctx()))


def sv_copy(h):
    return copy.deepcopy(h)


def sv_peek(h):
    h.ctx().copy().digest()
    return h


def sv_keep(h):
    h.keep()
    return h


def sv_release(h):
    h.keep(False)
    h.release()
    return h


SAVES = [sv_none, sv_ctx, sv_refresh, sv_copyctx, sv_copy, sv_peek, sv_keep, sv_release]


def archive(sub_, item):
    name, first, depth, thorough = item
    alphabet = ops()
    small = [o for o in alphabet if o[0] in ("buf0", "buf1", "buf135", "buf136", "uvarint16384", "uint513.2", "key", "vin", "mf-extra")]
    for rest in itertools.product(small, repeat=depth - 1):
        seq = (alphabet[first],) + rest
        want = keccak(b"".join(o[2] for o in seq))
        plans = [(i, s) for i in range(len(seq) + 1) for s in SAVES[1:]] + [(None, None)] + [("all", s) for s in SAVES[1:]]
        if not thorough and depth > 2:
            plans = [(None, None)] + [("all", s) for s in SAVES[1:]]
        for at, sv in plans:
            h = KeccakXmrArchive()
            for i, o in enumerate(seq):
                if at == i or at == "all":
                    h = sv(h)
                run_(o[1](h))
            if at == len(seq) or at == "all":
                h = sv(h)
            got = bytes(h.get_digest())
            sub_.add(states=1, transitions=len(seq))
            if got != want:
                sub_.violation("archive:%s:%s:%s" % ("+".join(o[0] for o in seq), at, sv and sv.__name__),
                               "streamed hash of %s with %s at %s differs" % ([o[0] for o in seq], sv and sv.__name__, at))
        sub_.case("arch:" + "+".join(o[0] for o in seq))
    sub_.add(traces=1)


def chunking(sub_, item):
    name, total = item
    data = pat(total, 5)
    want = keccak(data)
    cuts = sorted({0, 1, 2, 64, 134, 135, 136, 137, 138, 200, 271, 272, 273, total - 1, total} & set(range(total + 1)))
    for k in range(0, 4):
        for cs in itertools.combinations_with_replacement(cuts, k):
            parts = [data[a:b] for a, b in zip((0,) + cs, cs + (total,))]
            for sv in (sv_none, sv_ctx, sv_copy, sv_peek):
                h = KeccakXmrArchive()
                for p in parts:
                    run_(h.buffer(p))
                    h = sv(h)
                if bytes(h.get_digest()) != want:
                    sub_.violation("chunk:%d:%s:%s" % (total, cs, sv.__name__), "hash of %d bytes in chunks %s differs" % (total, cs))
                sub_.add(states=1, transitions=len(parts))
            sub_.case("chunk:%d:%s" % (total, cs))
    for a in range(total + 1):      # every two-way split
        w = get_keccak_writer()
        w.write(data[:a])
        w2 = get_keccak_writer(w.ctx())
        run_(w2.awrite(data[a:]))
        if bytes(w2.get_digest()) != want:
            sub_.violation("split:%d:%d" % (total, a), "hash of %d bytes split at %d differs" % (total, a))
        sub_.add(transitions=1)
    # branching: a copy of a context continues independently
    h = KeccakXmrArchive()
    run_(h.buffer(data))
    h2 = KeccakXmrArchive(copy.deepcopy(h.ctx()))
    run_(h2.buffer(b"x"))
    if bytes(h.get_digest()) != want or bytes(h2.get_digest()) != keccak(data + b"x"):
        sub_.violation("branch:%d" % total, "a copied context is not independent")
    ka = KeccakArchive()
    run_(ka.ar.uvarint(total))
    ar = ka.refresh()
    run_(ar.uvarint(5))
    if bytes(ka.kwriter.get_digest()) != keccak(varint(total) + varint(5)):
        sub_.violation("karchive:%d" % total, "archive with a restored context differs")


# ------------------------------------------------------------------ (b)
class BPx:
    def __init__(self, k, n=2):
        for f in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t"):
            setattr(self, f, b32("%s%d" % (f, k)))
        self.L = [b32("L%d-%d" % (k, i)) for i in range(n)]
        self.R = [b32("R%d-%d" % (k, i)) for i in range(n)]

    def raw(self):
        return b"".join([self.A, self.S, self.T1, self.T2, self.taux, self.mu] + self.L + self.R + [self.a, self.b, self.t])


def call(h, ev):
    k = ev[0]
    if k == "init":
        return h.init(True)
    if k == "msg":
        return run_(h.set_message(b32("message")))
    if k == "type":
        return run_(h.set_type_fee(ev[1], ev[2]))
    if k == "pseudo":
        return run_(h.set_pseudo_out(b32("po%d" % ev[1])))
    if k == "ecdh8":
        return run_(h.set_ecdh(b32("e%d" % ev[1])[:8]))
    if k == "ecdh":
        e = xmrtypes.EcdhTuple(mask=b32("m%d" % ev[1]), amount=b32("a%d" % ev[1]))
        return run_(h.set_ecdh(e, False))
    if k == "pk":
        return run_(h.set_out_pk(b32("pk%d" % ev[1]))) if ev[1] != 1 else run_(h.set_out_pk(b32("xx"), mask=b32("pk1")))
    if k == "bp":
        return run_(h.rsig_val(BPx(ev[1]), True))
    if k == "bpraw":
        return run_(h.rsig_val(BPx(ev[1]).raw(), True, raw=True))
    if k == "bplist":
        r = BPx(ev[1]).raw()
        return run_(h.rsig_val([r[:33], r[33:100], r[100:]], True, raw=True))
    if k == "base":
        return run_(h.rctsig_base_done())
    if k == "digest":
        return run_(h.get_digest())
    raise KeyError(k)


def data(ev):
    k = ev[0]
    return {"type": lambda: bytes([ev[1]]) + varint(ev[2]), "pseudo": lambda: b32("po%d" % ev[1]),
            "ecdh8": lambda: b32("e%d" % ev[1])[:8], "ecdh": lambda: b32("m%d" % ev[1]) + b32("a%d" % ev[1]),
            "pk": lambda: b32("pk%d" % ev[1])}[k]()


def expect(seq):
    msg = keccak(b"")
    base = b"".join(data(e) for e in seq if e[0] in ("type", "pseudo", "ecdh8", "ecdh", "pk"))
    rs = b"".join(BPx(e[1]).raw() for e in seq if e[0] in ("bp", "bpraw", "bplist"))
    m = b"".join(b32("message") for e in seq if e[0] == "msg")
    return keccak(m + keccak(base) + keccak(rs))


# protocol order of the sections: None = not allowed here
NEXT = {0: {"init": 1}, 1: {"type": 2}, 2: {"pseudo": 3, "ecdh": 4, "ecdh8": 4}, 3: {"pseudo": 3, "ecdh": 4, "ecdh8": 4},
        4: {"ecdh": 4, "ecdh8": 4, "pk": 5}, 5: {"pk": 5, "base": 6}, 6: {"digest": 8}, 8: {}}


def hsave(h, mode):
    if mode == 0:
        return h
    if mode == 1:
        return PreMlsagHasher(h.state_save())
    if mode == 2:
        n = PreMlsagHasher()
        n.state_load(h.state_save())
        return n
    if mode == 3:
        return copy.deepcopy(h)
    n = PreMlsagHasher(copy.deepcopy(h.state_save()))
    return n


ALPH = [("init",), ("type", 4, 70000), ("type", 0, 0), ("pseudo", 0), ("ecdh8", 0), ("ecdh", 1), ("pk", 0), ("pk", 1), ("bp", 0), ("bpraw", 1),
        ("base",), ("digest",)]


def words(sub_, item):
    """every call in every state reachable within the bound; the automaton is the oracle"""
    name, mode, depth = item
    todo = [((), 0)]
    seen = set()
    while todo:
        seq, st = todo.pop()
        sub_.add(states=1)
        for ev in ALPH:
            k = ev[0]
            h = PreMlsagHasher()
            run_(h.set_message(b32("message")))
            for e in seq:
                h = hsave(h, mode)
                call(h, e)
            h = hsave(h, mode)
            rs = k in ("bp", "bpraw", "bplist")
            legal = (st != 8) if rs else (k in NEXT[st])
            sub_.add(transitions=1)
            try:
                r = call(h, ev)
                ok = True
            except Exception:
                ok = False
            lab = "/".join(x[0] for x in seq + (ev,))
            sub_.case("%d:%s" % (mode, lab))
            if ok != legal:
                sub_.violation("order:%d:%s" % (mode, lab), "call %s after %s is %s" % (k, [x[0] for x in seq], "accepted" if ok else "refused"))
                continue
            if not ok:
                continue
            if k == "digest":
                want = expect((("msg",),) + seq)
                if bytes(r) != want:
                    sub_.violation("digest:%d:%s" % (mode, lab), "message hash of %s differs from the definition" % lab)
                sub_.add(traces=1)
            nst = st if rs else NEXT[st][k]
            n_rs = sum(1 for x in seq if x[0] in ("bp", "bpraw"))
            if len(seq) + 1 < depth and not (rs and n_rs >= 1) and nst != 8:
                todo.append((seq + (ev,), nst))


def interleavings(sub_, item):
    """all places of the range-proof deliveries relative to the other sections, at all save points"""
    name, rtype, npo, nout, groups, ek, fee = item
    base = [("init",), ("msg",), ("type", rtype, fee)] + [("pseudo", i) for i in range(npo)]
    base += [(ek, i) for i in range(nout)] + [("pk", i) for i in range(nout)] + [("base",)]
    kinds = ("bp", "bpraw", "bplist")
    n = len(base)
    ref_rs = [(kinds[j % 3], j) for j in range(groups)]
    want = expect(base + ref_rs)
    for pos in itertools.combinations_with_replacement(range(n + 1), groups):
        seq = []
        j = 0
        for i in range(n + 1):
            while j < groups and pos[j] == i:
                seq.append(ref_rs[j])
                j += 1
            if i < n:
                seq.append(base[i])
        for mode in (0, 1, 2, 3, 4):
            points = [range(len(seq) + 1)] if groups > 1 or mode == 0 else [range(len(seq) + 1)] + [(p,) for p in range(len(seq) + 1)]
            for pts in points:
                h = PreMlsagHasher()
                for i, e in enumerate(seq):
                    if i in pts:
                        h = hsave(h, mode)
                    call(h, e)
                if len(seq) in pts:
                    h = hsave(h, mode)
                got = bytes(call(h, ("digest",)))
                sub_.add(states=1, transitions=len(seq))
                if got != want:
                    sub_.violation("inter:%s:%s:%d:%s" % (name, pos, mode, "all" if len(pts) > 1 else pts[0]),
                                   "message hash differs with proofs delivered at %s (save mode %d)" % (pos, mode))
        sub_.case("%s:%s" % (name, pos))
    sub_.add(traces=1)


# ------------------------------------------------------------------ (c)
def oneshot(sub_, item):
    name, rtype, n_in, n_out, groups, fee = item
    T = xmrtypes
    rv = T.RctSig()
    rv.type, rv.txnFee, rv.message = rtype, fee, b32("message")
    rv.p = T.RctSigPrunable()
    po = [b32("po%d" % i) for i in range(n_in)]
    rv.pseudoOuts, rv.p.pseudoOuts = (po, []) if rtype == 2 else ([], po)
    rv.ecdhInfo = [T.EcdhTuple(mask=b32("m%d" % i), amount=b32("a%d" % i)) for i in range(n_out)]
    rv.outPk = [T.CtKey(dest=b32("d%d" % i), mask=b32("pk%d" % i)) for i in range(n_out)]
    base = bytes([rtype]) + varint(fee)
    if rtype == 2:
        base += b"".join(po)
    for i in range(n_out):
        base += b32("a%d" % i)[:8] if rtype == 4 else b32("m%d" % i) + b32("a%d" % i)
    base += b"".join(b32("pk%d" % i) for i in range(n_out))
    if rtype in (3, 4):
        rv.p.bulletproofs = [BPx(g, 2 + g) for g in range(groups)]
        rs = b"".join(b.raw() for b in rv.p.bulletproofs)
    else:
        rv.p.rangeSigs = []
        rs = b""
        for g in range(n_out):
            bs = T.BoroSig(s0=[b32("s0%d-%d" % (g, i)) for i in range(64)], s1=[b32("s1%d-%d" % (g, i)) for i in range(64)], ee=b32("ee%d" % g))
            r = T.RangeSig(asig=bs, Ci=[b32("ci%d-%d" % (g, i)) for i in range(64)])
            rv.p.rangeSigs.append(r)
            rs += b"".join(bs.s0) + b"".join(bs.s1) + bs.ee + b"".join(r.Ci)
    want = keccak(b32("message") + keccak(base) + keccak(rs))
    got = bytes(run_(get_pre_mlsag_hash(rv)))
    sub_.add(states=1, transitions=1, traces=1)
    sub_.case(name)
    if got != want:
        sub_.violation("oneshot:" + name, "message hash of a complete signature differs from the definition")


def run(chk):
    chk.rule = "all operation sequences/chunkings/save points within the bounds"
    A = ops()
    d = 3 if not chk.thorough else 4
    items = []
    for i in range(len(A)):
        for depth in range(1, d + 1):
            items.append(("a%d-%d" % (i, depth), (A[i][0], i, depth, chk.thorough and depth < 4), archive))
    for total in (0, 1, 135, 136, 137, 271, 272, 273, 300) + ((408, 409, 500) if chk.thorough else ()):
        items.append(("c%d" % total, ("c%d" % total, total), chunking))
    for mode in range(5):
        items.append(("w%d" % mode, ("w%d" % mode, mode, 10 if chk.thorough else 8), words))
    for rtype in (3, 4, 2, 1):
        for npo in ((0,) if rtype != 2 else (1, 2)):
            for nout in (1, 2, 3):
                for g in range(0, nout + 1):
                    for fee in (123456789,) + ((0, 1, 127, 128, 2 ** 63, 2 ** 64 - 1) if nout < 3 and g < 2 else ()):
                        nm = "t%d-p%d-o%d-g%d-f%d" % (rtype, npo, nout, g, fee)
                        items.append((nm, (nm, rtype, npo, nout, g, "ecdh8" if rtype == 4 else "ecdh", fee), interleavings))
    for rtype in (1, 2, 3, 4):
        for n_in in (1, 2, 3):
            for n_out in (1, 2, 3):
                for g in range(1, n_out + 1):
                    for fee in (0, 127, 128, 2 ** 64 - 1):
                        nm = "os-%d-%d-%d-%d-%d" % (rtype, n_in, n_out, g, fee)
                        items.append((nm, (nm, rtype, n_in, n_out, g, fee), oneshot))
    pmap(chk, lambda s, it: it[2](s, it[1]), items, limit=600)
