"""P21: addresses.

Every combination of network x kind x key pair (boundary pool) x payment id through every encoder of the library
(encode_addr, public_addr_encode, AddrInfo, recompute_sub, build_address_info, new_wallet) against the reference address;
decoding returns exactly what went in.  Malformed: all 256 tags x every payload length with a valid checksum are accepted
iff the tag is known and the length is that of its kind.  Classification: every list of destinations up to the depth over
an alphabet of addresses, against a set-based specification."""
import itertools

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks
from mc.world import SENDER, RCPT, creds_of, M

env.install_rng()

from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub import addr as A
from monero_glue.xmr.sub.xmr_net import net_version

NETS = (0, 1, 2)
KEYS = [SENDER.addr_enc(0, 0), RCPT[0].addr_enc(0, 3), (ref.enc(ref.mulG(1)), ref.enc(ref.mulG(2))),
        (bytes([1]) + bytes(31), bytes([1]) + bytes(31)), (b"\xff" * 32, bytes(32)), (bytes(32), b"\xff" * 32)]
PIDS = [bytes(8), b"\xff" * 8, bytes(range(8)), b"\x00" * 7 + b"\x01"]
BYTAG = {t: (n, k) for n, ts in ref.ADDR_TAGS.items() for k, t in enumerate(ts)}   # kind 0 std 1 integrated 2 sub


def want(net, kind, S, V, pid=b""):
    return ref.addr_encode(ref.ADDR_TAGS[net][kind], S + V + (pid if kind == 1 else b"")).encode()


def decoded(s):
    try:
        a = A.decode_addr(s)
    except Exception:
        return None
    return (a.net_type, 1 if a.is_integrated else 2 if a.is_sub_address else 0, bytes(a.spend_key), bytes(a.view_key),
            bytes(a.payment_id or b""), bytes(a.addr), bytes(a.base_addr) if not a.is_integrated else None)


def forms(sub_, item):
    net, kind, (S, V) = item
    for pid in (PIDS if kind == 1 else [None]):
        exp = want(net, kind, S, V, pid or b"")
        base = want(net, 0 if kind == 1 else kind, S, V)
        name = "%d:%d:%s:%s" % (net, kind, S.hex()[:8], (pid or b"").hex())
        got = {}
        got["encode_addr"] = A.encode_addr(net_version(net, kind == 2, kind == 1), S, V, pid)
        pa = A.build_address(S, V)
        got["public_addr_encode"] = A.public_addr_encode(pa, kind == 2, net, pid)
        ai = A.AddrInfo(ref.ADDR_TAGS[net][kind], S + V + (pid or b""))
        got["AddrInfo"] = ai.addr
        if net == 0:
            got["net_none"] = A.encode_addr(net_version(None, kind == 2, kind == 1), S, V, pid)
        if kind != 1:
            got["empty_pid"] = A.public_addr_encode(pa, kind == 2, net, b"")
            got["base"] = ai.base_addr
        elif bytes(ai.base_addr) != base:
            # the base address of an integrated address is the integrated prefix or the plain address; it must carry no id
            d = ref.addr_decode(bytes(ai.base_addr).decode())
            if d is None or d[1] != S + V:
                sub_.violation("base:" + name, "base address of an integrated address %r" % ai.base_addr)
        for w, g in got.items():
            sub_.add(states=1, transitions=1)
            if bytes(g) != exp:
                sub_.violation("encode:%s:%s" % (w, name), "%s gives %r, expected %r" % (w, g, exp))
        d = decoded(exp)
        e = (net, kind, S, V, pid or b"", exp, exp if kind != 1 else None)
        sub_.add(states=1, transitions=1)
        if d != e:
            sub_.violation("decode:" + name, "decoded %r expected %r" % (d, e))
        sub_.case(name)
    for bad in [bytes(n) for n in list(range(1, 8)) + [9, 16, 32]]:
        try:
            g = A.public_addr_encode(A.build_address(S, V), False, net, bad)
        except Exception:
            continue
        sub_.violation("pid-len:%d" % len(bad), "integrated address made from a payment id of %d bytes: %r" % (len(bad), g))
    try:
        g = A.public_addr_encode(A.build_address(S, V), True, net, PIDS[1])
        sub_.violation("sub-integrated:%d" % net, "integrated subaddress encoded: %r" % g)
    except Exception:
        pass


def malformed(sub_, tags):
    body = (ref.keccak(b"mal") * 5)
    for tag in tags:
        for ln in range(0, 141):
            d = bytes([tag]) + body[:ln]
            s = ref.b58_enc(d + ref.keccak(d)[:4]).encode()
            g = decoded(s)
            sub_.add(states=1, transitions=1)
            k = BYTAG.get(tag)
            ok = k is not None and ln == (72 if k[1] == 1 else 64)
            if (g is not None) != ok:
                sub_.violation("payload:%d:%d" % (tag, ln), "address with tag %d and %d payload bytes %s" % (
                    tag, ln, "accepted" if g else "refused"))
            elif ok and (g[:4] != (k[0], k[1], body[:32], body[32:64])):
                sub_.violation("payload:%d:%d" % (tag, ln), "decoded %r" % (g,))


def damaged(sub_, item):
    net, kind = item
    S, V = KEYS[0]
    s = want(net, kind, S, V, PIDS[2])
    bad = [s[:i] + bytes([c]) + s[i + 1:] for i in range(len(s)) for c in ref.B58.encode() if c != s[i]]
    bad += [s[:i] for i in range(len(s))] + [s + b"1" * i for i in range(1, 12)] + [b"1" * i + s for i in range(1, 12)]
    bad += [s[:i] + bytes([c]) + s[i + 1:] for i in range(len(s)) for c in b"0OIl \x00\xff"]
    bad += [s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:] for i in range(len(s) - 1) if s[i] != s[i + 1]]
    for b in bad:
        sub_.add(states=1, transitions=1)
        g = decoded(b)
        if g is not None:
            sub_.violation("damaged:%d:%d:%s" % (net, kind, b[:12].hex()), "damaged address accepted: %r" % b)


def infos(sub_, item):
    net, (mj, mn) = item
    w = SENDER
    cr = creds_of(w, net)
    sub_.expect(bytes(cr.address) == want(net, 0, *w.addr_enc(0, 0)), "new_wallet:%d" % net, "address of a new wallet: %r" % cr.address)
    S, V = w.addr_enc(mj, mn)
    kind = 2 if (mj, mn) != (0, 0) else 0
    exp = want(net, kind, S, V)
    for form in (tuple, list):
        sub_.add(states=1, transitions=1)
        ai = monero.build_address_info(cr, form((mj, mn)), None, net)
        if bytes(ai.addr) != exp or bool(ai.is_sub_address) != (kind == 2) or ai.is_integrated:
            sub_.violation("info:%d:%d:%d" % (net, mj, mn), "build_address_info gives %r expected %r" % (ai.addr, exp))
    ai = monero.build_address_info(cr, None, None, net)
    sub_.expect(bytes(ai.addr) == want(net, 0, *w.addr_enc(0, 0)), "info-main:%d" % net, "main address info %r" % ai.addr)
    for pid in PIDS:
        for ix in (None, (0, 0)):
            ai = monero.build_address_info(cr, ix, pid, net)
            sub_.expect(bytes(ai.addr) == want(net, 1, *w.addr_enc(0, 0), pid) and ai.is_integrated, "info-int:%d" % net,
                        "integrated address info %r" % ai.addr)
        if kind:
            try:
                monero.build_address_info(cr, (mj, mn), pid, net)
                sub_.violation("info-subint:%d:%d" % (mj, mn), "integrated subaddress built")
            except Exception:
                pass
    # an address object moved to another account / subaddress
    ai = A.decode_addr(want(net, 0, *w.addr_enc(0, 0)))
    ai.recompute_sub(S, V, mj, mn)
    sub_.add(states=1, transitions=1)
    if bytes(ai.addr) != exp or bool(ai.is_sub_address) != (kind == 2):
        sub_.violation("recompute:%d:%d:%d" % (net, mj, mn), "recompute_sub gives %r expected %r" % (ai.addr, exp))
    if mn == 0:
        ai = A.decode_addr(want(net, 0, *w.addr_enc(0, 0)))
        ai.recompute_sub(S, V, mj)
        sub_.expect(bytes(ai.addr) == exp, "recompute1:%d:%d" % (net, mj), "recompute_sub gives %r expected %r" % (ai.addr, exp))


class D:
    def __init__(self, key, issub, amount, cls):
        S, V = key
        self.is_subaddress, self.amount = issub, amount
        self.key = key
        self.addr = cls(spend_public_key=S, view_public_key=V)


def classify(sub_, item):
    ci, first, depth = item
    S0, V0 = KEYS[0]
    S1, V1 = KEYS[1]
    S2, V2 = KEYS[2]
    mk = lambda **k: M.MoneroAccountPublicAddress(**k)
    al = [((S0, V0), False), ((S1, V1), True), ((S2, V2), False), ((S0, V1), True), ((S1, V0), False)]
    chs = [None, (S0, V0), (S1, V1), (S0, V2)]
    ch = chs[ci]
    cho = mk(spend_public_key=ch[0], view_public_key=ch[1]) if ch else None
    for n in range(0, depth + 1):
        for ix in itertools.product(range(len(al)), repeat=n):
            if (n == 0 and first) or (n and ix[0] != first):
                continue
            ds = [D(al[i][0], al[i][1], 7, mk) for i in ix]
            got = monero.classify_subaddresses(ds, cho)
            rest = {al[i] for i in ix if al[i][0] != ch}
            std = {k for k, s in rest if not s}
            sb = {k for k, s in rest if s}
            sub_.add(states=1, transitions=1)
            single = got[2]
            sk = (single.spend_public_key, single.view_public_key) if single is not None else None
            if got[:2] != (len(std), len(sb)) or (len(sb) == 1 and sk not in sb) or (not sb and sk is not None):
                sub_.violation("classify:%d:%s" % (ci, "".join(map(str, ix))), "classified %r, expected %d standard, %d subaddresses" % (
                    (got[0], got[1], sk), len(std), len(sb)))
            sub_.case((ci, ix))


def change(sub_, item):
    ci, depth = item
    mk = lambda **k: M.MoneroAccountPublicAddress(**k)
    al = [(KEYS[0], a) for a in (0, 1, 2)] + [(KEYS[1], 1), ((KEYS[0][0], KEYS[1][1]), 1), ((KEYS[1][0], KEYS[0][1]), 1)]
    chs = [None] + al
    ch = chs[ci]
    cho = D(ch[0], False, ch[1], mk) if ch else None
    for n in range(0, depth + 1):
        for ix in itertools.product(range(len(al)), repeat=n):
            outs = [D(al[i][0], False, al[i][1], mk) for i in ix]
            got = monero.get_change_addr_idx(outs, cho)
            match = [k for k, i in enumerate(ix) if ch is not None and ch[1] and al[i] == ch]
            sub_.add(states=1, transitions=1)
            if (got is None) != (not match) or (match and got not in match):
                sub_.violation("change-idx:%d:%s" % (ci, "".join(map(str, ix))), "change index %r, matching outputs %r" % (got, match))
    for a in al:
        for b in al:
            e = A.addr_eq(D(a[0], False, 0, mk).addr, D(b[0], True, 1, mk).addr)
            sub_.expect(bool(e) == (a[0] == b[0]), "addr_eq:%s:%s" % (a[0][0].hex()[:6], b[0][0].hex()[:6]), "addr_eq is %r" % e)


def run(chk):
    deep = chk.thorough
    chk.rule = __doc__
    pmap(chk, forms, [(n, k, key) for n in NETS for k in range(3) for key in KEYS])
    pmap(chk, malformed, list(chunks(range(256), 32)))
    pmap(chk, damaged, [(n, k) for n in NETS for k in range(3)])
    ixs = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2 ** 32 - 1), (2 ** 32 - 1, 0), (5, 9), (127, 128), (255, 256)]
    if deep:
        ixs += [(i, j) for i in range(8) for j in range(8)]
    pmap(chk, infos, [(n, ix) for n in NETS for ix in ixs])
    dep = 5 if deep else 4
    pmap(chk, classify, [(c, f, dep) for c in range(4) for f in range(5)])
    pmap(chk, change, [(c, 4 if deep else 3) for c in range(7)])
    for t in (3, 4, 255, -1, "x"):
        try:
            net_version(t)
            chk.violation("net:%s" % t, "unknown network %r accepted" % (t,))
        except Exception:
            pass
    chk.traces = chk.transitions
    chk.sample("integrated address of network 1: %r" % want(1, 1, *KEYS[0], PIDS[2]))
