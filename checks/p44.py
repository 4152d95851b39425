"""P44: files exchanged with the wallet round-trip and refuse the wrong key or damage.

Key files: every value of one and two adjacent key bytes and every triple over the bytes that are special in the format, at every alignment, over a menu of settings and passwords:
loads back to the same data, leaves the caller's object unchanged and reusable, and neither another password nor any truncation is accepted.
Unsigned transaction sets and output exports: data menus round-trip, and flipping any bit of the header, the nonce and the signature or one bit of the other bytes (quick: of each 17th), truncation, extension and another key are refused."""
import asyncio
import copy
import functools
import itertools

from mc import env, ref, world
from mc.check import pmap

env.install_rng()

import pycryptonight
from monero_glue.xmr import crypto as C, monero, wallet
from monero_glue.xmr.enc import chacha
from monero_serialize import xmrboost, xmrserialize, xmrtypes
from checks.p36 import attempt

if not hasattr(pycryptonight.cn_slow_hash, "cache_info"):
    _slow = functools.lru_cache(None)(pycryptonight.cn_slow_hash)
    chacha.pycryptonight.cn_slow_hash = lambda d: _slow(bytes(d))
    chacha.pycryptonight.cn_slow_hash.cache_info = _slow.cache_info

SPECIAL = [0x22, 0x2c, 0x5c, 0x2f, 0x0a, 0x0d, 0x08, 0x0c, 0x09, 0x00, 0x1f, 0x20, 0x75, 0x6e, 0x62, 0x7b, 0x7d, 0x3a, 0x30, 0x7f, 0x80, 0xff]


def run_(co):
    return asyncio.run(co)


def keyfile(keys, ts=1600000000, **kw):
    w = wallet.WalletKeyFile(**kw)
    d = wallet.WalletKeyData()
    d.m_creation_timestamp = ts
    k = d.m_keys = xmrtypes.AccountKeys()
    k.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=keys[0], m_view_public_key=keys[1])
    k.m_spend_secret_key, k.m_view_secret_key = keys[2], keys[3]
    w.key_data = d
    return w


def snapshot(w):
    if not hasattr(w, "key_data"):
        return None
    d = w.key_data
    k = d.m_keys
    o = {a: b for a, b in w.__dict__.items() if a != "key_data"}
    return o, d.m_creation_timestamp, [bytes(x) for x in (k.m_account_address.m_spend_public_key, k.m_account_address.m_view_public_key, k.m_spend_secret_key, k.m_view_secret_key)]


def loaded(js):
    d = js["key_data"]
    k = d["m_keys"]
    a = k["m_account_address"]
    ts = d["m_creation_timestamp"]
    return ({x: y for x, y in js.items() if x != "key_data"}, getattr(ts, "val", ts),
            [bytes(x) for x in (a["m_spend_public_key"], a["m_view_public_key"], k["m_spend_secret_key"], k["m_view_secret_key"])])


def one_file(sub, key, w, password, twice=False, damage=False):
    before = snapshot(w)
    r = attempt(lambda: run_(wallet.gen_keys_file(password, w)))
    sub.add(states=1, transitions=2)
    if r[0]:
        sub.violation("gen:" + key, "%r" % (r[1],))
        return
    data = bytes(r[1])
    b = attempt(lambda: loaded(run_(wallet.load_keys_data(data, password))))
    if b[0] or b[1] != before:
        sub.violation("roundtrip:" + key, "loads as %r" % (b[1],))
    if snapshot(w) != before:
        sub.violation("caller:" + key, "caller's object changed")
    plain = [x for x in before[2] if x in data]
    if plain:
        sub.violation("plain:" + key, "key in the clear")
    if twice:
        d2 = attempt(lambda: bytes(run_(wallet.gen_keys_file(password, w))))
        if d2[0] or d2[1] == data or attempt(lambda: loaded(run_(wallet.load_keys_data(d2[1], password)))) != (False, before):
            sub.violation("second:" + key, "second file from the same object: %r" % (d2[1] if d2[0] else "same nonce or different content",))
    if damage:
        for other in (b"", password + b" ", password[:-1] if password else b"x", password.upper() + b"!", b"\0" + password):
            if other == password:
                continue
            r = attempt(lambda: loaded(run_(wallet.load_keys_data(data, other))))
            sub.add(states=1, transitions=1)
            if not r[0]:
                sub.violation("password:%s" % key, "opened with %r" % other)
        for n in range(len(data)):
            r = attempt(lambda: run_(wallet.load_keys_data(data[:n], password)))
            sub.add(states=1, transitions=1)
            if not r[0]:
                sub.violation("truncated:%s" % key, "%d of %d bytes opened" % (n, len(data)))
                break


def pack(seq):
    """byte sequence -> lists of four 32-byte keys, overlapping so that no adjacent bytes are lost"""
    step = 30
    ks = [seq[i:i + 32] for i in range(0, max(1, len(seq) - 2), step)]
    ks = [k + b"x" * (32 - len(k)) for k in ks]
    while len(ks) % 4:
        ks.append(b"y" * 32)
    return [ks[i:i + 4] for i in range(0, len(ks), 4)]


def de_bruijn(alpha, n):
    k = len(alpha)
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    out += out[:n - 1]
    return bytes(alpha[i] for i in out)


def bytes_(sub, arg):
    kind, part, parts = arg
    seq = de_bruijn(SPECIAL, 3) if kind == "triples" else de_bruijn(SPECIAL[:8], 4) if kind == "quads" else de_bruijn(list(range(256)), 2)
    for i, ks in enumerate(pack(seq)):
        if i % parts == part:
            one_file(sub, "%s:%d" % (kind, i), keyfile(ks), b"pw")
    sub.case("key bytes " + kind)


SETTINGS = [dict(), dict(watch_only=0, testnet=1, refresh_height=2 ** 40, seed_language="Espa\u00f1ol"), dict(seed_language='"key_data":"x",'), dict(seed_language="a\\\",\n\t{}", multisig=1, multisig_threshold=3),
            dict(refresh_height=0, min_output_value=2 ** 64 - 1, default_mixin=0), dict(seed_language="", confirm_backlog_threshold=2 ** 31)]


def settings(sub, i):
    for pw in (b"", b"p", b"pass word\"\\", bytes(range(256))):
        for ts in (0, 1, 255, 256, 1600000000, 2 ** 32, 2 ** 64 - 1):
            keys = [ref.enc(ref.mulG(7 + i)), ref.enc(ref.mulG(8 + i)), bytes(32), ref.keccak(b"s%d" % i)]
            one_file(sub, "settings:%d:%d:%d" % (i, len(pw), ts), keyfile(keys, ts, **SETTINGS[i]), pw, twice=True, damage=ts == 1)
    sub.case("settings")


# -- transaction sets and output exports
def fields(o):
    if isinstance(o, (list, tuple)):
        return [fields(x) for x in o]
    if isinstance(o, (bytes, bytearray)):
        return bytes(o)
    if isinstance(o, bool):
        return int(o)
    if hasattr(o, "MFIELDS"):
        return {k: fields(v) for k, v in sorted(vars(o).items()) if not k.startswith("_")}
    return o


def td(i):
    t = xmrtypes.TransferDetails()
    K = [ref.keccak(b"td%d.%d" % (i, j)) for j in range(6)]
    big = [0, 1, 127, 128, 2 ** 32, 2 ** 63][i % 6]
    t.m_block_height, t.m_txid, t.m_internal_output_index, t.m_global_output_index = big, K[0], i, big + i
    t.m_spent, t.m_spent_height, t.m_key_image, t.m_mask, t.m_amount = bool(i % 2), big, K[1], K[2], 2 ** 64 - 1 - i if i % 2 else i
    t.m_rct, t.m_key_image_known, t.m_key_image_requested, t.m_pk_index = bool(i % 3), bool(i % 2), not i % 2, i
    t.m_subaddr_index = xmrtypes.SubaddressIndex(major=i, minor=2 ** 32 - 1 - i)
    t.m_key_image_partial, t.m_multisig_k, t.m_multisig_info, t.m_uses = False, [K[3]] * (i % 3), [], []
    pre = xmrtypes.TransactionPrefix(version=2, unlock_time=big, vin=[xmrtypes.TxinToKey(amount=0, key_offsets=[1, 2, 300], k_image=K[4])], vout=[
        xmrtypes.TxOut(amount=0, target=xmrtypes.TxoutToKey(key=K[j % 6])) for j in range(i % 4 + 1)], extra=list(b"\x01" + K[5]))
    t.m_tx = pre
    return t


def exact(sub, key, dump, load, want, priv):
    """round trip, wrong key, damage"""
    r = attempt(dump)
    sub.add(states=1, transitions=2)
    if r[0]:
        sub.violation("dump:" + key, "%r" % (r[1],))
        return
    data = bytes(r[1])
    b = attempt(lambda: load(priv, data))
    if b[0] or b[1] != want:
        sub.violation("roundtrip:" + key, "loads as %r" % (str(b[1])[:300],))
        return
    for other in (C.sc_add(priv, C.sc_init(1)), C.sc_init(1)):
        if not attempt(lambda: load(other, data))[0]:
            sub.violation("key:" + key, "opened with another key")
    magic = data.index(b"set" if b"set" in data[:30] else b"export") + 7
    for n in list(range(0, min(len(data), 140))) + list(range(140, len(data), 13)) + list(range(max(0, len(data) - 130), len(data))):
        sub.add(states=1, transitions=1)
        if not attempt(lambda: load(priv, data[:n]))[0]:
            sub.violation("truncated:" + key, "%d of %d bytes opened" % (n, len(data)))
            break
    for n in range(len(data)):
        if n > 200 and n % 17 and n < len(data) - 70:
            continue
        for bit in range(8) if n < magic + 40 or n > len(data) - 66 else [n % 8]:
            d = bytearray(data)
            d[n] ^= 1 << bit
            sub.add(states=1, transitions=1)
            if not attempt(lambda: load(priv, bytes(d)))[0]:
                sub.violation("flip:" + key, "bit %d of byte %d of %d flipped, opened" % (bit, n, len(data)))
                break
    if not attempt(lambda: load(priv, data + b"\0"))[0]:
        sub.violation("extended:" + key, "longer file opened")


def exports(sub, n):
    spend, view = C.sc_init(111 + n), C.sc_init(222 + n)
    tds = [td(n + i) for i in range(n)]
    want = (bytes(C.encodepoint(C.scalarmult_base(spend))), bytes(C.encodepoint(C.scalarmult_base(view))), fields(tds))

    def load(priv, d):
        o = run_(wallet.load_exported_outputs(priv, d))
        return bytes(o.m_spend_public_key), bytes(o.m_view_public_key), fields(list(o.tds))
    exact(sub, "exports:%d" % n, lambda: run_(wallet.save_exported_outputs(spend, view, list(tds))), load, want, view)
    exact(sub, "exports4:%d" % n, lambda: export4(spend, view, tds, 0), load, want, view)
    for off in (1, 2, n, n + 1, 1 << 32):
        if off:
            try:
                load(view, export4(spend, view, tds, off))
                ok = False
            except Exception:
                ok = True
            sub.add(states=1, transitions=1, traces=1)
            sub.expect(ok, "exports4:offset", "outputs exported from an offset are taken for all the outputs of the wallet", (n, off))
    good = {3: run_(wallet.save_exported_outputs(spend, view, list(tds))), 4: export4(spend, view, tds, 0)}
    at = len(wallet.OUTPUTS_PREFIX) - 1
    for v, d in good.items():
        for w in range(256):
            if w in good:
                continue
            e = bytearray(d)
            e[at] = w
            try:
                load(view, bytes(e))
                ok = False
            except Exception:
                ok = True
            sub.add(states=1, transitions=1, traces=1)
            sub.expect(ok, "exports:version", "a file of exported outputs is accepted under another version", (n, v, w))
    sub.case("exports")


def export4(spend, view, tds, off):
    """the outputs as a version 4 wallet exports them"""
    async def dump():
        w = xmrserialize.MemoryReaderWriter()
        ar = xmrboost.Archive(w, True)
        await ar.root()
        await ar.tuple([off, list(tds)], elem_type=wallet.ExportedOutputsV4)
        b = bytes(C.encodepoint(C.scalarmult_base(spend))) + bytes(C.encodepoint(C.scalarmult_base(view))) + bytes(w.get_buffer())
        return wallet.OUTPUTS_PREFIX[:-1] + b"\x04" + bytes(chacha.encrypt_xmr(view, bytearray(b), authenticated=True))
    return run_(dump())


def unsigned(sub, arg):
    ntx, ntd, nin, nout = arg
    view = C.sc_init(333)
    txs = [construction(nin + i, nout, i) for i in range(ntx)]
    tds = [td(i) for i in range(ntd)]
    msg = lambda: xmrtypes.UnsignedTxSet(txes=copy.deepcopy(txs), transfers=copy.deepcopy(tds))
    for hf in (9, 10):
        exact(sub, "unsigned:%d:%d:%d:%d" % arg + ":hf%d" % hf, lambda: run_(wallet.dump_unsigned_tx(view, msg(), hf=hf)), lambda priv, d: norm(run_(wallet.load_unsigned_tx(priv, d, hf=hf)), hf), norm(msg(), hf), view)
    sub.case("unsigned")


def norm(m, hf):
    f = fields(m)
    for t in f["transfers"] if hf < 10 else ():
        t.pop("m_uses", None)
        t.pop("m_key_image_requested", None)
    for t in f["txes"]:
        t.pop("rct_config", None)
        t.pop("use_bulletproofs", None)
        if hf < 10:
            for d in [t["change_dts"]] + t["splitted_dsts"] + t["dests"]:
                d.pop("original", None)
                d.pop("is_integrated", None)
        for s in t["sources"]:
            s.pop("multisig_kLRki", None)
    return f


def construction(nin, nout, i):
    K = lambda s: ref.keccak(b"c%d%s" % (i, s))
    src = []
    for j in range(nin):
        s = xmrtypes.TxSourceEntry()
        s.outputs = [(2 ** (7 * k) + j, xmrtypes.CtKey(dest=K(b"d%d%d" % (j, k)), mask=K(b"m%d%d" % (j, k)))) for k in range(3)]
        s.real_output, s.real_out_tx_key, s.real_out_additional_tx_keys = j % 3, K(b"r%d" % j), [K(b"a%d%d" % (j, k)) for k in range(j)]
        s.real_output_in_tx_index, s.amount, s.rct, s.mask = j, 2 ** (10 * j), True, K(b"k%d" % j)
        z = bytes(32)
        s.multisig_kLRki = xmrtypes.MultisigKLRki(K=z, L=z, R=z, ki=z)
        src.append(s)
    dst = lambda j: xmrtypes.TxDestinationEntry(amount=10 ** j, addr=xmrtypes.AccountPublicAddress(m_spend_public_key=K(b"s%d" % j), m_view_public_key=K(b"v%d" % j)), is_subaddress=bool(j % 2), original="o%d" % j, is_integrated=bool(j == 1))
    return xmrtypes.TxConstructionData(sources=src, change_dts=dst(0), splitted_dsts=[dst(j) for j in range(nout)], selected_transfers=list(range(nin)), extra=list(b"\x02\x09\x01" + K(b"e")[:8]), unlock_time=i, use_rct=True,
                                       use_bulletproofs=True, rct_config=xmrtypes.RCTConfig(range_proof_type=1, bp_version=0), dests=[dst(j) for j in range(1, nout)], subaddr_account=i, subaddr_indices=[0, 5, 300])


def worker(sub, it):
    {"bytes": bytes_, "settings": settings, "exports": exports, "unsigned": unsigned}[it[0]](sub, it[1])


def run(chk):
    chk.rule = __doc__
    items = [("settings", i) for i in range(len(SETTINGS))]
    items += [("bytes", ("triples", i, 8)) for i in range(8)]
    items += [("exports", n) for n in range(0, 5)]
    items += [("unsigned", a) for a in ((1, 0, 1, 2), (1, 2, 2, 2), (2, 1, 1, 3), (3, 4, 2, 2))]
    items += [("bytes", ("pairs", i, 16)) for i in (range(16) if chk.thorough else range(4))]
    items += [("bytes", ("quads", i, 4)) for i in (range(4) if chk.thorough else [])]
    pmap(chk, worker, items, 600)
