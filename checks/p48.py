"""P48: what the wallet asked to be signed is what it gets back.

The real HostAgent.sign_unsigned / sign / key_image_sync with the real agent and the real device run on sealed unsigned sets (one to three transactions, one to three inputs, every assignment of
the inputs to the wallet's transfers, with and without the transfer list, both file generations) and output exports. The returned signed set and the files written are parsed and every transaction
is verified independently; each key image has to stand at the place of its transfer. Every message of a run is made to fail and every confirmation pattern is tried: then nothing is returned, written as signed, or submitted."""
import asyncio
import binascii
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import tempfile

from mc import env, hostagent, ref, world
from mc.check import pmap

env.install_rng()

from monero_glue.agent import agent_lite
from monero_glue.xmr import crypto, wallet
from monero_glue.xmr.enc import chacha, chacha_poly
from monero_poc import agent as pagent
from monero_serialize import xmrboost, xmrserialize, xmrtypes
from checks import p12, p16, p44
from checks.p36 import attempt

# 2048 bytes of PBKDF2 with 1000 rounds take seconds: a stand-in (P36 checks the function itself)
_pbkdf2 = crypto.pbkdf2


def pbkdf2(inp, salt, length=32, count=1000, prf=None):
    return ref.keccak(b"kdf" + bytes(inp) + bytes(salt) + b"%d.%d" % (length, count))


crypto.pbkdf2 = pbkdf2
M = world.M
W = world.SENDER
VIEW = crypto.decodeint(ref.enc_sc(W.a))
SPEND = crypto.decodeint(ref.enc_sc(W.b))


class Proxy:
    """stands for monero-wallet-rpc and for the terminal"""

    def __init__(self, export=None):
        self.submitted, self.imported, self.export = [], [], export

    def submit_transfer(self, p):
        self.submitted.append(p)
        return {"result": {"tx_hash_list": ["00"]}}

    def export_outputs(self):
        return {"result": {"outputs_data_hex": binascii.hexlify(self.export).decode()}}

    def import_key_images(self, p):
        self.imported.append(p)
        return {"result": {"height": 1, "spent": 2, "unspent": 3}}


class Host(pagent.HostAgent):
    def __init__(self, agent, answer=True, export=None):
        self.agent = agent
        self.priv_view = VIEW
        self.pub_spend, self.pub_view = crypto.scalarmult_base(SPEND), crypto.scalarmult_base(VIEW)
        self.network_type = world.NET
        self.trezor_proxy = self
        self.wallet_proxy = Proxy(export)
        self.trace_logger = type("L", (), {"log": lambda *a: None})()
        self.answer, self.asked = answer, 0

    async def ping(self, *a, **k):
        return True

    def ask_proceed_quit(self, *a, **k):
        self.asked += 1
        return self.PROCEED_YES if self.answer else self.PROCEED_NO

    def poutput(self, *a, **k):
        pass

    def perror(self, *a, **k):
        pass


def specs_of(shape):
    r = []
    for t, n in enumerate(shape):
        ins = [world.inp("p48-%d-%d" % (t, i), 10 ** 6 * (i + 1) + t, minor=(i + t) % 2, additional=(i == 1)) for i in range(n)]
        left = sum(i.amount for i in ins) - 5000 - 100 - t
        r.append(world.Spec("t%d" % t, ins, [world.std(5000, t % 2), world.chg(left)], change=1, hf=10, cv=1))
    return r


def rec(i, base):
    t = p44.td(i)
    t.m_key_image = ref.keccak(b"known%d" % i)
    return t


def unsigned(specs, sel, ntr, hf):
    txs = []
    for s, x in zip(specs, sel):
        c = s.construction()
        c.selected_transfers = list(x)
        for d in [c.change_dts] + c.splitted_dsts + c.dests:
            d.original = ""
        txs.append(c)
    msg = xmrtypes.UnsignedTxSet(txes=txs, transfers=[rec(i, 0) for i in range(ntr)])
    return bytes(env.run(wallet.dump_unsigned_tx(VIEW, msg, hf=hf)))


@contextlib.contextmanager
def scratch():
    d, old = tempfile.mkdtemp(prefix="p48"), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def go(specs, data, answer=True, alter=None, canned=(), confirm=None, by_file=False, priv=None):
    dev = hostagent.new_dev(specs[0])
    if confirm is not None:
        left = list(confirm)
        dev.iface.answer = None

        async def ask(tsx_data, creds=None, ctx=None):
            return left.pop(0)
        dev.iface.confirm_transaction = ask
    link = hostagent.Link(dev, canned, alter)
    h = Host(hostagent.make_agent(link, specs[0]), answer)
    if priv is not None:
        h.priv_view = priv
    env.RNG.reset("host/start")
    with contextlib.redirect_stdout(io.StringIO()):
        if by_file:
            with open("unsigned", "wb") as f:
                f.write(data)
            r = attempt(lambda: asyncio_run(h.sign_wrap("unsigned")))
        else:
            r = attempt(lambda: asyncio_run(h.sign_unsigned(data)))
    return h, link, r


def asyncio_run(co):
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("waits for an event loop")


_seen, _replies = {}, {}


def parse_signed(d):
    d = bytes(d)
    p = wallet.SIGNED_TX_PREFIX
    if d[:len(p)] != p:
        raise ValueError("prefix")
    plain = chacha.decrypt_xmr(VIEW, d[len(p):], authenticated=True)
    return boost(xmrtypes.SignedTxSet(), plain)


def boost(m, plain):
    rw = xmrserialize.MemoryReaderWriter(bytearray(plain))
    ar = xmrboost.Archive(rw, False)

    async def f():
        await ar.root()
        await ar.message(m)
    asyncio_run(f())
    if len(rw.get_buffer()):
        raise ValueError("trailing data")
    return m


def judge(v, specs, sel, ntr, data, final):
    """final: sealed signed set"""
    s = parse_signed(final)
    shapes = tuple(len(sp.inputs) for sp in specs)
    if len(s.ptx) != len(specs):
        return v("count", "%d transactions of %d" % (len(s.ptx), len(specs)))
    n = ntr or max(x for y in sel for x in y) + 1
    want = [ref.keccak(b"known%d" % i) if ntr else ref.enc(ref.ID) for i in range(n)]
    for sp, x in zip(specs, sel):
        for i, k in zip(sp.inputs, x):
            want[k] = i.ki
    got = [bytes(k) for k in s.key_images]
    if got != want:
        v("key-images", "at places %s (of %d, wanted %d)" % ([i for i, (a, b) in enumerate(zip(got, want)) if a != b], len(got), len(want)))
    orig = env.run(wallet.load_unsigned_tx(VIEW, data))
    for t, (sp, p, x) in enumerate(zip(specs, s.ptx, sel)):
        try:
            blob = open("transaction_%02d" % t, "rb").read()
        except OSError as e:
            v("file", repr(e))
            continue
        if (shapes, t, blob) not in _seen:
            _seen[(shapes, t, blob)] = hostagent.problems(blob, sp)
        for q in _seen[(shapes, t, blob)]:
            v("tx%d" % t, q)
        if tx_prefix(p.tx) != blob[:len(tx_prefix(p.tx))]:
            v("pending", "transaction %d of the signed set differs from the one written" % t)
        if list(p.selected_transfers) != list(x):
            v("pending", "selected transfers of %d: %s" % (t, list(p.selected_transfers)))
        a, b = p44.fields(p.construction_data), p44.fields(orig.txes[t])
        for f in ("use_rct", "use_bulletproofs", "sources", "splitted_dsts", "selected_transfers", "unlock_time", "change_dts", "dests", "subaddr_account", "subaddr_indices", "extra"):
            if f == "extra":
                continue
            x, y = strip(a.get(f)), strip(b.get(f))
            if f == "sources":      # signing may reorder them
                x, y = sorted(x, key=repr), sorted(y, key=repr)
            if x != y:
                v("construction", "%s of transaction %d" % (f, t))
        tx = hostagent.Tx(blob, sp)
        name = "transaction_%s.json" % tx.prefix_hash[:12].hex()
        try:
            js = json.load(open(name))
        except (OSError, ValueError) as e:
            v("stored", "data for later proofs: %r" % e)
            continue
        if js["hash"] != tx.prefix_hash.hex():
            v("stored", "hash")
        key = p12.sealing_key(W.b, tx.prefix_hash, bytes.fromhex(js["enc_salt1"]), int.from_bytes(bytes.fromhex(js["enc_salt2"]), "little"))
        plain = p12.open_blob(key, bytes.fromhex(js["tx_keys"]))
        R = ref.parse_extra(tx.extra)["pub"][0]
        if plain is None or ref.enc(ref.mulG(int.from_bytes(plain[:32], "little"))) != R:
            v("stored", "the stored keys of transaction %d cannot be opened by the owner" % t)
        for kdf in (pbkdf2, _pbkdf2):
            vk = kdf(tx.prefix_hash + ref.enc_sc(W.a), bytes.fromhex(js["tx_salt"]), 2048)
            mac = crypto.compute_hmac(crypto.keccak_2hash(b"hmac;" + vk), bytes.fromhex(js["tx_signed"]))
            if mac.hex() == js["tx_signed_hmac"]:
                break
        else:
            v("stored", "code of the stored transaction")
        r = attempt(lambda: boost(xmrtypes.UnsignedTxSet(), chacha_poly.decrypt_pack(crypto.keccak_2hash(b"unsigned;" + vk), bytes.fromhex(js["unsigned_data"]))))
        if r[0]:
            v("stored", "construction data cannot be read back: %r" % (r[1],))
        elif len(r[1].txes) != 1 or sorted(map(repr, strip(p44.fields(r[1].txes[0])["sources"]))) != sorted(map(repr, strip(b["sources"]))) or strip(p44.fields(r[1].txes[0])["splitted_dsts"]) != strip(b["splitted_dsts"]):
            v("stored", "other construction data")
        js2 = bytes.fromhex(js["tx_signed"])
        if tx_prefix(p.tx) not in js2:
            v("stored", "another transaction is stored")


def strip(x):
    """what differs between file generations"""
    if isinstance(x, list):
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(y) for k, y in x.items() if k not in ("original", "is_integrated", "multisig_kLRki")}
    return x


def tx_prefix(tx):
    w = xmrserialize.MemoryReaderWriter()

    async def f():
        p = xmrtypes.TransactionPrefix(version=tx.version, unlock_time=tx.unlock_time, vin=tx.vin, vout=tx.vout, extra=tx.extra)
        await xmrserialize.Archive(w, True).message(p)
    asyncio_run(f())
    return bytes(w.get_buffer())


def sign(sub, it):
    shape, sel, ntr, hf, by_file = it
    specs = specs_of(shape)
    key = "%s:%s:%s:hf%d:%s" % ("-".join(map(str, shape)), "/".join(",".join(map(str, x)) for x in sel), ntr, hf, "file" if by_file else "data")
    v = lambda w, d: sub.violation("%s:%s" % (w, key), str(d))
    with scratch():
        data = unsigned(specs, sel, ntr, hf)
        # the device's answers do not depend on the assignment to transfers: reused between items
        h, link, r = go(specs, data, by_file=by_file, canned=_replies.get(shape, ()))
        _replies.setdefault(shape, link.replies)
        sub.add(states=len(link.sent), transitions=len(link.sent), traces=1)
        if r[0]:
            return v("fails", repr(r[1]))
        if by_file:
            if isinstance(r[1], int) or r[1] is None:
                return v("fails", repr(r[1]))
            final = r[1]
            if h.wallet_proxy.submitted:
                v("submitted", "although only a signature was asked for")
        else:
            if len(h.wallet_proxy.submitted) != 1 or h.asked != 1:
                return v("submit", "%d times, asked %d" % (len(h.wallet_proxy.submitted), h.asked))
            final = bytes.fromhex(h.wallet_proxy.submitted[0]["tx_data_hex"])
        if open("signed_monero_tx", "rb").read() != bytes(final):
            v("file", "signed_monero_tx differs from what was returned")
        r = attempt(lambda: judge(v, specs, sel, ntr, data, final))
        if r[0]:
            v("malformed", repr(r[1]))
    sub.case("signed-" + ("tr" if ntr else "notr"))


def nothing(sub, key, h, r, asked=0):
    v = lambda w, d: sub.violation("%s:%s" % (w, key), str(d))
    if h.wallet_proxy.submitted:
        v("submitted", h.wallet_proxy.submitted)
    if os.path.exists("signed_monero_tx"):
        v("written", "a signed set")
    if not r[0] and isinstance(r[1], (bytes, bytearray)):
        v("returned", "%d bytes" % len(r[1]))
    if h.asked != asked:
        v("asked", "%d times to submit" % h.asked)


def faults(sub, it):
    shape, part, parts = it
    specs = specs_of(shape)
    sel = [tuple(range(10 * t, 10 * t + n)) for t, n in enumerate(shape)]
    with scratch():
        data = unsigned(specs, sel, 40, 10)
        h, link, r = go(specs, data)
        good = link.replies
        bad = [("failure", lambda: M.Failure(code=99, message="no")), ("none", lambda: None), ("exc", None), ("ack", lambda: M.MoneroKeyImageSyncStepAck())]
    for n in range(part, len(good), parts):
        for name, mk in bad:
            def alter(k, r, n=n, mk=mk):
                if k != n:
                    return r
                if mk is None:
                    raise OSError("wire")
                return mk()
            with scratch():
                h, link, r = go(specs, data, alter=alter, canned=good)
                sub.add(states=1, transitions=len(link.sent), traces=1)
                nothing(sub, "fault:%s:%d:%s" % (shape, n, name), h, r)
                if len(link.sent) != n + 1:
                    sub.violation("goes-on:%s:%d:%s" % (shape, n, name), "%d messages after the failed one" % (len(link.sent) - n - 1))
    sub.case("faults")


def confirms(sub, shape):
    """every pattern of answers on the device and at the prompt; a wrong view key"""
    specs = specs_of(shape)
    sel = [tuple(range(10 * t, 10 * t + n)) for t, n in enumerate(shape)]
    with scratch():
        data = unsigned(specs, sel, 40, 10)
    for pat in itertools.product((True, False), repeat=len(shape)):
        for ans in (True, False):
            with scratch():
                h, link, r = go(specs, data, answer=ans, confirm=pat)
                sub.add(states=1, transitions=len(link.sent), traces=1)
                key = "confirm:%s:%s:%s" % (shape, "".join("ny"[x] for x in pat), ans)
                if all(pat):
                    if r[0] or len(h.wallet_proxy.submitted) != int(ans):
                        sub.violation(key, "submitted %d times, %r" % (len(h.wallet_proxy.submitted), r))
                else:
                    nothing(sub, key, h, r)
    with scratch():
        h, link, r = go(specs, data, priv=crypto.sc_add(VIEW, crypto.sc_init(1)))
        nothing(sub, "wrong-key:%s" % (shape,), h, r)
        if link.sent:
            sub.violation("wrong-key-sent:%s" % (shape,), "%d messages" % len(link.sent))
    for n in list(range(0, len(data), max(1, len(data) // 40))):
        d = bytearray(data)
        d[n] ^= 1
        with scratch():
            h, link, r = go(specs, bytes(d))
            nothing(sub, "damaged:%s:%d" % (shape, n), h, r)
            if link.sent:
                sub.violation("damaged-sent:%s:%d" % (shape, n), "%d messages" % len(link.sent))
    sub.case("confirm")


def owned(i, n):
    inp = world.inp("p48-o%d" % i, 1000 + i, minor=i % 3, additional=bool(i % 2))
    t, x = p44.td(i), p16.transfer(inp)
    t.m_tx, t.m_internal_output_index, t.m_subaddr_index, t.m_amount = x.m_tx, x.m_internal_output_index, x.m_subaddr_index, x.m_amount
    return inp, t


def sync(sub, n):
    inps = [owned(i, n) for i in range(n)]
    for whose in ("own", "foreign spend key", "foreign view key"):
        sp = SPEND if whose != "foreign spend key" else crypto.sc_add(SPEND, crypto.sc_init(1))
        exp = bytes(env.run(wallet.save_exported_outputs(sp, VIEW, [copy.deepcopy(t) for _, t in inps])))
        dev = world.Dev(W)
        px = p16.Proxy(dev)
        h = Host(agent_lite.Agent(px, network_type=world.NET), export=exp)
        if whose == "foreign view key":
            h.pub_view = crypto.scalarmult_base(crypto.sc_add(VIEW, crypto.sc_init(1)))
        env.RNG.reset("p48")
        with contextlib.redirect_stdout(io.StringIO()):
            r = attempt(lambda: asyncio_run(h.key_image_sync("")))
        sub.add(states=n + 1, transitions=px.n, traces=1)
        key = "sync:%d:%s" % (n, whose)
        if whose != "own":
            if h.wallet_proxy.imported or px.n:
                sub.violation(key, "outputs of another wallet: %d messages, %d imports" % (px.n, len(h.wallet_proxy.imported)))
            continue
        if r[0] or len(h.wallet_proxy.imported) != 1:
            sub.violation(key, "%r, %d imports" % (r, len(h.wallet_proxy.imported)))
            continue
        recs = h.wallet_proxy.imported[0]["signed_key_images"]
        if [x["key_image"] for x in recs] != [i.ki.hex() for i, _ in inps]:
            sub.violation(key, "key images imported: %s" % [x["key_image"][:8] for x in recs])
            continue
        for (i, _), x in zip(inps, recs):
            s = bytes.fromhex(x["signature"])
            if len(s) != 64 or not ref.ring_sig_verify(i.ki, i.ki, [i.P], [(ref.dec_sc(s[:32]), ref.dec_sc(s[32:]))]):
                sub.violation(key, "signature of a key image")
    sub.case("sync")


def worker(sub, it):
    {"sign": sign, "faults": faults, "confirms": confirms, "sync": sync}[it[0]](sub, it[1])


def run(chk):
    chk.rule = __doc__
    t = chk.thorough
    items = []
    for n in (1, 2, 3):
        for sel in itertools.permutations(range(4), n):
            for ntr in (4, 0):
                items.append(("sign", ((n,), [sel], ntr, 10, False)))
    for shape in ((1, 1), (2, 1), (2, 3), (3, 2, 1)):
        m = sum(shape)
        perms = itertools.islice(itertools.permutations(range(m)), 0, None, max(1, [1, 1, 2, 6, 24, 120, 720][m] // (24 if t else 6)))
        for q, perm in enumerate(perms):
            sel, pos = [], 0
            for n in shape:
                sel.append(tuple(perm[pos:pos + n]))
                pos += n
            items.append(("sign", (shape, sel, (m + 2) * (q % 2), 10, q % 3 == 0)))
    items += [("faults", (s, p, 4)) for s in ((1,), (2, 1)) for p in range(4)]
    items += [("confirms", s) for s in ((1,), (1, 2), (1, 1, 1))]
    items += [("sync", n) for n in (range(0, 13) if not t else range(0, 32))]
    pmap(chk, worker, items, 600)
    chk.extra["bounds"] = "%d sets of up to 3 transactions with up to 3 inputs; failures at every message; exports of up to %d outputs" % (len(items), 12 if not t else 31)
