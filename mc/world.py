"""Synthetic wallets and transactions (built with the reference only), the reference host that
drives a device through the signing protocol, and the independent verifier of its result."""
import copy
import struct

from mc import env, ref
from mc.env import run
from mc.ref import L, enc, dec, mulG, mul, commit, enc_sc, dec_sc

from monero_glue import messages as M
from monero_glue import protobuf
from monero_glue.hwtoken import iface as tok_iface
from monero_glue.hwtoken import token
from monero_glue.messages import Failure
from monero_glue.xmr import crypto
from monero_glue.xmr.sub.creds import AccountCreds
from monero_serialize import xmrserialize, xmrtypes

NET = 1  # testnet


def wallet(tag):
    return ref.Wallet(ref.hs(b"spend" + tag.encode()), ref.hs(b"view" + tag.encode()))


SENDER = wallet("sender")
RCPT = [wallet("rcpt%d" % i) for i in range(4)]
OTHER = wallet("other-device")


def creds_of(w, net=NET):
    return AccountCreds.new_wallet(crypto.decodeint(enc_sc(w.a)), crypto.decodeint(enc_sc(w.b)), net)


class Inp:
    """A spendable output owned by a wallet, inside a ring."""

    def __init__(self, tag, owner, amount, major=0, minor=0, additional=False, ring=3, real=None, oidx=None,
                 gbase=None):
        t = tag.encode()
        self.amount, self.major, self.minor = amount, major, minor
        self.oidx = ref.hs(t + b"oidx") % 4 if oidx is None else oidx
        self.real = ref.hs(t + b"real") % ring if real is None else real
        S, V = owner.sub_pub(major, minor)
        issub = (major, minor) != (0, 0)
        r = ref.hs(t + b"r")
        self.add_keys = []
        R = mulG(r)
        if issub and not additional:
            R = mul(S, r)
        if additional:
            self.add_keys = [enc(mulG(ref.hs(t + b"add%d" % i))) for i in range(self.oidx + 2)]
            self.add_keys[self.oidx] = enc(mul(S, r) if issub else mulG(r))
            R = mulG(ref.hs(t + b"r-main"))
            if not issub:
                R = mulG(r)
        self.tx_key = enc(R)
        self.der = ref.derivation(V, r)
        self.x = (ref.deriv_scalar(self.der, self.oidx) + owner.sub_sec(major, minor)) % L
        self.P = enc(mulG(self.x))
        self.mask = ref.hs(t + b"mask")
        self.C = enc(commit(self.mask, amount))
        self.ki = enc(ref.key_image(self.x, self.P))
        self.ring = []
        g = ref.hs(t + b"g") % 100000 if gbase is None else gbase
        self.idxs = []
        for i in range(ring):
            g += 1 + ref.hs(t + b"gap%d" % i) % 300
            self.idxs.append(g)
            if i == self.real:
                self.ring.append((self.P, self.C))
            else:
                self.ring.append((enc(mulG(ref.hs(t + b"dP%d" % i))), enc(mulG(ref.hs(t + b"dC%d" % i)))))

    def pb(self):
        return M.MoneroTransactionSourceEntry(
            outputs=[M.MoneroOutputEntry(idx=i, key=M.MoneroRctKeyPublic(dest=d, commitment=c))
                     for i, (d, c) in zip(self.idxs, self.ring)],
            real_output=self.real, real_out_tx_key=self.tx_key, real_out_additional_tx_keys=list(self.add_keys),
            real_output_in_tx_index=self.oidx, amount=self.amount, rct=True, mask=enc_sc(self.mask))

    def xmr(self):
        s = xmrtypes.TxSourceEntry()
        s.outputs = [(i, xmrtypes.CtKey(dest=d, mask=c)) for i, (d, c) in zip(self.idxs, self.ring)]
        s.real_output = self.real
        s.real_out_tx_key = self.tx_key
        s.real_out_additional_tx_keys = list(self.add_keys)
        s.real_output_in_tx_index = self.oidx
        s.amount = self.amount
        s.rct = True
        s.mask = enc_sc(self.mask)
        Z = bytes(32)
        s.multisig_kLRki = xmrtypes.MultisigKLRki(K=Z, L=Z, R=Z, ki=Z)
        return s


class Out:
    def __init__(self, kind, amount, who=0, major=0, minor=0, owner=None):
        """kind: std | sub | chg | self (own subaddress)"""
        self.kind, self.amount = kind, amount
        if kind in ("chg", "self"):
            self.w = owner
        else:
            self.w = RCPT[who]
        self.major, self.minor = major, minor
        if kind == "sub" and (major, minor) == (0, 0):
            self.major, self.minor = 0, 3
        self.is_sub = (self.major, self.minor) != (0, 0)
        self.S, self.V = self.w.addr_enc(self.major, self.minor)

    def pb(self):
        return M.MoneroTransactionDestinationEntry(
            amount=self.amount, is_subaddress=self.is_sub,
            addr=M.MoneroAccountPublicAddress(spend_public_key=self.S, view_public_key=self.V))

    def xmr(self):
        return xmrtypes.TxDestinationEntry(
            amount=self.amount, is_subaddress=self.is_sub,
            addr=xmrtypes.AccountPublicAddress(m_spend_public_key=self.S, m_view_public_key=self.V),
            original=b"", is_integrated=False)


class Spec:
    """A transaction to be signed."""

    def __init__(self, name, inputs, outputs, change=None, pid=b"", hf=10, cv=1, account=0, unlock=0, ring=3,
                 owner=None, fee=None, change_dts=None, grouping=None, rsig_type=None):
        self.name = name
        self.owner = owner or SENDER
        self.inputs, self.outputs = inputs, outputs
        self.change = change  # index into outputs or None
        self.pid, self.hf, self.cv, self.account, self.unlock = pid, hf, cv, account, unlock
        self.fee = sum(i.amount for i in inputs) - sum(o.amount for o in outputs) if fee is None else fee
        self.change_dts = change_dts
        if change is not None and change_dts is None:
            self.change_dts = outputs[change]
        n = len(outputs)
        if rsig_type is None:
            rsig_type = 2 if n > 16 else 3
        self.rsig_type = rsig_type
        if grouping is None:
            if rsig_type == 3:
                grouping = [n]
            else:
                grouping, left = [], n
                while left:
                    b = 1
                    while b * 2 <= min(left, 16):
                        b *= 2
                    grouping.append(b)
                    left -= b
        self.grouping = grouping
        self.bp_version = 2 if hf >= 10 else 1
        self.det = self.bp_version >= 2 or cv > 0
        self.offload = n > 2

    def tsx_data(self):
        d = M.MoneroTransactionData(
            version=1, payment_id=self.pid or None, unlock_time=self.unlock, outputs=[o.pb() for o in self.outputs],
            change_dts=self.change_dts.pb() if self.change_dts else None, num_inputs=len(self.inputs),
            mixin=len(self.inputs[0].ring), fee=self.fee, account=self.account,
            minor_indices=sorted({i.minor for i in self.inputs}), client_version=self.cv,
            rsig_data=M.MoneroTransactionRsigData(rsig_type=self.rsig_type, grouping=list(self.grouping)))
        if self.bp_version >= 2:
            d.rsig_data.bp_version = 2
        return d

    def construction(self):
        """xmrtypes.TxConstructionData for the host agent"""
        extra = b""
        if len(self.pid) == 8:
            extra = bytes([2, 9, 1]) + self.pid
        elif len(self.pid) == 32:
            extra = bytes([2, 33, 0]) + self.pid
        return xmrtypes.TxConstructionData(
            sources=[i.xmr() for i in self.inputs],
            change_dts=self.change_dts.xmr() if self.change_dts else None,
            splitted_dsts=[o.xmr() for o in self.outputs], selected_transfers=list(range(len(self.inputs))),
            extra=list(extra), unlock_time=self.unlock, use_rct=True, use_bulletproofs=True,
            rct_config=xmrtypes.RCTConfig(range_proof_type=4, bp_version=self.bp_version),
            dests=[o.xmr() for i, o in enumerate(self.outputs) if i != self.change],
            subaddr_account=self.account, subaddr_indices=sorted({i.minor for i in self.inputs}))

    def expected_pid(self):
        """(kind, value): what the extra nonce must carry"""
        if len(self.pid) == 32:
            return "plain", self.pid
        dests = {(o.S, o.V) for i, o in enumerate(self.outputs)
                 if o.amount and not (self.change_dts and (o.S, o.V) == (self.change_dts.S, self.change_dts.V))}
        if len(self.pid) == 8:
            return "enc", self.pid
        if len(dests) <= 1:
            return "enc", bytes(8)
        return None, None


# ---------------------------------------------------------------------------------------
class Iface(tok_iface.TokenInterface):
    """User interface stand-in: scripted answers, records everything."""

    def __init__(self, answer=True, ki_answer=True):
        super().__init__()
        self.answer, self.ki_answer = answer, ki_answer
        self.log = []

    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        self.log.append(("confirm", pb_dump(tsx_data)))
        return self.answer

    async def confirm_ki_sync(self, init_msg, ctx=None):
        self.log.append(("confirm_ki", pb_dump(init_msg)))
        return self.ki_answer

    async def transaction_error(self, *a, **k):
        self.log.append(("error",))

    async def transaction_signed(self, ctx=None):
        self.log.append(("signed",))

    async def transaction_finished(self, ctx=None):
        self.log.append(("finished",))

    async def transaction_step(self, step, sub_step=None, sub_step_total=None):
        self.log.append(("step", step, sub_step, sub_step_total))

    async def ki_error(self, *a, **k):
        self.log.append(("ki_error",))


def pb_dump(msg):
    w = xmrserialize.MemoryReaderWriter()
    run(protobuf.dump_message(w, msg))
    return bytes(w.get_buffer())


def pb_load(cls, data):
    return run(protobuf.load_message(xmrserialize.MemoryReaderWriter(bytearray(data)), cls))


def wire(msg):
    """A message as it looks after travelling over the wire (no shared references)."""
    return pb_load(msg.__class__, pb_dump(msg))


class Dev:
    """The real device object behind a wire."""

    def __init__(self, w=None, answer=True, tag="dev"):
        self.w = w or SENDER
        self.tok = token.TokenLite()
        self.tok.debug = False
        self.tok.creds = creds_of(self.w)
        self.tok.iface = Iface(answer)
        self.iface = self.tok.iface
        self.rng_tag = tag
        self.nstep = 0

    def send(self, msg):
        """Deliver one signing message; returns the response as received by the host."""
        env.RNG.reset("%s/%d" % (self.rng_tag, self.nstep))
        self.nstep += 1
        self.iface.log.clear()
        r = run(self.tok.tsx_sign(wire(msg)))
        return wire(r)

    def ki(self, msg):
        env.RNG.reset("%s/ki/%d" % (self.rng_tag, self.nstep))
        self.nstep += 1
        self.iface.log.clear()
        r = run(self.tok.key_image_sync(wire(msg)))
        return wire(r)

    def clone(self):
        return copy.deepcopy(self)


def is_fail(r):
    return isinstance(r, Failure)


ACK = {"init": "MoneroTransactionInitAck", "inp": "MoneroTransactionSetInputAck",
       "perm": "MoneroTransactionInputsPermutationAck", "vini": "MoneroTransactionInputViniAck",
       "allin": "MoneroTransactionAllInputsSetAck", "out": "MoneroTransactionSetOutputAck",
       "bp": "MoneroTransactionSetOutputAck", "allout": "MoneroTransactionAllOutSetAck",
       "sign": "MoneroTransactionSignInputAck", "final": "MoneroTransactionFinalAck"}


class Host:
    """Reference host: knows the protocol, produces the next valid message from the replies so far."""

    def __init__(self, spec, perm=None):
        self.spec = spec
        n = len(spec.inputs)
        s = [("init", 0)] + [("inp", i) for i in range(n)] + [("perm", 0)] + [("vini", i) for i in range(n)]
        s += [("allin", 0)]
        pos, grp = 0, []
        for g in spec.grouping:
            grp.append((pos, pos + g))
            pos += g
        last = {b - 1: (a, b) for a, b in grp}
        for i in range(len(spec.outputs)):
            s.append(("out", i))
            if spec.offload and spec.det and i in last:
                s.append(("bp", i))
        self.last_in_batch = last
        s += [("allout", 0)] + [("sign", i) for i in range(n)] + [("final", 0)]
        self.script = s
        self.pos = 0
        self.acks = {}
        self.perm = perm
        self.bps = []
        self.sent = {}

    @property
    def done(self):
        return self.pos >= len(self.script)

    def cur(self):
        return self.script[self.pos]

    def build(self, step=None):
        kind, i = step or self.cur()
        sp = self.spec
        if kind == "init":
            return M.MoneroTransactionInitRequest(version=0, address_n=[2147483692, 2147483776, 2147483648],
                                                  network_type=NET, tsx_data=sp.tsx_data())
        if kind == "inp":
            return M.MoneroTransactionSetInputRequest(src_entr=sp.inputs[i].pb())
        if kind == "perm":
            return M.MoneroTransactionInputsPermutationRequest(perm=self.get_perm())
        if kind == "vini":
            j = self.get_perm()[i]
            a = self.acks[("inp", j)]
            return M.MoneroTransactionInputViniRequest(src_entr=sp.inputs[j].pb(), vini=a.vini, vini_hmac=a.vini_hmac,
                                                       orig_idx=j)
        if kind == "allin":
            return M.MoneroTransactionAllInputsSetRequest()
        if kind == "out":
            m = M.MoneroTransactionSetOutputRequest(dst_entr=sp.outputs[i].pb(),
                                                    dst_entr_hmac=self.acks[("init", 0)].hmacs[i])
            if sp.offload and not sp.det and i in self.last_in_batch:
                m.rsig_data = M.MoneroTransactionRsigData(rsig=self.prove(i))
            return m
        if kind == "bp":
            return M.MoneroTransactionSetOutputRequest(
                rsig_data=M.MoneroTransactionRsigData(rsig=self.prove(i)), is_offloaded_bp=True)
        if kind == "allout":
            return M.MoneroTransactionAllOutSetRequest()
        if kind == "sign":
            j = self.get_perm()[i]
            a = self.acks[("inp", j)]
            return M.MoneroTransactionSignInputRequest(
                src_entr=sp.inputs[j].pb(), vini=a.vini, vini_hmac=a.vini_hmac, pseudo_out=a.pseudo_out,
                pseudo_out_hmac=a.pseudo_out_hmac, pseudo_out_alpha=a.pseudo_out_alpha, spend_key=a.spend_key,
                orig_idx=j)
        if kind == "final":
            return M.MoneroTransactionFinalRequest()
        raise KeyError(kind)

    def get_perm(self):
        if self.perm is None:
            kis = [ki_of_vini(self.acks[("inp", i)].vini) for i in range(len(self.spec.inputs))]
            self.perm = sorted(range(len(kis)), key=lambda x: kis[x], reverse=True)
        return list(self.perm)

    def masks(self):
        sp = self.spec
        if sp.det:
            return [bytes(self.acks[("out", i)].rsig_data.mask) for i in range(len(sp.outputs))
                    if ("out", i) in self.acks]
        m = bytes(self.acks[("allin", 0)].rsig_data.mask)
        return [m[k * 32:k * 32 + 32] for k in range(len(m) // 32)]

    def prove(self, i):
        """Range proof for the batch ending at output i (host side; the real prover)."""
        a, b = self.last_in_batch[i]
        return prove_cached([self.spec.outputs[k].amount for k in range(a, b)], self.masks()[a:b])

    def feed(self, resp, step=None):
        self.acks[step or self.cur()] = resp
        if step is None:
            self.pos += 1

    def run(self, dev, upto=None, record=None):
        """Drive dev honestly; returns None or the failing (step, response)."""
        while not self.done and (upto is None or self.pos < upto):
            st = self.cur()
            m = self.build()
            r = dev.send(m)
            if record is not None:
                record.append((st, m, r))
            if r.__class__.__name__ != ACK[st[0]]:
                return st, r
            self.feed(r)
        return None


_BPC = {}


def prove_cached(amounts, masks):
    from monero_glue.xmr import ring_ct
    key = (tuple(amounts), tuple(masks))
    if key not in _BPC:
        snap = env.RNG.snapshot()
        env.RNG.reset("bp-prove")
        bp = run(ring_ct.prove_range_bp_batch(list(amounts), [crypto.decodeint(m) for m in masks]))
        env.RNG.restore(snap)
        out = bytes(bp.A) + bytes(bp.S) + bytes(bp.T1) + bytes(bp.T2) + bytes(bp.taux) + bytes(bp.mu)
        out += ref.varint(len(bp.L)) + b"".join(bytes(x) for x in bp.L)
        out += ref.varint(len(bp.R)) + b"".join(bytes(x) for x in bp.R)
        out += bytes(bp.a) + bytes(bp.b) + bytes(bp.t)
        _BPC[key] = out
    return _BPC[key]


def ki_of_vini(vini):
    b = bytes(vini)
    assert b[0] == 2
    _, p = ref.read_varint(b, 1)
    n, p = ref.read_varint(b, p)
    for _ in range(n):
        _, p = ref.read_varint(b, p)
    return b[p:p + 32]


def parse_vini(vini):
    """(amount, relative offsets, key image) - raises on trailing data"""
    b = bytes(vini)
    if b[0] != 2:
        raise ValueError("tag")
    amt, p = ref.read_varint(b, 1)
    n, p = ref.read_varint(b, p)
    offs = []
    for _ in range(n):
        o, p = ref.read_varint(b, p)
        offs.append(o)
    ki = b[p:p + 32]
    if len(ki) != 32 or p + 32 != len(b):
        raise ValueError("length")
    return amt, offs, ki


def parse_mg(sig):
    """MLSAG serialization without II: ss matrix (cols x rows) then cc.  Rows fixed to 2."""
    b = bytes(sig)
    n, p = ref.read_varint(b, 0)
    ss = []
    for _ in range(n):
        k, p = ref.read_varint(b, p)
        row = []
        for _ in range(k):
            row.append(dec_sc(b[p:p + 32]))
            p += 32
        ss.append(row)
    cc = dec_sc(b[p:p + 32])
    return ss, cc, b[p + 32:]


class TxResult:
    """Everything the host holds after a completed session."""

    def __init__(self, host):
        sp, a = host.spec, host.acks
        self.spec = sp
        self.perm = host.get_perm()
        self.vins = [bytes(a[("inp", j)].vini) for j in self.perm]
        self.vouts = [bytes(a[("out", i)].tx_out) for i in range(len(sp.outputs))]
        self.out_pk = [bytes(a[("out", i)].out_pk) for i in range(len(sp.outputs))]
        self.ecdh = [bytes(a[("out", i)].ecdh_info) for i in range(len(sp.outputs))]
        ao = a[("allout", 0)]
        self.extra = bytes(ao.extra)
        self.prefix_hash = bytes(ao.tx_prefix_hash)
        self.full_hash = bytes(ao.full_message_hash)
        self.rv_type, self.fee = ao.rv.rv_type, ao.rv.txn_fee
        self.sigs = [bytes(a[("sign", i)].signature) for i in range(len(sp.inputs))]
        self.pseudo = []
        for i, j in enumerate(self.perm):
            po = a[("sign", i)].pseudo_out
            self.pseudo.append(bytes(po) if po and sp.det else bytes(a[("inp", j)].pseudo_out))
        self.bps = []
        for i in sorted(host.last_in_batch):
            if sp.offload:
                raw = host.prove(i)
            else:
                raw = bytes(a[("out", i)].rsig_data.rsig)
            self.bps.append(raw)
        self.batches = [host.last_in_batch[i] for i in sorted(host.last_in_batch)]
        self.fin = a.get(("final", 0))


def verify_tx(tx, deep_bp=True):
    """Independent verification of a finished transaction against its spec. Yields (aspect, problem)."""
    sp = tx.spec
    n_in, n_out = len(sp.inputs), len(sp.outputs)
    bad = []

    def req(c, aspect, msg):
        if not c:
            bad.append((aspect, msg))
        return c

    # --- inputs
    kis = []
    for i, j in enumerate(tx.perm):
        inp = sp.inputs[j]
        amt, offs, ki = parse_vini(tx.vins[i])
        req(amt == 0, "vin", "nonzero amount in rct input")
        rel = [inp.idxs[0]] + [b - a for a, b in zip(inp.idxs, inp.idxs[1:])]
        req(offs == rel, "vin", "key offsets of input %d differ from its ring" % j)
        req(ki == inp.ki, "keyimage", "key image of input %d is wrong" % j)
        kis.append(ki)
    req(len(set(kis)) == len(kis), "dupki", "duplicate key images")
    # --- outputs / extra
    ex = ref.parse_extra(tx.extra)
    if not req(len(ex["pub"]) == 1, "extra", "tx public key missing or duplicated"):
        return bad
    req(ex["additional"] is None or len(ex["additional"]) == n_out, "extra", "additional key count")
    pk_keys = []
    masks = []
    for i, o in enumerate(sp.outputs):
        vo = tx.vouts[i]
        req(len(vo) == 34 and vo[0] == 0 and vo[1] == 2, "vout", "output %d malformed" % i)
        key, com = tx.out_pk[i][:32], tx.out_pk[i][32:]
        req(len(tx.out_pk[i]) == 64, "vout", "out_pk %d length" % i)
        req(vo[2:] == key, "vout", "out_pk.dest differs from tx output key %d" % i)
        pk_keys.append(key)
        got = o.w.receive(key, i, ex["pub"][0], ex["additional"], [(0, 0), (o.major, o.minor)])
        if not req(got is not None and got[0] == (o.major, o.minor), "recipient",
                   "output %d cannot be found by its recipient (%s)" % (i, o.kind)):
            masks.append(None)
            continue
        sub, der = got
        xs = o.w.spend_key(sub, der, i)
        req(enc(mulG(xs)) == key, "recipient", "recipient cannot derive the spend key of output %d" % i)
        ak = ref.deriv_scalar(der, i)
        if sp.bp_version >= 2:
            req(len(tx.ecdh[i]) == 8, "ecdh", "ecdh length")
            amount = int.from_bytes(bytes(x ^ y for x, y in zip(
                tx.ecdh[i], ref.keccak(b"amount" + enc_sc(ak))[:8])), "little")
            mask = ref.commitment_mask(ak)
        else:
            req(len(tx.ecdh[i]) == 64, "ecdh", "ecdh length")
            s1 = ref.hs(enc_sc(ak))
            s2 = ref.hs(enc_sc(s1))
            mask = (dec_sc(tx.ecdh[i][:32]) - s1) % L
            amount = (dec_sc(tx.ecdh[i][32:]) - s2) % L
        req(amount == o.amount, "ecdh", "recipient of output %d decodes amount %d, confirmed %d" % (i, amount, o.amount))
        req(enc(commit(mask, o.amount)) == com, "commitment", "commitment of output %d does not open to its amount" % i)
        masks.append(mask)
    # nobody else finds them
    req(len(set(pk_keys)) == len(pk_keys), "vout", "duplicate output keys")
    # --- payment id
    kind, val = sp.expected_pid()
    if kind is None:
        req(ex["nonce"] == [], "pid", "unexpected nonce")
    elif kind == "plain":
        req(ex["nonce"] == [b"\x00" + val], "pid", "payment ID not in extra")
    else:
        if req(len(ex["nonce"]) == 1 and len(ex["nonce"][0]) == 9 and ex["nonce"][0][0] == 1, "pid",
               "encrypted payment ID missing"):
            for o in sp.outputs:
                if sp.change_dts and (o.S, o.V) == (sp.change_dts.S, sp.change_dts.V):
                    continue
                if not o.amount:
                    continue
                # recipient decrypts with view key of the address and the tx pub key; for a lone subaddress R=r*D
                d = ref.pid_crypt(ex["nonce"][0][1:], dec(ex["pub"][0]), o.w.a)
                if not o.is_sub or len([p for p in sp.outputs if p is not o and not (
                        sp.change_dts and (p.S, p.V) == (sp.change_dts.S, sp.change_dts.V))]) == 0:
                    req(d == val, "pid", "recipient decrypts a different payment ID")
    # --- money
    req(tx.fee == sp.fee, "fee", "fee in the signed message is %d, confirmed %d" % (tx.fee, sp.fee))
    req(sp.fee >= 0 and sum(i.amount for i in sp.inputs) == sum(o.amount for o in sp.outputs) + sp.fee, "fee",
        "amounts do not balance")
    s_in = ref.ID
    for p in tx.pseudo:
        s_in = ref.add(s_in, dec(p))
    s_out = ref.mulH(sp.fee)
    for k in tx.out_pk:
        s_out = ref.add(s_out, dec(k[32:]))
    req(ref.eq(s_in, s_out), "balance", "pseudo outputs do not balance outputs + fee")
    # --- hashes
    pre = ref.prefix_bytes(2, sp.unlock, tx.vins, tx.vouts, tx.extra)
    req(ref.keccak(pre) == tx.prefix_hash, "prefix_hash", "transaction prefix hash differs from the transaction")
    req(tx.rv_type == (4 if sp.bp_version >= 2 else 3), "rct", "rct type")
    bps = []
    for raw in tx.bps:
        o, p = ref.bp_parse(raw)
        req(p == len(raw), "bp", "trailing data after the range proof")
        bps.append(o)
    msg = ref.rct_message(tx.prefix_hash, tx.rv_type, tx.fee, tx.ecdh, [k[32:] for k in tx.out_pk], bps)
    req(msg == tx.full_hash, "message_hash", "signed message hash differs from the transaction")
    # --- signatures
    for i, j in enumerate(tx.perm):
        inp = sp.inputs[j]
        ss, cc, rest = parse_mg(tx.sigs[i])
        req(rest == b"", "mlsag", "trailing data in signature")
        ok = len(ss) == len(inp.ring) and all(len(r) == 2 for r in ss) and ref.mlsag_simple_verify(
            msg, inp.ring, tx.pseudo[i], kis[i], ss, cc)
        req(ok, "mlsag", "ring signature of input %d does not verify" % i)
    # --- range proofs
    req(len(bps) == len(tx.batches) and [k for a, b in tx.batches for k in range(a, b)] == list(range(n_out)), "bp",
        "range proofs do not cover every output exactly once")
    if deep_bp:
        for (a, b), o in zip(tx.batches, bps):
            V = [enc(mul(dec(k[32:]), ref.INV8)) for k in tx.out_pk[a:b]]
            req(ref.bp_verify(V, o), "bp", "range proof for outputs %d..%d does not verify" % (a, b - 1))
    return bad


# ---- ready-made specs --------------------------------------------------------------------
def inp(tag, amount, **kw):
    return Inp(tag, kw.pop("owner", SENDER), amount, **kw)


def chg(amount, account=0):
    return Out("chg", amount, owner=SENDER, major=account, minor=0)


def std(amount, who=0):
    return Out("std", amount, who)


def sub(amount, who=1, major=0, minor=3):
    return Out("sub", amount, who, major, minor)


def simple_spec(n_in=2, n_out=2, hf=10, cv=1, name=None, seed="", **kw):
    ins = [inp("i%s%d" % (seed, i), 10000 * (i + 1) + 7 * i, minor=i % 2) for i in range(n_in)]
    tot = sum(i.amount for i in ins)
    outs = [std(500 + 11 * i, i % 3) for i in range(n_out - 1)]
    c = tot - sum(o.amount for o in outs) - 137
    outs.append(chg(c))
    return Spec(name or "s%d_%d_hf%d_cv%d%s" % (n_in, n_out, hf, cv, seed), ins, outs, change=n_out - 1, hf=hf, cv=cv, **kw)


def check_timeout():
    from mc import check
    return check.CaseTimeout
