"""P12: the transaction's secret keys can be recovered by the owner and by nobody else.

Every shape of transaction keys (single subaddress, additional keys, none) is signed by the real device; the blob of the last
message is opened with an independent implementation of the documented scheme and compared with the published keys; every bit
of every blob is flipped, every parameter replaced; every reply of the session is searched for the secrets; a second part runs
the host's recovery protocol (get_tx_key) against a reference device with every reply damaged."""
import itertools

from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from mc import env, ref, world
from mc.check import pmap
from mc.explore import *
from mc.ref import enc, mul, mulG, dec, enc_sc, dec_sc, keccak
from checks.p08 import mk

L = ref.L


def sealing_key(spend, prefix_hash, salt, rand_mult):
    """documented derivation: HMAC-Keccak(salt, H(H(spend + rand_mult || prefix hash)))"""
    return ref.hmac_keccak(salt, keccak(keccak(enc_sc((spend + rand_mult) % L) + prefix_hash)))


def open_blob(key, blob):
    try:
        return ChaCha20Poly1305(key).decrypt(bytes(blob[:12]), bytes(blob[12:]), None)
    except Exception:
        return None


def secrets_of(spec, plain):
    w = spec.owner
    out = {"spend key": enc_sc(w.b), "view key": enc_sc(w.a)}
    for i in range(len(plain) // 32):
        out["tx key %d" % i] = plain[32 * i:32 * i + 32]
    return out


def session(spec, tag):
    dev, h = Dev(spec.owner, tag=tag), Host(spec)
    replies = []
    while not h.done:
        st = h.cur()
        r = dev.send(h.build())
        if is_fail(r):
            return None, (st, r.message), None
        replies.append((st, world.pb_dump(r)))
        h.feed(r)
    return h, None, replies


def blob_case(sub_, item):
    name, c, deep = item
    spec = mk(*c)
    h, err, replies = session(spec, "dev")
    if h is None:
        sub_.violation("refused:" + name, "well-formed transaction refused at %s" % (err,))
        return
    tx = world.TxResult(h)
    fin = tx.fin
    salt, rm, blob = bytes(fin.salt), bytes(fin.rand_mult), bytes(fin.tx_enc_keys)
    w = spec.owner
    sub_.add(states=1, transitions=len(replies), traces=1)
    sub_.case(name)
    if not sub_.expect(len(salt) == 32 and len(rm) == 32, "params:" + name, "salt/rand_mult have length %d/%d" % (len(salt), len(rm))):
        return
    key = sealing_key(w.b, tx.prefix_hash, salt, dec_sc(rm))
    plain = open_blob(key, blob)
    if plain is None:
        sub_.violation("open:" + name, "the owner cannot open the blob of secret keys")
        return
    ex = ref.parse_extra(tx.extra)
    nadd = len(ex["additional"] or [])
    if not sub_.expect(len(plain) == 32 * (1 + nadd), "len:" + name, "blob holds %d bytes for %d additional keys" % (len(plain), nadd)):
        return
    keys = [dec_sc(plain[32 * i:32 * i + 32]) for i in range(1 + nadd)]
    sub_.expect(all(0 < k < L for k in keys) and len(set(keys)) == len(keys), "range:" + name, "keys out of range or equal")
    # R = r*G, or r*D for a lone subaddress destination
    cands = [enc(mulG(keys[0]))] + [enc(mul(dec(o.S), keys[0])) for o in spec.outputs if o.is_sub]
    sub_.expect(ex["pub"][0] in cands, "pub:" + name, "recovered key does not match the published transaction key")
    for i in range(nadd):
        o = spec.outputs[i]
        want = enc(mul(dec(o.S), keys[1 + i])) if o.is_sub else enc(mulG(keys[1 + i]))
        sub_.expect(ex["additional"][i] == want, "add:%s:%d" % (name, i), "recovered additional key %d does not match" % i)
    # nobody else
    wrong = [("view key", sealing_key(w.a, tx.prefix_hash, salt, dec_sc(rm))),
             ("other wallet", sealing_key(OTHER.b, tx.prefix_hash, salt, dec_sc(rm))),
             ("spend key 0", sealing_key(0, tx.prefix_hash, salt, dec_sc(rm))),
             ("other tx", sealing_key(w.b, tx.full_hash, salt, dec_sc(rm))),
             ("zero tx", sealing_key(w.b, bytes(32), salt, dec_sc(rm))),
             ("other salt", sealing_key(w.b, tx.prefix_hash, keccak(salt), dec_sc(rm))),
             ("zero salt", sealing_key(w.b, tx.prefix_hash, bytes(32), dec_sc(rm))),
             ("other mult", sealing_key(w.b, tx.prefix_hash, salt, (dec_sc(rm) + 1) % L)),
             ("no mult", sealing_key(w.b, tx.prefix_hash, salt, 0)),
             ("raw prefix hash", tx.prefix_hash), ("salt", salt), ("rand_mult", rm), ("zero", bytes(32))]
    for lab, k in wrong:
        sub_.expect(k == key or open_blob(k, blob) is None, "wrongkey:%s:%s" % (name, lab), "blob opens with %s" % lab)
        sub_.add(transitions=1)
    # the real opener refuses every modification
    from monero_glue.xmr.enc import chacha_poly
    def opens(b):
        try:
            return chacha_poly.decrypt_pack(key, bytes(b)) is not None
        except Exception:
            return False
    sub_.expect(opens(blob), "reopen:" + name, "library cannot open the blob")
    step = 1 if deep else 3
    for bit in range(0, 8 * len(blob), step):
        b = bytearray(blob)
        b[bit // 8] ^= 1 << (bit % 8)
        sub_.expect(not opens(b), "bit:%s:%d" % (name, bit), "blob with bit %d flipped is accepted" % bit)
        sub_.add(transitions=1)
    for n in range(len(blob)):
        sub_.expect(not opens(blob[:n]), "trunc:%s:%d" % (name, n), "blob truncated to %d accepted" % n)
    # no reply contains a secret in the clear
    sec = secrets_of(spec, plain)
    sec["sealing key"] = key
    for i, x in enumerate(spec.inputs):
        sec["one-time key %d" % i] = enc_sc(x.x) if hasattr(x, "x") else key
    for lab, v in sec.items():
        for st, raw in replies:
            sub_.expect(v not in raw, "leak:%s:%s" % (name, lab), "%s appears in the reply to %s" % (lab, st))
    # fresh keys in another session of the same transaction, and sealing keys differ
    h2, err, _ = session(spec, "dev2")
    f2 = h2.acks[("final", 0)]
    k2 = sealing_key(w.b, world.TxResult(h2).prefix_hash, bytes(f2.salt), dec_sc(bytes(f2.rand_mult)))
    p2 = open_blob(k2, bytes(f2.tx_enc_keys))
    sub_.expect(bytes(f2.salt) != salt, "salt:" + name, "salt repeats")
    sub_.expect(bytes(f2.rand_mult) != rm, "mult:" + name, "rand_mult repeats")
    sub_.expect(k2 != key, "sealkey:" + name, "sealing key repeats")
    sub_.expect(p2 is not None and not set(split(p2)) & set(split(plain)), "fresh:" + name, "transaction keys repeat in another session")
    sub_.expect(bytes(f2.tx_enc_keys)[:12] != blob[:12], "nonce:" + name, "nonce repeats")


def split(b):
    return [b[i:i + 32] for i in range(0, len(b), 32)]


# ----------------------------------------------------------------------------- host side
class RefDevice:
    """What a device does for get_tx_key: opens the blob and seals the keys for the view-key holder."""

    def __init__(self, w, corrupt=None):
        self.w, self.corrupt = w, corrupt
        self.req = None

    async def get_tx_key(self, msg, *a, **k):
        from monero_glue.messages import MoneroGetTxKeyAck, Failure
        self.req = msg
        key = sealing_key(self.w.b, bytes(msg.tx_prefix_hash), bytes(msg.salt1), dec_sc(bytes(msg.salt2)))
        plain = open_blob(key, bytes(msg.tx_enc_keys))
        if plain is None:
            return Failure(code=99, message="cannot open")
        salt = keccak(b"salt")
        if msg.reason == 1:
            plain = b"".join(enc(ref.mul8(mul(dec(bytes(msg.view_public_key)), dec_sc(x)))) for x in split(plain))
        k2 = ref.hmac_keccak(salt, keccak(keccak(enc_sc(self.w.a) + bytes(msg.tx_prefix_hash))))
        nonce = keccak(b"nonce")[:12]
        ct = nonce + ChaCha20Poly1305(k2).encrypt(nonce, plain, None)
        if self.corrupt:
            salt, ct = self.corrupt(salt, ct)
        return MoneroGetTxKeyAck(salt=salt, tx_keys=ct if msg.reason != 1 else None, tx_derivations=ct if msg.reason == 1 else None)


def host_case(sub_, item):
    name, nkeys, deep = item
    from monero_glue.agent import agent_lite
    from monero_glue.xmr import crypto
    ag = agent_lite.Agent(None, address_n=[1, 2, 3], network_type=world.NET)
    w = SENDER
    ph, s1, rm = keccak(b"prefix"), keccak(b"s1"), ref.hs(b"rm")
    keys = [ref.hs(b"key%d" % i) for i in range(nkeys)]
    key = sealing_key(w.b, ph, s1, rm)
    blob = bytes(12) + ChaCha20Poly1305(key).encrypt(bytes(12), b"".join(enc_sc(k) for k in keys), None)
    vk = crypto.decodeint(enc_sc(w.a))

    def get(dev, blob=blob, ph=ph, s1=s1, rm=rm, vk=vk):
        ag.trezor = dev
        return [dec_sc(bytes(crypto.encodeint(x))) for x in env.run(ag.get_tx_key(s1, enc_sc(rm), blob, ph, vk))]

    def tryget(*a, **k):
        sub_.add(transitions=1)
        try:
            return get(*a, **k)
        except Exception:
            return None

    sub_.case(name)
    sub_.add(states=1, traces=1)
    got = get(RefDevice(w))
    sub_.expect(got == keys, "host:" + name, "host recovers other keys than the device released")
    V = OTHER.A
    ag.trezor = RefDevice(w)
    der = env.run(ag.get_tx_deriv(s1, enc_sc(rm), blob, ph, vk, enc(V)))
    want = [enc(ref.mul8(mul(V, k))) for k in keys]
    sub_.expect([bytes(crypto.encodepoint(p)) for p in der] == want, "deriv:" + name, "host recovers other derivations than released")
    n = 12 + 32 * nkeys + 16
    for bit in range(0, 8 * n, 1 if deep else 3):
        def fl(salt, ct, bit=bit):
            c = bytearray(ct)
            c[bit // 8] ^= 1 << (bit % 8)
            return salt, bytes(c)
        sub_.expect(tryget(RefDevice(w, fl)) is None, "hostbit:%s:%d" % (name, bit), "damaged reply accepted (bit %d)" % bit)
    for bit in range(256):
        def fs(salt, ct, bit=bit):
            c = bytearray(salt)
            c[bit // 8] ^= 1 << (bit % 8)
            return bytes(c), ct
        sub_.expect(tryget(RefDevice(w, fs)) is None, "hostsalt:%s:%d" % (name, bit), "reply with another salt accepted")
    for k in range(n):
        sub_.expect(tryget(RefDevice(w, lambda s, c: (s, c[:k]))) is None, "hosttrunc:%s:%d" % (name, k), "truncated reply accepted")
    for lab, kw in (("prefix", dict(ph=keccak(b"x"))), ("s1", dict(s1=keccak(b"y"))), ("rm", dict(rm=rm + 1)),
                    ("vk", dict(vk=crypto.decodeint(enc_sc(OTHER.a)))), ("blob", dict(blob=blob[:-1] + bytes([blob[-1] ^ 1])))):
        sub_.expect(tryget(RefDevice(w), **kw) is None, "hostparam:%s:%s" % (name, lab), "wrong %s yields keys" % lab)
    sub_.expect(tryget(RefDevice(OTHER)) is None, "hostdev:" + name, "another wallet's device yields keys")


def run(chk):
    chk.rule = "every destination-kind vector up to the bound; every bit / truncation / parameter of the blob"
    items = []
    seen = set()
    for n in (1, 2, 3) if not chk.thorough else (1, 2, 3, 4):
        alpha = "aAB" if n < 4 else "aA"
        for vec in itertools.product(alpha, repeat=n):
            for hf, cv in ((10, 1), (9, 0)):
                for change in ("last", None):
                    if change is None and n == 1:
                        continue
                    if not chk.thorough and hf == 9 and (n == 3 or change is None):
                        continue
                    if not chk.thorough and n == 3 and (change is None or tuple(sorted(vec)) != vec):
                        continue
                    nm = "%s-%s-hf%d" % ("".join(vec), change, hf)
                    items.append((nm, (vec, change, b"", hf, cv), chk.thorough or n == 1))
    for vec in ("a", "A"):
        for pid in (b"\x07" * 8, b"\x09" * 32):
            items.append(("%s-pid%d" % (vec, len(pid)), (tuple(vec), "last", pid, 10, 1), True))
    pmap(chk, blob_case, items, limit=600)
    pmap(chk, host_case, [("k%d" % k, k, chk.thorough or k == 1) for k in (1, 2, 3, 5)], limit=600)
    chk.extra["shapes"] = len(items)
