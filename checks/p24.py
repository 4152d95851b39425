"""P24: transaction extra and payment ids.

Builder: every sequence (to a depth) of the extra-building operations is an execution; the state is the list of fields, the
model serialises it itself, and after each operation the real bytes must equal the model's, parse back to the model's
fields (with the library's parser), and removing any type of field must leave exactly the others.
Parser: all byte strings of length <= 2, all strings over a covering alphabet to a greater length, every truncation and
every single-byte substitution of a set of valid extras are parsed with the library and with an independent parser: the
same fields, or an error of the library when the independent parser refuses (never made-up fields).
Payment ids: full grid of nonces, encryption keys and destination lists."""
import asyncio
import itertools

from mc import env, ref, both
from mc.check import pmap
from mc.explore import chunks
from mc.world import SENDER, RCPT

env.install_rng()

from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub import tsx_helper as th
from monero_glue.messages.MoneroAccountPublicAddress import MoneroAccountPublicAddress as MAddr
from monero_glue.messages.MoneroTransactionDestinationEntry import MoneroTransactionDestinationEntry as MDst
from monero_serialize import xmrtypes as xt

TYPES = {"pad": xt.TxExtraPadding, "pub": xt.TxExtraPubKey, "nonce": xt.TxExtraNonce, "mm": xt.TxExtraMergeMiningTag,
         "add": xt.TxExtraAdditionalPubKeys, "mg": xt.TxExtraMysteriousMinergate}
PTS = [ref.mulG(i + 3) for i in range(4)]
ENC = [ref.enc(p) for p in PTS]
CPTS = [crypto.decodepoint(e) for e in ENC]


def co(c):
    try:
        c.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("suspended")


# ---------------------------------------------------------------- independent codec
def ser(fields):
    o = b""
    for f in fields:
        if f[0] == "pub":
            o += b"\x01" + f[1]
        elif f[0] == "nonce":
            o += b"\x02" + ref.varint(len(f[1])) + f[1]
        elif f[0] == "mm":
            o += b"\x03" + ref.varint(f[1]) + ref.varint(f[2]) + f[3]
        elif f[0] == "add":
            o += b"\x04" + ref.varint(len(f[1])) + b"".join(f[1])
        elif f[0] == "mg":
            o += b"\xde" + ref.varint(len(f[1])) + f[1]
        elif f[0] == "pad":
            o += bytes(f[1])
    return o


class Bad(Exception):
    pass


def parse(b):
    pos = 0
    out = []

    def take(n):
        nonlocal pos
        if pos + n > len(b):
            raise Bad("short")
        r = b[pos:pos + n]
        pos += n
        return r

    def varint():
        r = sh = 0
        while True:
            x = take(1)[0]
            r |= (x & 127) << sh
            sh += 7
            if x < 128:
                return r
    while pos < len(b):
        t = take(1)[0]
        if t == 0:
            n = len(b) - pos
            if any(take(n)):
                raise Bad("padding")
            if n + 1 > 255:
                raise Bad("padding too long")
            out.append(("pad", n + 1))
        elif t == 1:
            out.append(("pub", take(32)))
        elif t in (2, 0xde):
            out.append(("nonce" if t == 2 else "mg", take(varint())))
        elif t == 3:
            a = varint()
            d = varint()
            out.append(("mm", a, d, take(32)))
        elif t == 4:
            n = varint()
            if n * 32 > len(b) - pos:
                raise Bad("short")
            out.append(("add", tuple(take(32) for _ in range(n))))
        else:
            raise Bad("tag")
    return out


def conv(fs):
    out = []
    for f in fs:
        if isinstance(f, xt.TxExtraPubKey):
            out.append(("pub", bytes(f.pub_key)))
        elif isinstance(f, xt.TxExtraNonce):
            out.append(("nonce", bytes(f.nonce)))
        elif isinstance(f, xt.TxExtraMergeMiningTag):
            out.append(("mm", f.field_len, f.depth, bytes(f.merkle_root)))
        elif isinstance(f, xt.TxExtraAdditionalPubKeys):
            out.append(("add", tuple(bytes(x) for x in f.data)))
        elif isinstance(f, xt.TxExtraMysteriousMinergate):
            out.append(("mg", bytes(f.data)))
        elif isinstance(f, xt.TxExtraPadding):
            out.append(("pad", f.size))
        else:
            out.append(("?", repr(f)))
    return out


def libparse(b):
    try:
        return conv(co(th.parse_extra_fields(list(b)))), None
    except MemoryError:
        raise
    except Exception as e:
        return None, e


def refparse(b):
    try:
        return parse(b)
    except Bad:
        return None


# ---------------------------------------------------------------- builder state space
PID = bytes(range(100, 132))
NONCES = [b"", PID[:1], bytes(9), bytes(33), b"\x05" * 127, b"\x05" * 128, b"\x05" * 255]
OPS = [("pub", 0), ("pub", 1), ("epid",), ("pid",)] + [("nonce", i) for i in range(len(NONCES))] + \
      [("add", n) for n in (1, 2, 4)] + [("addenc", 2)] + [("rm", t) for t in ("pub", "nonce", "add", "mm")]
SMALL = [("pub", 0), ("pub", 1), ("epid",), ("pid",), ("nonce", 5), ("add", 2), ("addenc", 2)] + [("rm", t) for t in ("pub", "nonce", "add")]


def apply(op, fields, buf):
    """-> (model fields, real buffer)"""
    k = op[0]
    if k == "pub":
        return fields + [("pub", ENC[op[1]])], th.add_tx_pub_key_to_extra(buf, CPTS[op[1]])
    if k == "epid":
        n = th.set_encrypted_payment_id_to_tx_extra_nonce(PID[:8])
        return fields + [("nonce", b"\x01" + PID[:8])], th.add_extra_nonce_to_tx_extra(buf, n)
    if k == "pid":
        n = th.set_payment_id_to_tx_extra_nonce(PID)
        return fields + [("nonce", b"\x00" + PID)], th.add_extra_nonce_to_tx_extra(buf, n)
    if k == "nonce":
        return fields + [("nonce", NONCES[op[1]])], th.add_extra_nonce_to_tx_extra(buf, NONCES[op[1]])
    if k == "add":
        return fields + [("add", tuple(ENC[:op[1]]))], co(th.add_additional_tx_pub_keys_to_extra(buf, CPTS[:op[1]]))
    if k == "addenc":
        return fields + [("add", tuple(ENC[2:]))], co(th.add_additional_tx_pub_keys_to_extra(buf, pub_enc=list(ENC[2:])))
    if k == "rm":
        return [f for f in fields if f[0] != op[1]], co(th.remove_field_from_tx_extra(buf, TYPES[op[1]]))
    raise AssertionError(op)


def builder(sub, part):
    for pre, ops, depth, start in part:
        stack = [((), list(start), ser(start))]
        first = True
        while stack:
            path, fields, buf = stack.pop()
            nxt = [pre] if first else ops
            first = False
            if len(path) >= depth:
                continue
            for op in nxt:
                p = path + (op,)
                keep = bytes(buf)
                try:
                    f2, b2 = apply(op, fields, buf)
                except Exception as e:
                    sub.violation("build:%r" % (p,), "building the extra %r failed: %r" % (p, e))
                    continue
                sub.add(states=1, transitions=1)
                if bytes(buf) != keep:
                    sub.violation("build-arg:%r" % (op[0],), "the passed extra was modified by %r" % (op,))
                if bytes(b2) != ser(f2):
                    sub.violation("build:%r" % (p,), "extra %s expected %s" % (bytes(b2).hex()[:80], ser(f2).hex()[:80]))
                    continue
                got, e = libparse(b2)
                if got != f2:
                    sub.violation("reparse:%r" % (p,), "built extra parses as %r (%r) not %r" % (got, e, f2))
                stack.append((p, f2, bytes(b2)))


def builder_types(sub):
    """argument types used by the callers: bytes / bytearray"""
    for t in (bytes, bytearray):
        b, fields = t(b""), []
        for op in OPS[:6] + OPS[10:]:
            fields, b = apply(op, fields, t(b))
            sub.add(states=1, transitions=1)
            if bytes(b) != ser(fields):
                sub.violation("types:%s:%r" % (t.__name__, op), "extra from %s buffer differs" % t.__name__)
    for n in (256, 300):
        try:
            th.add_extra_nonce_to_tx_extra(b"", bytes(n))
            sub.violation("nonce-long:%d" % n, "nonce of %d bytes accepted" % n)
        except ValueError:
            pass
        sub.add(states=1)


# ---------------------------------------------------------------- parser
def cmp_parse(sub, b, key):
    g, e = libparse(b)
    x = refparse(b)
    sub.add(states=1, transitions=1)
    if g != x:
        if x is None and g and g[-1][0] == "pad" and len(b) > 255:
            return          # padding longer than the format's maximum: handled by the serialisation package
        if g is None and x is not None:
            sub.violation("parse:" + key, "extra %s refused (%r), expected %r" % (b.hex()[:90], e, x))
        elif x is None:
            sub.violation("parse:" + key, "malformed extra %s yields %r" % (b.hex()[:90], g))
        else:
            sub.violation("parse:" + key, "extra %s yields %r expected %r" % (b.hex()[:90], g, x))
    return g


def all_types(fs, objs, sub, key):
    for n, t in TYPES.items():
        mine = [o for o, f in zip(objs, fs) if f[0] == n]
        for i in range(len(mine) + 2):
            got = th.find_tx_extra_field_by_type(objs, t, i)
            exp = mine[i] if i < len(mine) else None
            sub.add(transitions=1)
            if got is not exp:
                sub.violation("find:%s:%s:%d" % (key, n, i), "field %d of type %s: %r" % (i, n, got))


def short_strings(sub, part):
    for first in part:
        for n in (1, 2):
            for rest in itertools.product(range(256), repeat=n - 1):
                cmp_parse(sub, bytes((first,) + rest), "s%02x%s" % (first, bytes(rest).hex()))


ALPHA = [0, 1, 2, 3, 4, 5, 0x20, 0x7f, 0x80, 0x81, 0xde, 0xff]


def alpha_strings(sub, part):
    for pre, n in part:
        for rest in itertools.product(ALPHA, repeat=n - len(pre)):
            b = bytes(pre + rest)
            # a declared length of more than 2^21 only tests the allocator
            cmp_parse(sub, b, "a" + b.hex())


def valid_extras(deep):
    base = [("pub", ENC[0]), ("nonce", b"\x01" + PID[:8]), ("nonce", b"\x00" + PID), ("add", tuple(ENC[:2])), ("nonce", b"\x07" * 200),
            ("mm", 33, 3, PID), ("mg", b"abc"), ("pub", ENC[1])]
    out = [[f] for f in base] + [list(p) for p in itertools.permutations(base, 2)]
    out += [[base[0], base[1], ("pad", 5)], [base[0], base[3], base[1]], [("pad", 1)], [("pad", 255)], [base[0], base[7], base[2], base[6], ("pad", 200)]]
    if deep:
        out += [list(p) for p in itertools.permutations(base[:4] + base[5:7], 3)]
    return out


def damage(sub, part):
    for fs, deep in part:
        b = ser(fs)
        key = "-".join(f[0] for f in fs)
        objs = co(th.parse_extra_fields(b))
        if conv(objs) != fs:
            sub.violation("valid:" + key, "parsed %r" % (conv(objs),))
        all_types(fs, objs, sub, key)
        for i in range(len(b)):
            cmp_parse(sub, b[:i], "trunc%d:%s" % (i, key))
        for x in range(256):
            cmp_parse(sub, b + bytes([x]), "ext%02x:%s" % (x, key))
        for i in range(len(b)):
            body = 8 if not deep else 256
            for v in (range(256) if deep or i < 4 else sorted({0, 1, 2, 4, 0xde, b[i] ^ 1, b[i] ^ 0x80, 255})):
                if v != b[i]:
                    cmp_parse(sub, b[:i] + bytes([v]) + b[i + 1:], "sub%d:%02x:%s" % (i, v, key))
        for tname in TYPES:
            if any(f[0] == "pad" for f in fs):
                continue
            got = bytes(co(th.remove_field_from_tx_extra(b, TYPES[tname])))
            sub.add(transitions=1)
            exp = ser([f for f in fs if f[0] != tname])
            if got != exp:
                sub.violation("remove:%s:%s" % (tname, key), "removing %s leaves %s expected %s" % (tname, got.hex()[:80], exp.hex()[:80]))


def txpub(sub):
    """the transaction key of a received transaction"""
    fields = [("pub", ENC[0]), ("pub", ENC[1]), ("nonce", b"\x01" + PID[:8]), ("add", tuple(ENC[:2])), ("pad", 3)]
    for n in range(0, 4):
        for fs in itertools.product(fields, repeat=n):
            if any(f[0] == "pad" for f in fs[:-1]):
                continue

            class TD:
                class m_tx:
                    extra = list(ser(fs))
            pubs = [f[1] for f in fs if f[0] == "pub"]
            sub.add(states=1, transitions=1)
            try:
                got = bytes(co(monero.get_tx_pub_key_from_received_outs(TD)))
            except Exception:
                got = None
            exp = pubs[0] if len(pubs) == 1 else None
            if got != exp:
                sub.violation("txpub:%s" % "-".join(f[0] for f in fs), "tx key of %r: %r" % (fs, got))


# ---------------------------------------------------------------- payment ids
def nonces(sub):
    for n in range(0, 41):
        for first in (0, 1, 2, 255):
            b = (bytes([first]) + bytes(range(1, n)))[:n]
            sub.add(states=1, transitions=4)
            for name, f, g, want in (("enc", th.has_encrypted_payment_id, th.get_encrypted_payment_id_from_tx_extra_nonce, n == 9 and first == 1),
                                     ("plain", th.has_payment_id, th.get_payment_id_from_tx_extra_nonce, n == 33 and first == 0)):
                if bool(f(b)) != want:
                    sub.violation("has-%s:%d:%d" % (name, n, first), "has_%s payment id: %r" % (name, f(b)))
                try:
                    got = bytes(g(b))
                except Exception:
                    got = None
                if got != (b[1:] if want else None):
                    sub.violation("get-%s:%d:%d" % (name, n, first), "payment id %r" % got)
    for pid in (bytes(8), PID[:8], b"\xff" * 8):
        n = th.set_encrypted_payment_id_to_tx_extra_nonce(pid)
        if bytes(th.get_encrypted_payment_id_from_tx_extra_nonce(n)) != pid:
            sub.violation("setget-enc", "encrypted payment id does not round-trip")
    for pid in (bytes(32), PID, b"\xff" * 32):
        n = th.set_payment_id_to_tx_extra_nonce(pid)
        if bytes(th.get_payment_id_from_tx_extra_nonce(n)) != pid:
            sub.violation("setget-plain", "payment id does not round-trip")


def crypt(sub, part):
    for a, r in part:
        A, R = ref.mulG(a), ref.mulG(r)
        cA, cR = crypto.decodepoint(ref.enc(A)), crypto.decodepoint(ref.enc(R))
        ca, cr_ = crypto.decodeint(ref.enc_sc(a)), crypto.decodeint(ref.enc_sc(r))
        for pid in [bytes(8), b"\xff" * 8, PID[:8]] + [bytes([0] * i + [1 << (i % 8)] + [0] * (7 - i)) for i in range(8)]:
            for t in (bytes, bytearray):
                arg = t(pid)
                e = bytes(th.encrypt_payment_id(arg, cA, cr_))
                sub.add(states=1, transitions=2)
                key = "%d:%d:%s" % (a % 1000, r % 1000, pid.hex())
                if e != ref.pid_crypt(pid, A, r):
                    sub.violation("crypt:" + key, "encrypted payment id %s expected %s" % (e.hex(), ref.pid_crypt(pid, A, r).hex()))
                if bytes(arg) != pid:
                    sub.violation("crypt-arg:" + key, "payment id passed in was modified")
                d = bytes(th.encrypt_payment_id(e, cR, ca))
                if d != pid:
                    sub.violation("decrypt:" + key, "receiver decrypts %s" % d.hex())


def dests(sub, part):
    who = [RCPT[0].addr_enc(0, 0), RCPT[1].addr_enc(0, 0), SENDER.addr_enc(0, 0), (RCPT[0].addr_enc(0, 0)[0], RCPT[1].addr_enc(0, 0)[1])]
    NULL = bytes(32)

    def mk(i, amt):
        return MDst(amount=amt, addr=MAddr(spend_public_key=who[i][0], view_public_key=who[i][1]))
    for n, change in part:
        for sel in itertools.product(range(len(who)), repeat=n):
            for amts in itertools.product((0, 5), repeat=n):
                ds = [mk(i, a) for i, a in zip(sel, amts)]
                ch = mk(change, 0).addr if change is not None else None
                left = {who[i] for i, a in zip(sel, amts) if a and i != change}
                exp = next(iter(left))[1] if len(left) == 1 else NULL
                sub.add(states=1, transitions=1)
                try:
                    got = bytes(th.get_destination_view_key_pub(ds, ch))
                except Exception as e:
                    got = e
                if got != exp:
                    sub.violation("destkey:%r:%r:%r" % (sel, amts, change), "view key of the payment id's receiver: %r expected %s" % (got, exp.hex()))


def work(sub, job):
    kind, arg = job
    f = globals()[kind]
    if arg is None:
        f(sub)
    else:
        f(sub, arg)


def run(chk):
    deep = chk.thorough
    chk.rule = __doc__
    crypto_only = env.BACKEND == "0"
    jobs = []
    ks = [1, 2, 8, ref.L - 1, 12345678901234567890, ref.hs(b"k1"), ref.hs(b"k2")]
    jobs += [("crypt", c) for c in chunks([(a, r) for a in ks for r in (ks if not crypto_only else ks[2:6])], 7)]
    jobs += [("builder", [(op, SMALL, 3, ())]) for op in SMALL]
    jobs += [("builder_types", None), ("txpub", None), ("nonces", None)]
    if not crypto_only:
        jobs += [("builder", [(op, OPS, 4 if deep else 3, s)]) for op in OPS for s in ((), (("mm", 33, 3, PID),))]
        jobs += [("builder", [(op, SMALL, 5 if deep else 4, ())]) for op in SMALL]
        jobs += [("short_strings", c) for c in chunks(list(range(256)), 16)]
        jobs += [("alpha_strings", c) for c in chunks([((a, bb), n) for a in ALPHA for bb in ALPHA for n in ((3, 4, 5) if deep else (3, 4))], 24)]
        jobs += [("damage", c) for c in chunks([(f, deep) for f in valid_extras(deep)], 24)]
        jobs += [("dests", [(n, c)]) for n in range(0, 5 if deep else 4) for c in (None, 0, 2)]
    pmap(chk, work, jobs)
    chk.traces = chk.transitions
    both.other_backend(chk, "P24", "quick")
