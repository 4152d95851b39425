"""P53: a hardware device is asked exactly what the host asks, and its key images are believed only with proof.

(a) The real device proxy (trezor.manager.Trezor) with a stand-in for the library's connection: every message of the protocol through every request method, and all sequences of requests
    up to length three over (method, outcome), with failures of opening, calling, and unknown or refused replies. Every request runs alone between one opening and one closing of the
    connection - closed after a failure, too -, is sent once, encodes to the same bytes in the library's classes as in the package's own, and the reply comes back with every field.
(b) The host's live refresh against a reference device: all accounts/indices of a menu, every single-bit change, every truncation, every mix-up of replies, wrong parameters, key images
    with a component of small order, signatures with shifted or swapped scalars, refusals at every step. The answer is the key image of the output or an error, and the device is sent
    exactly the output asked about."""
import io
import itertools
from unittest import mock

from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks

env.install_rng()

from monero_glue import messages as pm, protobuf as pb
from monero_glue.agent import agent_lite
from monero_glue.trezor import manager
from monero_glue.xmr import crypto
from trezorlib import messages as tm, protobuf as tp
from checks import p27

NAMES = sorted(n for n in dir(pm) if n.startswith("Monero") and isinstance(getattr(pm, n), type) and issubclass(getattr(pm, n), pb.MessageType) and hasattr(tm, n))
NAMES += [n for n in ("Failure", "Success", "ButtonRequest") if hasattr(pm, n) and hasattr(tm, n)]
METHODS = ["get_view_key", "tsx_sign", "key_image_sync", "get_tx_key", "live_refresh", "call"]


def fields(m):
    """nested values of a message of either family"""
    if isinstance(m, (pb.MessageType, tp.MessageType)):
        return (m.__class__.__name__,) + tuple((f[0], fields(getattr(m, f[0], None))) for _, f in sorted(m.get_fields().items()))
    if isinstance(m, (list, tuple)):
        return ("list",) + tuple(fields(x) for x in m)
    if isinstance(m, bytearray):
        return bytes(m)
    return m


def norm(f):
    """an absent repeated field and an empty one are the same on the wire"""
    if isinstance(f, tuple):
        return None if f == ("list",) else tuple(norm(x) for x in f)
    return f


def to_lib(m):
    """the same message built directly in the library's classes"""
    if isinstance(m, pb.MessageType):
        r = getattr(tm, m.__class__.__name__)()
        for _, f in m.get_fields().items():
            setattr(r, f[0], to_lib(getattr(m, f[0], None)))
        return r
    if isinstance(m, list):
        return [to_lib(x) for x in m]
    return m


class Client:
    """stand-in of trezorlib's client"""

    def __init__(self):
        self.log = []
        self.depth = 0
        self.plan = []      # per request: None | "open" | "call" | reply
        self.n = 0

    def open(self):
        self.log.append("open")
        if self.plan[self.n] == "open":
            raise ConnectionError("stand-in: open")
        self.depth += 1

    def close(self):
        self.log.append("close")
        self.depth -= 1

    def call(self, msg):
        self.log.append(("call", self.depth, msg))
        r = self.plan[self.n]
        if r == "call":
            raise ConnectionError("stand-in: call")
        return r

    def ping(self, m, **kw):
        self.log.append(("ping", self.depth, m))
        r = self.plan[self.n]
        if r == "call":
            raise ConnectionError("stand-in: ping")
        return r


def proxy():
    c = Client()
    with mock.patch.object(manager, "get_transport", lambda p, **k: "link:%s" % p), mock.patch.object(manager, "TrezorClient", lambda *a, **k: c), \
            mock.patch.object(manager, "TrezorClientDebugLink", lambda *a, **k: c), mock.patch.object(manager.ui, "ClickUI", lambda *a, **k: "ui"):
        t = manager.Trezor(path="udp:x")
    c.log.clear()
    c.depth = 0
    return t, c


def one(sub, key, t, c, method, msg, outcome):
    """one request; -> None, or text of what is wrong"""
    before = len(c.log)
    want = fields(msg)
    try:
        got, err = env.run(getattr(t, method)(msg)), None
    except Exception as e:
        got, err = None, e
    ev = c.log[before:]
    sub.add(transitions=1)
    kinds = [x if isinstance(x, str) else x[0] for x in ev]
    if outcome == "open":
        if err is None or kinds != ["open"]:
            sub.violation("open:" + method, "%s: connection cannot be opened: steps %r, error %r" % (key, kinds, err), case=key)
        return
    if kinds != ["open", "call", "close"] or ev[1][1] != 1:
        sub.violation("session:" + method, "%s: steps %r" % (key, kinds), case=key)
        return
    sent = ev[1][2]
    if not isinstance(sent, tp.MessageType) or norm(fields(sent)) != norm(want):
        sub.violation("sent:" + method, "%s: the device is sent %r" % (key, sent), case=key)
    if outcome == "call":
        if not isinstance(err, ConnectionError):
            sub.violation("error:" + method, "%s: a failed request is answered with %r" % (key, err or got), case=key)
    elif err is not None or not isinstance(got, pb.MessageType) or norm(fields(got)) != norm(fields(outcome)):
        sub.violation("reply:" + method, "%s: reply %r becomes %r" % (key, outcome, err or got), case=key)


def wire(sub, item):
    """every message: same fields and same bytes in both families, both ways"""
    name = item
    cls = getattr(pm, name)
    for lab, m in p27.instances(cls):
        for method in METHODS if lab in ("empty", "full") else METHODS[:1] + METHODS[-1:]:
            t, c = proxy()
            key = "%s %s of %s" % (method, lab, name)
            c.plan = [to_lib(m)]
            sub.add(states=1)
            one(sub, key, t, c, method, m, c.plan[0])
        try:
            b = p27.dump(m)
        except Exception:
            continue
        t, c = proxy()
        c.plan = [tm.Success()]
        env.run(t.tsx_sign(m))
        sent = [x for x in c.log if not isinstance(x, str)]
        buf = io.BytesIO()
        try:
            tp.dump_message(buf, sent[0][2])
        except Exception:
            continue    # values only one of the codecs refuses: P27 decides about the package's own
        sub.add(traces=1)
        if sorted(p27.split(buf.getvalue())) != sorted(p27.split(b)):
            sub.violation("bytes:" + name, "%s %s: library encodes %s, package %s" % (name, lab, buf.getvalue().hex()[:80], b.hex()[:80]), case="%s:%s" % (name, lab))
        sub.case("%s:%s" % (name, lab))


def histories(sub, item):
    """requests of one connection do not influence each other"""
    first, depth = item
    outs = ["open", "call", tm.Failure(code=9, message="no"), tm.MoneroWatchKey(watch_key=b"w" * 32, address=b"a"), tm.Success(message="x")]
    acts = [(m, o) for m in ("tsx_sign", "get_view_key", "call") for o in range(len(outs))]
    for rest in itertools.product(range(len(acts)), repeat=depth - 1):
        seq = [acts[i] for i in (first,) + rest]
        t, c = proxy()
        c.plan = [outs[o] for _, o in seq]
        for i, (m, o) in enumerate(seq):
            c.n = i
            msg = pm.MoneroGetWatchKey(address_n=[1, 2, i], network_type=i)
            one(sub, "/".join("%s-%d" % x for x in seq[:i + 1]), t, c, m, msg, outs[o])
        if c.depth != 0:
            sub.violation("left open", "/".join("%s-%d" % x for x in seq), case=str(seq))
        sub.add(states=1)
        sub.case(str(seq))


def pings(sub, item):
    for text in (None, "", "hello"):
        for out in ("open", "call", "pong"):
            t, c = proxy()
            c.plan = [out]
            try:
                r, err = env.run(t.ping(text)), None
            except Exception as e:
                r, err = None, e
            kinds = [x if isinstance(x, str) else x[0] for x in c.log]
            sub.add(states=1, transitions=1)
            sub.case("ping:%s:%s" % (text, out))
            ok = {"open": err is not None and kinds == ["open"], "call": err is not None and kinds == ["open", "ping", "close"], "pong": r == "pong" and kinds == ["open", "ping", "close"]}[out]
            if not ok:
                sub.violation("ping", "%r %s: steps %r, result %r, error %r" % (text, out, kinds, r, err))
    for raw in (True, False):     # several calls in one session
        t, c = proxy()
        c.plan = [tm.Success(message="x")]
        with t.session():
            for _ in range(3):
                m = pm.MoneroGetWatchKey(address_n=[1], network_type=2)
                r = env.run(t.call_in_session(m if raw else to_lib(m), raw))
                if fields(r) != fields(c.plan[0]) or isinstance(r, pb.MessageType) != raw:
                    sub.violation("insession", "recode=%s: reply %r" % (raw, r))
        kinds = [x if isinstance(x, str) else x[0] for x in c.log]
        if kinds != ["open", "call", "call", "call", "close"] or any(norm(fields(x[2])) != norm(fields(m)) for x in c.log if not isinstance(x, str)):
            sub.violation("insession", "recode=%s: steps %r" % (raw, kinds))
        sub.add(states=1, transitions=3)


# ----------------------------------------------------------------------------- live refresh
def rsig(x, P, I, k, prefix):
    Lp, Rp = ref.mulG(k), ref.mul(ref.hash_to_point(P), k)
    c = ref.hs(prefix, ref.enc(Lp), ref.enc(Rp))
    return c, (k - c * x) % ref.L


class Dev:
    """what a device does: derives the output's key, seals key image and proof for the holder of the view key"""

    def __init__(self, w, change=None, wrong=None, fail=None):
        self.w, self.change, self.wrong, self.fail, self.log = w, change, wrong, fail, []

    async def live_refresh(self, msg, *a, **k):
        self.log.append(msg)
        n = msg.__class__.__name__
        if self.fail and self.fail[0] in n:
            return self.fail[1]
        if "Start" in n:
            return pm.MoneroLiveRefreshStartAck()
        if "Final" in n:
            return pm.MoneroLiveRefreshFinalAck()
        P = bytes(msg.out_key)
        D = bytes(msg.recv_deriv)
        maj, mnr = msg.sub_addr_major or 0, msg.sub_addr_minor or 0
        x = (ref.deriv_scalar(D, msg.real_out_idx or 0) + self.w.b + (ref.subaddr_m(self.w.a, maj, mnr) if (maj, mnr) != (0, 0) else 0)) % ref.L
        if ref.enc(ref.mulG(x)) != P:
            return pm.Failure(code=99, message="not ours")
        I = ref.enc(ref.key_image(x, P)) if not isinstance(ref.key_image(x, P), bytes) else ref.key_image(x, P)
        plain = self.wrong(x, P, I) if self.wrong else I + b"".join(ref.enc_sc(s) for s in rsig(x, P, I, 12345, I))
        salt = ref.keccak(b"salt", P)
        key = ref.hmac_keccak(salt, ref.keccak(ref.keccak(ref.enc_sc(self.w.a) + P)))
        nonce = ref.keccak(b"nonce", P)[:12]
        ct = nonce + ChaCha20Poly1305(key).encrypt(nonce, plain, None)
        if self.change:
            salt, ct = self.change(salt, ct)
        return pm.MoneroLiveRefreshStepAck(salt=salt, key_image=ct)


WAL = ref.Wallet(7919, 104729)


def output(maj, mnr, idx, tag=0):
    """an output of the wallet: (out key, derivation, key image)"""
    r = ref.hs(b"p53 r%d" % tag)
    if (maj, mnr) == (0, 0):
        R, S = ref.mulG(r), ref.mulG(WAL.b)
    else:
        S = WAL.sub_pub(maj, mnr)[0]
        S = ref.dec(S) if isinstance(S, bytes) else S
        R = ref.mul(S, r)
    D = ref.enc(ref.mul8(ref.mul(R, WAL.a)))
    x = (ref.deriv_scalar(D, idx) + WAL.b + (ref.subaddr_m(WAL.a, maj, mnr) if (maj, mnr) != (0, 0) else 0)) % ref.L
    P = ref.enc(ref.mulG(x))
    I = ref.key_image(x, P)
    return P, D, I if isinstance(I, bytes) else ref.enc(I), x


def ask(dev, P, D, idx, maj, mnr, a=None, whole=True):
    ag = agent_lite.Agent(dev, address_n=[1, 2, 3], network_type=1)
    if whole:
        env.run(ag.live_refresh_start())
    r = env.run(ag.live_refresh(crypto.decodeint(ref.enc_sc(WAL.a if a is None else a)), P, D, idx, maj, mnr))
    if whole:
        env.run(ag.live_refresh_final())
    return bytes(crypto.encodepoint(r))


def attempt(*a, **k):
    try:
        return ask(*a, **k)
    except Exception:
        return None


SUBS = [(0, 0), (0, 1), (1, 0), (3, 2), (2 ** 32 - 1, 2 ** 32 - 1)]
IDX = [0, 1, 127, 128, 2 ** 32 - 1]


def honest(sub, part):
    for maj, mnr in part:
        for idx in IDX:
            P, D, I, x = output(maj, mnr, idx)
            dev = Dev(WAL)
            key = "%d.%d #%d" % (maj, mnr, idx)
            try:
                got = ask(dev, P, D, idx, maj, mnr)
            except Exception as e:
                got = e
            sub.add(states=1, transitions=3, traces=1)
            sub.case(key)
            if got != I:
                sub.violation("refresh", "%s: key image %r" % (key, got), case=key)
            if [m.__class__.__name__ for m in dev.log] != ["MoneroLiveRefreshStartRequest", "MoneroLiveRefreshStepRequest", "MoneroLiveRefreshFinalRequest"]:
                sub.violation("refresh steps", "%s: %r" % (key, dev.log), case=key)
                continue
            s, m = dev.log[:2]
            if (list(s.address_n), s.network_type) != ([1, 2, 3], 1):
                sub.violation("refresh start", "%s: %r" % (key, s), case=key)
            if (bytes(m.out_key), bytes(m.recv_deriv), m.real_out_idx, m.sub_addr_major, m.sub_addr_minor) != (P, D, idx, maj, mnr):
                sub.violation("refresh request", "%s: %r" % (key, m), case=key)
            for f in ("Start", "Step", "Final"):
                for r in (pm.Failure(code=9, message="no"),) + ((pm.MoneroLiveRefreshStartAck(), pm.MoneroWatchKey(watch_key=b"k" * 32, address=b"a")) if f == "Step" else ()):
                    sub.add(transitions=1)
                    if attempt(Dev(WAL, fail=(f, r)), P, D, idx, maj, mnr) is not None:
                        sub.violation("refresh refused", "%s: %s answered with %s, and a key image is returned" % (key, f, r.__class__.__name__), case=key)
            for lab, kw in (("view key", dict(a=WAL.a + 1)),):
                if attempt(Dev(WAL), P, D, idx, maj, mnr, **kw) is not None:
                    sub.violation("refresh key", "%s: reply sealed for another view key is accepted" % key, case=key)


def damage(sub, bits):
    P, D, I, x = output(3, 2, 1)
    for kind, n in bits:
        def ch(s, c):
            if kind == "salt":
                s = bytearray(s)
                s[n // 8] ^= 1 << n % 8
            elif kind == "bit":
                c = bytearray(c)
                c[n // 8] ^= 1 << n % 8
            elif kind == "cut":
                c = c[:n]
            elif kind == "more":
                c = c + bytes(n)
            elif kind == "salt cut":
                s = s[:n]
            return bytes(s), bytes(c)
        sub.add(states=1, transitions=1)
        sub.case("%s %d" % (kind, n))
        if attempt(Dev(WAL, change=ch), P, D, 1, 3, 2, whole=False) is not None:
            sub.violation("refresh damage: " + kind, "reply with %s %d is accepted" % (kind, n), case="%s %d" % (kind, n))


def torsion():
    """points of small order"""
    out, p = [], None
    i = 0
    while len(out) < 7 and i < 4000:
        i += 1
        try:
            q = ref.dec(ref.keccak(b"t%d" % i))
        except Exception:
            continue
        if q is None:
            continue
        t = ref.mul(q, ref.L)
        for k in range(1, 8):
            e = ref.enc(ref.mul(t, k))
            if e not in out and e != ref.enc(ref.mulG(0)):
                out.append(e)
    return out


def forged(sub, item):
    """a correctly sealed reply with wrong contents"""
    P, D, I, x = output(1, 0, 0)
    P2, D2, I2, x2 = output(1, 0, 0, 1)
    L = ref.L

    def enc2(i, c, r):
        return i + (c if isinstance(c, bytes) else c.to_bytes(32, "little")) + (r if isinstance(r, bytes) else r.to_bytes(32, "little"))
    menu = []
    c, r = rsig(x, P, I, 777, I)
    menu += [("another output's", enc2(I2, *rsig(x2, P2, I2, 5, I2))), ("another image, right proof", enc2(I2, c, r)), ("right image, another proof", enc2(I, *rsig(x2, P2, I2, 5, I2))),
             ("proof over another prefix", enc2(I, *rsig(x, P, I, 9, I2))), ("swapped scalars", enc2(I, r, c)), ("zero proof", enc2(I, 0, 0)), ("output key as image", enc2(P, c, r)),
             ("unreduced c", enc2(I, c + L, r)), ("unreduced r", enc2(I, c, r + L)), ("negated", enc2(ref.enc(ref.neg(ref.dec(I))), c, r)), ("identity", enc2(ref.enc(ref.mulG(0)), c, r)),
             ("empty", b""), ("image only", I), ("no second scalar", I + ref.enc_sc(c)), ("short second scalar", enc2(I, c, r)[:-1])]
    for i in range(1, 40):
        menu += [("c+%d" % i, enc2(I, (c + i) % L, r)), ("r+%d" % i, enc2(I, c, (r + i) % L)), ("both %d" % i, enc2(I, (c + i) % L, (r - i * x) % L))]
    for t in torsion():
        j = ref.enc(ref.add(ref.dec(I), ref.dec(t)))
        k = 1
        while True:     # the challenge hides the component when it is a multiple of eight
            k += 1
            cc, rr = rsig(x, P, I, k, j)
            if cc % 8 == 0:
                break
        menu += [("small order %s" % t.hex()[:8], enc2(j, cc, rr)), ("only small order %s" % t.hex()[:8], enc2(t, c, r))]
    for lab, plain in menu:
        got = attempt(Dev(WAL, wrong=lambda *a: plain), P, D, 0, 1, 0, whole=False)
        sub.add(states=1, transitions=1)
        sub.case(lab)
        if got is not None and not (lab.startswith("unreduced") and got == I):    # still a proof
            sub.violation("refresh forged: " + lab, "a reply with %s is accepted: %s" % (lab, got.hex()), case=lab)
    # an unowned or misplaced output is refused by the device, and the host passes it on
    for lab, args in (("index", (P, D, 1, 1, 0)), ("account", (P, D, 0, 2, 0)), ("minor", (P, D, 0, 1, 1)), ("derivation", (P, D2, 0, 1, 0)), ("key", (P2, D, 0, 1, 0))):
        sub.add(states=1, transitions=1)
        if attempt(Dev(WAL), *args, whole=False) is not None:
            sub.violation("refresh misplaced: " + lab, "wrong %s gives a key image" % lab)


def work(sub, job):
    globals()[job[0]](sub, job[1])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    jobs = [("wire", n) for n in NAMES] + [("pings", None)]
    depth = 4 if deep else 3
    jobs += [("histories", (i, depth)) for i in range(15)]
    subs = SUBS + ([(i, j) for i in (0, 7, 2 ** 16, 2 ** 31) for j in (5, 255, 256, 2 ** 31)] if deep else [])
    jobs += [("honest", c) for c in chunks(subs, 8)]
    n = 12 + 96 + 16
    ds = [("bit", b) for b in range(8 * n)] + [("salt", b) for b in range(256)] + [("cut", k) for k in range(n)] + [("more", k) for k in (1, 16, 32)] + [("salt cut", k) for k in range(32)]
    jobs += [("damage", c) for c in chunks(ds, 16)]
    jobs += [("forged", None)]
    chk.extra["bounds"] = "%d message kinds; request sequences up to %d; %d damaged replies" % (len(NAMES), depth, len(ds))
    pmap(chk, work, jobs, limit=400)
