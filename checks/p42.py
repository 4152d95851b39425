"""P42: a crash while saving an account never loses the account.

The real writers (host account file, device account file from a new or given key, watch-only key file) run in a scratch directory with every file operation
recorded. For every prefix of the recorded operations every state a crash may leave is enumerated (names persisted in order, data of each file persisted up to
any point after its last fsync, the last write torn at every byte); the file has to hold the complete old or the complete new content. Every single operation is
also made to fail, and saving again after every kind of crash has to succeed."""
import asyncio
import binascii
import contextlib
import io
import json
import os
import shutil
import tempfile
import types

from mc import env, ref
from mc.check import pmap
from mc.crashfs import Recorder, crash_states

env.install_rng()

from monero_glue.xmr import crypto as C, monero, wallet
from monero_poc import agent as pagent, trezor as ptrezor
from monero_serialize import xmrtypes
from checks.p36 import attempt

NT = monero.NetworkTypes.TESTNET


def run_(co):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(co)
    finally:
        loop.close()


def creds(i):
    return monero.AccountCreds.new_wallet(C.sc_init(1000 + i), C.sc_init(2000 + i), NT)


MENU = [dict(wallet_file="w", monero_bin="/usr/bin/monero", rpc_addr="127.0.0.1:18081"),
        dict(wallet_file="/home/b\u00fcro/\u6f22\u5b57 \"q\"\\" * 3, monero_bin="m" * 300, rpc_addr="node.example.org:1"),
        dict(wallet_file=None, monero_bin=None, rpc_addr="x")]


class HostAcc:
    """account file of the host"""
    name = "host"

    def __init__(self, i):
        self.i = i
        self.c = creds(i)

    def obj(self):
        h = object.__new__(pagent.HostAgent)
        h.wallet_salt = None
        h.wallet_password = b"pw%d" % self.i
        h.priv_view = self.c.view_key_private
        h.address = self.c.address
        h.network_type = NT
        h.account_idx = 0
        h.update_prompt = lambda *a, **k: None
        h.set_network_type = lambda n: setattr(h, "network_type", n)
        for k, v in MENU[self.i % 3].items():
            setattr(h, k, v)
        return h

    def save(self, path):
        run_(self.obj().save_account(path))

    def load(self, path, password=None):
        h = object.__new__(pagent.HostAgent)
        h.account_idx = 0
        h.update_prompt = lambda *a, **k: None
        h.set_network_type = lambda n: setattr(h, "network_type", n)

        async def pw(*a, **k):
            return password or b"pw%d" % self.i
        h.prompt_password = pw
        run_(h.open_account_file(path))
        return {"view": bytes(C.encodeint(h.priv_view)), "address": bytes(h.address), "net": int(h.network_type), "file": h.wallet_file, "bin": h.monero_bin, "rpc": h.rpc_addr}

    def want(self):
        m = MENU[self.i % 3]
        return {"view": bytes(C.encodeint(self.c.view_key_private)), "address": bytes(self.c.address), "net": int(NT), "file": m["wallet_file"], "bin": m["monero_bin"], "rpc": m["rpc_addr"]}


class DevAcc:
    """account file of the device, keys given"""
    name = "device"
    given = True

    def __init__(self, i):
        self.i = i
        self.c = creds(i)

    def obj(self, path, given):
        t = object.__new__(ptrezor.TrezorServer)
        hx = lambda k: binascii.hexlify(C.encodeint(k)).decode()
        t.args = types.SimpleNamespace(account_file=path, spend_key=hx(self.c.spend_key_private) if given else None, view_key=hx(self.c.view_key_private) if given else None, debug=False)
        t.network_type = NT
        t.account_data = None
        t.creds = None
        t.trez = None
        t.trez_iface = None
        t.update_intro = t.update_prompt = lambda *a, **k: None
        t.poutput = t.perror = lambda *a, **k: None
        t.debug = False
        return t

    def save(self, path):
        t = self.obj(path, True)
        run_(t.open_account())
        self.c = t.creds

    def load(self, path):
        t = self.obj(path, False)
        with contextlib.redirect_stdout(io.StringIO()):
            run_(t.open_account())
        return {"spend": bytes(C.encodeint(t.creds.spend_key_private)), "view": bytes(C.encodeint(t.creds.view_key_private))}

    def want(self):
        return {"spend": bytes(C.encodeint(self.c.spend_key_private)), "view": bytes(C.encodeint(self.c.view_key_private))}


class DevNew(DevAcc):
    """account file of the device, new wallet"""
    name = "newwallet"
    given = False

    def save(self, path):
        t = self.obj(path, False)
        with contextlib.redirect_stdout(io.StringIO()):
            t.create_wallet("")
        self.c = t.creds


class Keys:
    """watch-only key file"""
    name = "keys"

    def __init__(self, i):
        self.i = i
        self.c = creds(i)

    def save(self, path):
        k = xmrtypes.AccountKeys()
        d = wallet.WalletKeyData()
        w = wallet.WalletKeyFile()
        w.key_data = d
        w.refresh_height = 100000 + self.i
        d.m_creation_timestamp = 1600000000 + self.i
        d.m_keys = k
        k.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=C.encodepoint(self.c.spend_key_public), m_view_public_key=C.encodepoint(self.c.view_key_public))
        k.m_spend_secret_key = C.encodeint(C.sc_0())
        k.m_view_secret_key = C.encodeint(self.c.view_key_private)
        run_(wallet.save_keys_file(path, b"pw%d" % self.i, w))

    def load(self, path):
        w = run_(wallet.load_keys_file(path, b"pw%d" % self.i))
        m = w["key_data"]["m_keys"]
        return {"spend": bytes(m["m_account_address"]["m_spend_public_key"]), "viewpub": bytes(m["m_account_address"]["m_view_public_key"]), "view": bytes(m["m_view_secret_key"]), "h": w["refresh_height"]}

    def want(self):
        return {"spend": bytes(C.encodepoint(self.c.spend_key_public)), "viewpub": bytes(C.encodepoint(self.c.view_key_public)), "view": bytes(C.encodeint(self.c.view_key_private)), "h": 100000 + self.i}


WRITERS = {w.name: w for w in (HostAcc, DevAcc, DevNew, Keys)}


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def materialize(root, target, content, others, rec):
    for n in os.listdir(root):
        p = os.path.join(root, n)
        os.unlink(p)
    if content is not None:
        with open(target, "wb") as f:
            f.write(content)
    for o, i in others.items():
        with open(o, "wb") as f:
            f.write(rec.content[i] + b"{")


def prior(kind, cls, i):
    """content of the file before"""
    if kind == "absent":
        return None
    d = tempfile.mkdtemp(prefix="p42")
    try:
        w = cls(i + (1 if kind == "old" else 3))
        p = os.path.join(d, "a")
        w.save(p)
        c = read(p)
    finally:
        shutil.rmtree(d)
    return c + (b" " * 700 if kind == "longer" else b"")


def scenario(sub, arg):
    name, i, kind, rel = arg
    cls = WRITERS[name]
    key = "%s:%d:%s%s" % (name, i, kind, ":relative" if rel else "")
    old = prior(kind, cls, i)
    root = os.path.realpath(tempfile.mkdtemp(prefix="p42"))
    here = os.getcwd()
    try:
        os.chdir(root)
        target = os.path.join(root, "acc.json")
        arg_path = "acc.json" if rel else target

        def setup():
            materialize(root, target, old, {}, None)
        setup()
        w = cls(i)
        with Recorder(root) as rec:
            r = attempt(lambda: w.save(arg_path))
        sub.add(states=1, transitions=len(rec.ops))
        if r[0]:
            sub.violation("save:" + key, "saving failed: %r" % (r[1],))
            return
        new = read(target)
        if attempt(lambda: w.load(target)) != (False, w.want()):
            sub.violation("load:" + key, "loads as %r, saved %r" % (attempt(lambda: w.load(target)), w.want()))
        if name == "host" and not attempt(lambda: w.load(target, b"wrong"))[0]:
            sub.violation("password:" + key, "opened with a wrong password")
        if name == "host" and bytes(C.encodeint(w.c.view_key_private)).hex() in (new or b"").decode("latin1"):
            sub.violation("plain:" + key, "view key stored in the clear")
        if not any(o[0] == "write" for o in rec.ops):
            sub.violation("unrecorded:" + key, "no recorded write")
        bad, left = 0, {}
        n = 0
        for step, content, others in crash_states(rec, target):
            n += 1
            if content != old and content != new:
                bad += 1
                if bad == 1:
                    what = "absent" if content is None else "%d bytes of %d" % (len(content), len(new))
                    sub.violation("crash:" + key, "crash after step %d (%s) leaves the file %s" % (step, rec.ops[step - 1][:1] + rec.ops[step - 1][1:2] if step else "-", what))
            left.setdefault((content == new, content == old, tuple(sorted(others))), (content, others))
        sub.add(states=n, transitions=n)
        if len(left) > 1:
            sub.case("crash-states")
        # saving again after the crash (an interrupted new-wallet file which is complete is kept)
        for (is_new, is_old, _), (content, others) in left.items():
            if bad or (name == "newwallet" and content is not None) or (name == "device" and content is not None):
                continue
            materialize(root, target, content, others, rec)
            w2 = cls(i)
            r = attempt(lambda: w2.save(arg_path))
            sub.add(states=1, transitions=1)
            if r[0] or attempt(lambda: w2.load(target)) != (False, w2.want()):
                sub.violation("again:" + key, "saving after a crash: %r" % (r[1],))
        # failing operations
        for k in range(1, rec.calls + 1):
            setup()
            w3 = cls(i)
            with Recorder(root, fail_at=k) as rec3:
                r = attempt(lambda: w3.save(arg_path))
            now = read(target)
            sub.add(states=1, transitions=1)
            ok_new = now is not None and attempt(lambda: w3.load(target)) == (False, w3.want())
            if r[0] and not (now == old or ok_new) or not r[0] and not ok_new:
                sub.violation("fault:%d:%s" % (k, key), "operation %d fails: %s, file %s" % (k, "reported" if r[0] else "not reported", "absent" if now is None else "%d bytes" % len(now)))
            if not r[0]:
                sub.case("tolerated fault")
            else:
                sub.case("reported fault")
    finally:
        os.chdir(here)
        shutil.rmtree(root)


def run(chk):
    chk.rule = __doc__
    items = []
    for name in WRITERS:
        for i in range(6 if chk.thorough else 3):
            for kind in (("absent",) if name in ("device", "newwallet") else ("absent", "old", "longer")):
                items.append((name, i, kind, False))
        items.append((name, 0, "absent", True))
    pmap(chk, scenario, items, 600)
    chk.extra["bounds"] = "4 writers x account menus x previous file absent/present/longer; every crash point and torn write, every single failing operation"
