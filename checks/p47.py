"""P47: the watch-only wallet that is set up belongs to the connected device.

The real HostAgent.open_account / load_watchonly / set_account run in a scratch directory against every combination of a source of credentials (device, command line, account file), the
credentials it yields (right; another wallet's view key or address; subaddress; another network; damaged; refusal), the key file found, password, and --no-init, and against every
sequence of account switches and device queries; every command in each state of the wallet process with each device connected. Files written have to open and hold exactly the wallet's keys; inconsistent credentials are refused before anything is taken over or written."""
import asyncio
import contextlib
import functools
import io
import itertools
import json
import os
import shutil
import tempfile
import types

from mc import env, ref
from mc.check import pmap

env.install_rng()

from monero_glue.agent import agent_lite
from monero_glue.hwtoken import token
from monero_glue.messages import MoneroGetWatchKey, MoneroWatchKey
from monero_glue.messages.MoneroAddress import MoneroAddress
from monero_glue.messages.Failure import Failure
from monero_glue.xmr import crypto as C, monero, wallet
from monero_glue.xmr.enc import chacha
from monero_poc import agent as pagent
from monero_serialize import xmrtypes
from checks.p36 import attempt

if not hasattr(chacha.pycryptonight.cn_slow_hash, "cache_info"):
    _slow = functools.lru_cache(None)(chacha.pycryptonight.cn_slow_hash)
    chacha.pycryptonight.cn_slow_hash = lambda d: _slow(bytes(d))
    chacha.pycryptonight.cn_slow_hash.cache_info = _slow.cache_info

NET = monero.NetworkTypes
NETS = {NET.MAINNET: "main", NET.TESTNET: "test", NET.STAGENET: "stage"}
KI = "5a6f" * 16
KINDS = {"std": 0, "int": 1, "sub": 2}


def drive(co):
    """run a coroutine which never really waits"""
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("waits")


def tag(kind, net):
    return ref.ADDR_TAGS[net][KINDS[kind]]


def aenc(t, payload):
    return ref.addr_encode(t, payload).encode()


class Out:
    """report under the last part of the text, with the rest as the case"""

    def __init__(self, sub):
        self.sub = sub

    def violation(self, text, **kw):
        self.sub.violation(text.split(" / ")[0] + ": " + text.split(" / ")[-1], text + "".join(" %s=%s" % x for x in kw.items()), case=text)

    def expect(self, cond, text, **kw):
        if not cond:
            self.violation(text, **kw)

    def case(self, text):
        self.sub.case(text)
        self.sub.add(states=1)


class Keys:
    def __init__(self, i, net):
        self.net = net
        self.a, self.b = 1000 + i * 7919, 2000 + i * 104729
        self.A, self.B = ref.enc(ref.mulG(self.a)), ref.enc(ref.mulG(self.b))
        self.addr = aenc(tag("std", net), self.B + self.A)

    def sub(self, major, minor=0, net=None):
        if (major, minor) == (0, 0):
            return self.addr
        w = ref.Wallet(self.b, self.a)
        D, Cc = w.sub_pub(major, minor)
        return aenc(tag("sub", self.net if net is None else net), ref.enc(D) + ref.enc(Cc))

    def integrated(self, pid):
        return aenc(tag("int", self.net), self.B + self.A + pid)

    def creds(self):
        return monero.AccountCreds.new_wallet(C.decodeint(ref.enc_sc(self.a)), C.decodeint(ref.enc_sc(self.b)), self.net)


def cases(k, o):
    """name -> (address, view key bytes, belongs together)"""
    sk = ref.enc_sc(k.a)
    bad = bytearray(k.addr)
    bad[20] = ord("2") if bad[20] != ord("2") else ord("3")
    return {
        "right": (k.addr, sk, True),
        "view key of another wallet": (k.addr, ref.enc_sc(o.a), False),
        "spend key as view key": (k.addr, ref.enc_sc(k.b), False),
        "public key as view key": (k.addr, k.A, False),
        "view key plus one": (k.addr, ref.enc_sc((k.a + 1) % ref.L), False),
        "negated view key": (k.addr, ref.enc_sc(-k.a % ref.L), False),
        "zero view key": (k.addr, bytes(32), False),
        "view key cut": (k.addr, sk[:31], False),
        "no view key": (k.addr, None, False),
        "address of another wallet": (o.addr, sk, False),
        "spend and view key of the address swapped": (aenc(tag("std", k.net), k.A + k.B), sk, False),
        "subaddress": (k.sub(0, 1), sk, False),
        "subaddress of another account": (k.sub(2), sk, False),
        "address with a wrong check value": (bytes(bad), sk, False),
        "address cut": (k.addr[:-1], sk, False),
        "empty address": (b"", sk, False),
        "no address": (None, sk, False),
    }


class Device:
    """hands out given credentials"""

    def __init__(self, reply):
        self.reply, self.asked = reply, []

    async def ping(self, *a, **k):
        if self.reply == "away":
            raise IOError("away")
        return True

    async def get_view_key(self, msg):
        self.asked.append(msg)
        if self.reply == "failure":
            return Failure(code=1, message="refused")
        if self.reply == "raises":
            raise IOError("broken")
        addr, vk = self.reply
        return MoneroWatchKey(watch_key=vk, address=addr)


class Host(pagent.HostAgent):
    def __init__(self, dev, d, net, **kw):
        a = dict(view_key=None, address=None, account_file=None, testnet=net == NET.TESTNET, no_init=False, sign=None, rpc_addr=None, watch_wallet=os.path.join(d, "wallet"), monero_bin="/m")
        a.update(kw)
        self.args = types.SimpleNamespace(**a)
        self.network_type = self.address = self.address_info = self.address_base_info = None
        self.priv_view = self.pub_view = self.pub_spend = None
        self.account_idx, self.wallet_salt, self.wallet_password = 0, None, b""
        self.wallet_file = self.monero_bin = None
        self.rpc_addr, self.fresh_wallet, self.terminating = "127.0.0.1:18081", False, False
        self.trace_logger = type("L", (), {"log": lambda *a: None})()
        self.trezor_proxy = dev
        self.agent = agent_lite.Agent(dev, network_type=None)
        self.daemon_rpc = types.SimpleNamespace(set_addr=lambda a: None)
        self.password = b"pw"

    def update_intro(self):
        pass

    def update_prompt(self):
        pass

    def poutput(self, *a):
        pass

    def ask_password(self, *a, **k):
        return self.password.decode()

    async def wallet_restore_param(self):
        return 77


def keys_file(path, k, password):
    """key file of wallet k, made by the code under test (P44 decides what it is worth)"""
    kd = wallet.WalletKeyData()
    kd.m_creation_timestamp = 5
    kd.m_keys = xmrtypes.AccountKeys()
    kd.m_keys.m_account_address = xmrtypes.AccountPublicAddress(m_spend_public_key=k.B, m_view_public_key=k.A)
    kd.m_keys.m_spend_secret_key, kd.m_keys.m_view_secret_key = bytes(32), ref.enc_sc(k.a)
    w = wallet.WalletKeyFile()
    w.key_data, w.watch_only, w.testnet, w.refresh_height = kd, 1, k.net == NET.TESTNET, 1
    drive(wallet.save_keys_file(path, password, w))


def slurp(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(base, f), "rb") as fh:
                r[os.path.relpath(os.path.join(base, f), d)] = fh.read()
    return r


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return False, fn()
        except SystemExit as e:
            return True, e
        except Exception as e:
            return True, e


EXISTING = ["none", "own", "other", "half other view", "half other spend", "own, other password", "damaged", "empty"]


def place(d, what, k, o, pw):
    p = os.path.join(d, "wallet.keys")
    if what == "own":
        keys_file(p, k, pw)
    elif what == "other":
        keys_file(p, o, pw)
    elif what in ("half other view", "half other spend"):
        m = Keys(1, k.net)
        if what == "half other view":
            m.A, m.a = o.A, o.a
        else:
            m.B = o.B
        keys_file(p, m, pw)
    elif what == "own, other password":
        keys_file(p, k, b"something else")
    elif what == "damaged":
        keys_file(p, k, pw)
        with open(p, "rb+") as fh:
            fh.truncate(os.path.getsize(p) // 2)
    elif what == "empty":
        open(p, "wb").close()


def taken(h, k):
    """what of the wallet the host holds is not k's"""
    r = []
    if h.priv_view is None or bytes(C.encodeint(h.priv_view)) != ref.enc_sc(k.a):
        r.append("view key")
    if h.pub_view is None or bytes(C.encodepoint(h.pub_view)) != k.A:
        r.append("public view key")
    if h.pub_spend is None or bytes(C.encodepoint(h.pub_spend)) != k.B:
        r.append("public spend key")
    if h.address is None or bytes(h.address) != k.sub(h.account_idx):
        r.append("address")
    return r


def holds(h):
    return [n for n in ("priv_view", "pub_view", "pub_spend", "address") if getattr(h, n) is not None]


def check_files(sub, case, d, before, k, pw, no_init, wrote_ok):
    after = slurp(d)
    for n, data in before.items():
        sub.expect(after.get(n) == data, case + " / an existing file is changed", file=n)
    new = sorted(set(after) - set(before))
    if not wrote_ok:
        sub.expect(not new, case + " / files are written for credentials which were refused", files=new)
        return
    sub.expect(set(new) <= {"wallet.keys", "acc"}, case + " / surplus files", files=new)
    if "wallet.keys" in new:
        f, w = attempt(lambda: drive(wallet.load_keys_file(os.path.join(d, "wallet.keys"), pw)))
        if f:
            sub.violation(case + " / the key file written does not open", error=repr(w))
        else:
            mk = w["key_data"]["m_keys"]
            got = (bytes(mk["m_account_address"]["m_spend_public_key"]), bytes(mk["m_account_address"]["m_view_public_key"]), bytes(mk["m_spend_secret_key"]), bytes(mk["m_view_secret_key"]))
            sub.expect(got == (k.B, k.A, bytes(32), ref.enc_sc(k.a)), case + " / the key file written holds other keys")
            sub.expect((w.get("watch_only"), bool(w.get("testnet")), w.get("refresh_height")) == (1, k.net == NET.TESTNET, 77), case + " / the key file written describes another wallet", got=str({x: w.get(x) for x in ("watch_only", "testnet", "refresh_height")}))
    if "acc" in new:
        js = json.loads(after["acc"])
        sub.expect((js["address"].encode(), js["network_type"], js["wallet_file"], js["monero_bin"]) == (k.addr, k.net, os.path.join(d, "wallet"), "/m"), case + " / the account file written describes another wallet", got=str(js)[:300])
        sub.expect(ref.enc_sc(k.a).hex() not in after["acc"].decode(), case + " / the account file shows the view key")
        h = Host(Device("away"), d, k.net, account_file=os.path.join(d, "acc"), no_init=no_init)
        h.password = pw
        f, e = quiet(lambda: drive(h.open_account()))
        sub.expect(not f and not taken(h, k), case + " / the account written does not open again", error=repr(e), differs=taken(h, k))
        sub.expect(slurp(d) == after, case + " / opening the account changes files")
        h = Host(Device("away"), d, k.net, account_file=os.path.join(d, "acc"), no_init=no_init)
        h.password = pw + b"x"
        f, e = quiet(lambda: drive(h.open_account()))
        sub.expect(f and not holds(h), case + " / the account written opens with a wrong password", holds=holds(h))
    sub.case(case)


def open_one(arg, sub):
    source, name, existing, no_init, with_acc, net, pw = arg
    env.RNG.reset("p47")
    k, o = Keys(1, net), Keys(2, net)
    addr, vk, fits = cases(k, o).get(name, (None, None, False))
    case = "%s / %s / key file %s / %s%s" % (source, name, existing, "no init" if no_init else "init", " / account file" if with_acc else "")
    d = tempfile.mkdtemp(prefix="p47")
    try:
        kw = dict(no_init=no_init)
        if with_acc:
            kw["account_file"] = os.path.join(d, "acc")
        dev = Device("away")
        file_pw = pw if with_acc or "file" in source else b""
        if source == "device":
            dev = Device((addr, vk) if name in cases(k, o) else name)
        elif source == "passed":
            if addr is None or vk is None:
                return
            kw.update(view_key=vk.hex(), address=addr.decode())
        else:
            kw["account_file"] = os.path.join(d, "acc")
            h0 = Host(dev, d, net, account_file=os.path.join(d, "acc"))
            h0.wallet_password, h0.wallet_file, h0.monero_bin, h0.network_type = pw, os.path.join(d, "wallet"), "/m", net
            if addr is None or vk is None or len(vk) != 32:
                return
            h0.priv_view, h0.address = C.decodeint(vk), addr
            drive(h0.save_account(os.path.join(d, "acc")))
            if source == "plain file":
                js = json.load(open(os.path.join(d, "acc")))
                del js["view_key_enc"]
                js["view_key"] = vk.hex()
                json.dump(js, open(os.path.join(d, "acc"), "w"))
        place(d, existing, k, o, file_pw)
        before = slurp(d)
        h = Host(dev, d, net, **kw)
        h.password = pw
        f, e = quiet(lambda: drive(h.open_account()))
        if fits:
            match = existing in ("none", "own")
            if no_init or match:
                sub.expect(not f, case + " / right credentials are refused", error=repr(e))
                sub.expect(not taken(h, k), case + " / other keys are used than the right ones given", differs=taken(h, k))
                sub.expect(h.network_type == net and h.agent.network_type == net, case + " / wrong network")
                if not no_init and existing == "none":
                    sub.expect("wallet.keys" in slurp(d), case + " / no key file is written")
                if with_acc:
                    sub.expect("acc" in slurp(d), case + " / no account file is written")
            else:
                sub.expect(f, case + " / a key file which is not the wallet's is accepted")
                sub.expect(slurp(d) == before, case + " / files are written though the key file was refused")
            check_files(sub, case, d, before, k, file_pw, no_init, True)
        else:
            if not (no_init and source == "device"):
                sub.expect(f, case + " / credentials which do not belong together are accepted")
            sub.expect(not holds(h), case + " / keys are taken over from refused credentials", holds=holds(h))
            check_files(sub, case, d, before, k, file_pw, no_init, False)
        if source == "device" and dev.asked:
            sub.expect([m.network_type for m in dev.asked] == [net], case + " / device asked for another network")
    finally:
        shutil.rmtree(d)


ACTS = [("account", 0), ("account", 1), ("account", 2), ("account", 100), ("account", 2 ** 32 - 1), ("load", "right"), ("load", "address of another wallet"), ("load", "view key of another wallet"),
        ("load", "failure"), ("load", "raises"), ("load", "away")]


def switches(arg, sub):
    """after every sequence of account switches and credential loads the host shows the wallet's addresses"""
    net, seq, start = arg
    k, o = Keys(1, net), Keys(2, net)
    menu = cases(k, o)
    d = tempfile.mkdtemp(prefix="p47")
    try:
        h = Host(Device(menu["right"][:2]), d, net)
        if start:
            f, e = quiet(lambda: drive(h.load_watchonly()))
            if f:
                sub.violation("switch / right credentials are refused", error=repr(e))
                return
        idx = 0
        for n, (kind, v) in enumerate(seq):
            case = "switch / %s%s" % ("loaded, " if start else "", ", ".join("%s %s" % x for x in seq[: n + 1]))
            if kind == "account":
                if not start:
                    return
                quiet(lambda: h.set_account(v))
                idx = v
            else:
                h.trezor_proxy.reply = menu[v][:2] if v in menu else v
                f, e = quiet(lambda: drive(h.load_watchonly()))
                sub.expect(f == (v != "right"), case + " / result of loading is wrong", error=repr(e))
                start = start or v == "right"
            if start:
                sub.expect(not taken(h, k), case + " / the host holds other keys or another address than the device", differs=taken(h, k))
                b = h.address_base_info
                sub.expect((bytes(b.spend_key), bytes(b.view_key), bytes(b.addr)) == (k.B, k.A, k.addr), case + " / the main address is lost")
                sub.expect(h.account_idx == idx, case + " / account index")
            else:
                sub.expect(not holds(h), case + " / keys are taken over from refused credentials", holds=holds(h))
            sub.case(case)
        sub.expect(not slurp(d), "switch / files are written")
    finally:
        shutil.rmtree(d)


COMMANDS = {"transfer": "4 %s 1.5", "sign": "tx", "key_image_sync": "", "check_trezor": "", "get_transfers": "", "balance": "", "height": "", "refresh": "", "rescan_bc": "",
            "sweep_dust": "", "sweep_all": "%s", "sweep_below": "2 %s", "sweep_single": KI + " %s"}
GUARDED = ("transfer", "sign", "key_image_sync", "check_trezor")


def commands(arg, sub):
    """commands need a running wallet process; those which move money need the wallet's own device, in the account chosen"""
    cmd, rpc, who, account, net = arg
    k, o = Keys(1, net), Keys(2, net)
    case = "command %s / process %s / device %s / account %d" % (cmd, rpc, who, account)
    d = tempfile.mkdtemp(prefix="p47")
    try:
        log = []

        class Dev(Device):
            def __init__(self):
                super().__init__((k.addr, ref.enc_sc(k.a)))
                self.who = "own"

            async def call(self, msg):
                log.append(("device", type(msg).__name__, msg))
                a, m = msg.account or 0, msg.minor or 0
                if self.who == "failure":
                    return Failure(code=4, message="refused")
                if self.who == "raises":
                    raise IOError("away")
                addr = {"own": k.sub(a, m), "other": o.sub(a, m), "main": k.addr if a else k.sub(0, 1), "network": k.sub(a, m, NET.STAGENET)
                        if (a, m) != (0, 0) else aenc(tag("std", NET.STAGENET), k.B + k.A), "none": None, "empty": b""}[self.who]
                return MoneroAddress(address=addr)

        dev = Dev()
        h = Host(dev, d, net, debug_rpc=True)
        h.wait_coro = drive
        h.perror = lambda *a: log.append(("error",))
        f, e = quiet(lambda: drive(h.load_watchonly()))
        if f:
            sub.violation(case + " / right credentials are refused", error=repr(e))
            return
        h.set_account(account)
        del log[:]
        dev.who = who
        h.rpc_running, h.rpc_ready = rpc != "stopped", rpc == "ready"

        class Wallet:
            def __getattr__(self, name):
                return lambda *a: log.append(("wallet", name)) or {"result": {}}

        h.wallet_proxy = Wallet()
        for n in ("transfer_cmd", "sweep_cmd"):
            setattr(h, n, lambda *a, n=n, **kw: log.append(("wallet", n)))

        async def rec(*a, **kw):
            log.append(("wallet", "sync"))
        h.sign_wrap = h.key_image_sync = h.sign_unsigned = rec
        line = COMMANDS[cmd]
        f, e = quiet(lambda: getattr(h, "do_" + cmd)(line % o.addr.decode() if "%s" in line else line))
        done = [x for x in log if x[0] == "wallet"]
        asked = [x[2] for x in log if x[0] == "device"]
        if cmd != "check_trezor" and rpc != "ready":
            sub.expect(not done, case + " / something is done without the wallet process", done=done)
        elif cmd in GUARDED:
            sub.expect([(m.network_type, m.account or 0, m.minor or 0) for m in asked] == [(net, account, 0)], case + " / the device is asked for another address", asked=[(m.network_type, m.account, m.minor) for m in asked])
            if who == "own":
                sub.expect(not f and (done or cmd == "check_trezor"), case + " / refused with the wallet's own device", error=repr(e))
            else:
                sub.expect(f, case + " / another device is taken for the wallet's")
                sub.expect(not done, case + " / something is done with another device", done=done)
        else:
            sub.expect(done, case + " / nothing is done", error=repr(e))
        sub.case(case)
    finally:
        shutil.rmtree(d)


def devices(arg, sub):
    """TokenLite.get_view_key: the wallet's keys for the network it is set up for, nothing otherwise; the real host accepts them"""
    net, asked = arg
    k = Keys(1, net)
    tok = token.TokenLite()
    tok.creds = k.creds()
    case = "device %s / asked %s" % (NETS[net], NETS.get(asked, asked))
    f, r = attempt(lambda: drive(tok.get_view_key(MoneroGetWatchKey(network_type=asked, address_n=[]))))
    if asked == net:
        if f or not isinstance(r, MoneroWatchKey):
            sub.violation(case + " / no credentials", got=repr(r))
            return
        sub.expect(bytes(r.watch_key) == ref.enc_sc(k.a) and bytes(r.address) == k.addr, case + " / other credentials than the wallet's", got=bytes(r.watch_key).hex())
    else:
        sub.expect(f or not isinstance(r, MoneroWatchKey), case + " / credentials for another network are handed out")
    if asked in (NET.MAINNET, NET.TESTNET):
        d = tempfile.mkdtemp(prefix="p47")
        try:
            async def ping(*a, **kw):
                return True

            tok.ping = ping
            h = Host(tok, d, asked)
            f, e = quiet(lambda: drive(h.open_account()))
            if asked == net:
                sub.expect(not f and not taken(h, k), case + " / the host does not accept the device's credentials", error=repr(e))
                check_files(sub, case, d, {}, k, b"", False, True)
            else:
                sub.expect(f and not holds(h), case + " / the host takes something over", holds=holds(h))
                check_files(sub, case, d, {}, k, b"", False, False)
        finally:
            shutil.rmtree(d)
    sub.case(case)


def one(sub, arg):
    {"open": open_one, "switch": switches, "device": devices, "command": commands}[arg[0]](arg[1:], Out(sub))


def run(chk):
    chk.rule = __doc__
    quick = chk.tier == "quick"
    k, o = Keys(1, NET.TESTNET), Keys(2, NET.TESTNET)
    names = list(cases(k, o))
    items = []
    nets = [NET.TESTNET, NET.MAINNET]
    pws = [b"pw"] if quick else [b"pw", b"", "b\u00fcro \u6f22".encode()]
    for source in ("device", "passed", "file", "plain file"):
        for name in names + (["failure", "raises", "away"] if source == "device" else []):
            for existing in EXISTING if (not quick or name in ("right", "view key of another wallet", "failure")) else EXISTING[:2]:
                for no_init in (False, True):
                    for with_acc in (False, True) if "file" not in source else (False,):
                        for net in nets if (not quick or existing == "none") else nets[:1]:
                            items += [("open", source, name, existing, no_init, with_acc, net, pw) for pw in pws]
    depth = 2 if quick else 3
    for net in nets[: 1 if quick else 2]:
        for start in (False, True):
            for n in range(1, depth + 1):
                items += [("switch", net, s, start) for s in itertools.product(ACTS, repeat=n) if start or s[0][0] == "load"]
    items += [("command", c, r, w, a, net) for c in COMMANDS for r in ("stopped", "starting", "ready") for w in ("own", "other", "main", "network", "none", "empty", "failure", "raises")
              for a in (0, 1, 300) for net in nets]
    items += [("device", net, asked) for net in NETS for asked in list(NETS) + [None, 7]]
    chk.extra["bounds"] = "%d runs: 4 sources of credentials x %d kinds of credentials x up to %d states of the key file x no-init x account file x network%s; every sequence of up to %d of %d account switches and loads" % (
        len(items), len(names) + 3, len(EXISTING), "" if quick else " x %d passwords" % len(pws), depth, len(ACTS))
    pmap(chk, one, items, 900)
