"""P50: the link between agent and simulated device carries every message once and unchanged, or fails.

The real TokenProxy talks to the real TrezorServer application (its HTTP layer replaced by the application's test client). Every message type with every field menu of P27 is carried in both
directions, whole signing and key image runs give the same result as with the device at hand, and on every message of a run every fault of the link (lost before or after delivery, error status, damaged,
stale, foreign answer), every refusal of the user and every failure of the device is tried: the run then fails and nothing comes out."""
import asyncio
import binascii
import contextlib
import copy
import io
import itertools
import json
import logging
import types

from mc import env, hostagent, ref, world
from mc.check import pmap

env.install_rng()

import requests
from monero_glue.agent import agent_lite
from monero_glue.hwtoken import token
from monero_glue.messages import MoneroGetWatchKey, MoneroWatchKey
from monero_glue.xmr import crypto as C, monero
from monero_poc import trezor as ptrezor
from monero_poc.utils import trezor_server_proxy as proxy
from checks import p16, p27
from checks.p36 import attempt
from checks.p47 import Out, drive

M = world.M
LOOP = asyncio.new_event_loop()
asyncio.set_event_loop(LOOP)
WAIT = ptrezor.TrezorServer.wait_coro


class Server(ptrezor.TrezorServer):
    """the simulated device without a terminal; answer: what the user replies to each question"""

    def __init__(self, tok=None, creds=None, answer=True, real_wait=False):
        old = ptrezor.cli.BaseCli.__init__
        ptrezor.cli.BaseCli.__init__ = lambda *a, **k: None
        try:
            super().__init__()
        finally:
            ptrezor.cli.BaseCli.__init__ = old
        self.network_type = world.NET
        self.creds, self.trez, self.answer, self.real_wait = creds, tok, answer, real_wait
        self.asked = []
        self.init_rest()
        self.client = self.flask.test_client()

    def wait_coro(self, coro):
        return WAIT(self, coro) if self.real_wait else drive(coro)

    def update_prompt(self):
        pass

    def poutput(self, *a):
        pass

    def reply(self, what, waiter):
        self.asked.append((what, waiter.question.data))
        if self.answer == "raise":
            raise IOError("terminal closed")
        waiter.confirmation(self.answer, waiter.question)

    def on_confirm_start(self, *a):
        self.reply("tx", self.trez_iface.tsx_waiter)

    def on_confirm_ki_sync(self, *a):
        self.reply("ki", self.trez_iface.ki_sync_waiter)

    def on_watchonly(self, *a):
        self.reply("watch", self.watch_only_waiter)

    def on_transaction_signed(self, *a):
        self.asked.append(("signed", None))


class Answer:
    def __init__(self, status, data):
        self.status_code, self.data = status, data

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError("status %d" % self.status_code)

    def json(self):
        return json.loads(self.data.decode())


class Net:
    """the HTTP layer; fault(n) for the n-th request"""

    def __init__(self, srv, fault=None, at=None):
        self.srv, self.fault, self.at, self.n, self.last, self.urls = srv, fault, at, 0, None, []

    def post(self, url, json=None, **kw):
        return self.go("POST", url, json)

    def get(self, url, **kw):
        return self.go("GET", url, None)

    def go(self, method, url, js):
        n, self.n = self.n, self.n + 1
        self.urls.append(url)
        base = "http://127.0.0.1:46123"
        if not url.startswith(base):
            raise requests.ConnectionError("no such server")
        f = self.fault if n == self.at else None
        if f == "lost before":
            raise requests.ConnectionError("lost")
        if js is not None:
            js = json.loads(json.dumps(js))
        env.RNG.reset("agent/%d" % n)
        r = self.srv.client.open(url[len(base):], method=method, json=js)
        env.RNG.reset("host/%d" % n)
        status, data = r.status_code, r.data
        prev, self.last = self.last, data
        if f == "lost after":
            raise requests.ConnectionError("lost")
        if f and f.startswith("status"):
            return Answer(int(f.split()[1]), data)
        if f == "not json":
            return Answer(200, b"<html>")
        if f == "empty":
            return Answer(200, b"")
        if f == "cut":
            return Answer(200, data[:-4])
        if f == "null":
            return Answer(200, b"null")
        if f == "no payload":
            return Answer(200, b'{"result": true}')
        if f == "stale":
            if prev is None:
                raise requests.ConnectionError("nothing")
            return Answer(200, prev)
        if f in ("message cut", "odd hex", "no hex", "other type", "unknown type", "no type"):
            d = json.loads(data.decode())
            p = d["payload"]
            if f == "message cut":
                p["msg"] = p["msg"][:-2] if len(p["msg"]) >= 2 else "0a05"
            elif f == "odd hex":
                p["msg"] += "0"
            elif f == "no hex":
                p["msg"] = "zz" + p["msg"][2:]
            elif f == "other type":
                p["msg_type"] = 2
            elif f == "unknown type":
                p["msg_type"] = 64999
            else:
                del p["msg_type"]
            return Answer(200, json.dumps(d).encode())
        return Answer(status, data)


FAULTS = ["lost before", "lost after", "status 400", "status 403", "status 406", "status 500", "status 503", "not json", "empty", "cut", "null", "no payload", "stale", "message cut", "odd hex", "no hex", "other type",
          "unknown type", "no type"]


@contextlib.contextmanager
def over(net):
    old = requests.post, requests.get
    requests.post, requests.get = net.post, net.get
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        requests.post, requests.get = old


class Stub:
    """device which hands back a given message"""

    def __init__(self):
        self.got, self.back = [], None

    async def tsx_sign(self, msg):
        self.got.append(("tx", msg))
        return self.back

    async def key_image_sync(self, msg):
        self.got.append(("ki", msg))
        return self.back


def has_type(c):
    return not attempt(lambda: proxy.messages.get_message_type(c()))[0]


def carried(arg, out):
    """every message of one type, in both directions, over each endpoint"""
    name, real = arg
    cls = p27.TYPES[name]
    insts = p27.instances(cls)
    other = M.MoneroTransactionFinalAck()
    tok = Stub()
    net = Net(Server(tok, real_wait=real))
    px = proxy.TokenProxy()
    if real:
        insts = insts[:3]
    with over(net):
        for label, m in insts:
            if attempt(lambda: p27.dump(m))[0]:
                continue
            for ep in ("tsx_sign", "key_image_sync"):
                for way in (0, 1):
                    case = "carried / %s / %s / %s / %s" % (ep, name, label, ("to the device", "to the agent")[way])
                    send, back = (m, other) if way == 0 else (other, m)
                    tok.got, tok.back = [], back
                    f, r = attempt(lambda: drive(getattr(px, ep)(copy.deepcopy(send))))
                    if f:
                        out.violation(case + " / a message is not carried", error=repr(r))
                        continue
                    out.expect(len(tok.got) == 1 and tok.got[0][0] == ("tx" if ep == "tsx_sign" else "ki"), case + " / a message is delivered elsewhere or not once", got=len(tok.got))
                    out.expect(len(tok.got) == 1 and p27.same(p27.load(p27.dump(send), type(send)), tok.got[0][1]), case + " / the device gets another message than the one sent")
                    out.expect(p27.same(p27.load(p27.dump(back), type(back)), r), case + " / the agent gets another message than the one the device returned")
                    out.case(case)


def device(spec, answer=True, **kw):
    dev = hostagent.new_dev(spec)
    srv = Server(dev.tok, dev.tok.creds, answer, **kw)
    dev.tok.iface = srv.trez_iface
    return srv


def sign(spec, srv, fault=None, at=None):
    net = Net(srv, fault, at)
    ag = hostagent.make_agent(proxy.TokenProxy(), spec)
    env.RNG.reset("host/start")
    con = spec.construction()
    with over(net):
        f, r = attempt(lambda: env.run(ag.sign_transaction_data(con)))
        if not f and r is not None:
            f, r = attempt(lambda: env.run(ag.serialized_tx()))
    return net, f, r


def specs(quick):
    S, i, st, sb, cg = world.Spec, world.inp, world.std, world.sub, world.chg
    r = [S("p50a", [i("a", 10 ** 12)], [st(6 * 10 ** 11), cg(3 * 10 ** 11)], change=1)]
    r.append(S("p50b", [i("b", 10 ** 12), i("c", 2 * 10 ** 12)], [sb(6 * 10 ** 11), sb(5 * 10 ** 11, 1), cg(3 * 10 ** 11)], change=2))
    return r


def signing(arg, out):
    """a whole signing run over the link: as with the device at hand, one request per message"""
    k, fault, at, answer, real = arg
    spec = specs(False)[k]
    link, ag, blob, e = hostagent.sign(spec)
    if e or blob is None:
        out.violation("signing / %d / the device at hand does not sign" % k, error=repr(e))
        return
    srv = device(spec, answer, real_wait=real)
    net, f, r = sign(spec, srv, fault, at)
    case = "signing / transaction %d / %s%s / user %s" % (k, fault or "no fault", " at message %d" % at if at is not None else "", answer)
    good = fault is None and answer is True
    if good:
        out.expect(not f and r is not None and bytes(r) == bytes(blob), case + " / the transaction signed over the link is another", error=repr(r)[:200] if f else None)
        out.expect(net.n == len(link.sent), case + " / number of requests", got=net.n, want=len(link.sent))
        out.expect([w for w, _ in srv.asked] == ["tx", "signed"], case + " / what the user is asked and told", got=[w for w, _ in srv.asked])
    else:
        same = fault in ("stale", "other type") and not f and r is not None and bytes(r) == bytes(blob)
        out.expect(f or r is None or same, case + " / a transaction comes out though the link failed or the user refused")
        if fault and at is not None and fault not in ("stale", "other type"):
            out.expect(net.n == at + 1, case + " / the agent goes on after a failure of the link", got=net.n, want=at + 1)
        out.expect(same or ("signed" in [w for w, _ in srv.asked]) <= (fault is not None and answer is True and at is not None and at >= len(link.sent) - 1), case + " / the user is told of a signed transaction")
    out.case(case)


def sync(arg, out):
    """key image export over the link"""
    n, fault, at, answer = arg
    inps = [world.inp("k%d" % i, 10 ** 12 + i, oidx=i) for i in range(n)]
    dev = world.Dev(world.SENDER)
    srv = Server(dev.tok, dev.tok.creds, answer)
    dev.tok.iface = srv.trez_iface
    net = Net(srv, fault, at)
    ag = agent_lite.Agent(proxy.TokenProxy(), network_type=world.NET)
    with over(net):
        f, r = attempt(lambda: env.run(ag.import_outputs([p16.transfer(i) for i in inps])))
    case = "sync / %d outputs / %s%s / user %s" % (n, fault or "no fault", " at message %d" % at if at is not None else "", answer)
    if fault is None and answer is True:
        out.expect(not f and [bytes(x[0]) for x in r] == [i.ki for i in inps], case + " / other key images come over the link", error=repr(r)[:200] if f else None)
    elif fault in ("stale", "other type"):
        out.expect(f or r is None or [bytes(x[0]) for x in r] == [i.ki for i in inps], case + " / other key images come over the link")
    elif at is None or at < net.n:
        out.expect(f or r is None, case + " / key images come out though the link failed or the user refused")
    out.case(case)
    return net.n


def watch(arg, out):
    """watch-only credentials: only of a set up device, with the user's consent"""
    setup, answer, fault, busy = arg
    w = world.SENDER
    creds = world.creds_of(w)
    srv = Server(None, creds if setup else None, answer)
    if busy:
        srv.watch_only_waiter._init_wait() if hasattr(srv.watch_only_waiter, "_init_wait") else None
        if not srv.watch_only_waiter.in_confirmation:
            return
    net = Net(srv, fault, 0 if fault else None)
    ag = agent_lite.Agent(proxy.TokenProxy(), network_type=world.NET)
    with over(net):
        f, r = attempt(lambda: drive(ag.get_watch_only()))
    case = "watch / %s / user %s / %s%s" % ("set up" if setup else "not set up", answer, fault or "no fault", " / another question is open" if busy else "")
    if setup and answer is True and not fault and not busy:
        out.expect(not f and isinstance(r, MoneroWatchKey) and bytes(r.watch_key) == ref.enc_sc(w.a) and bytes(r.address) == bytes(creds.address), case + " / other credentials come over the link", got=repr(r))
        out.expect([x for x, _ in srv.asked] == ["watch"], case + " / the user is asked something else", got=srv.asked)
    else:
        out.expect(f or not isinstance(r, MoneroWatchKey) or not r.watch_key, case + " / credentials come out though the link failed or the user refused", got=repr(r))
        if busy or not setup:
            out.expect(not srv.asked, case + " / the user is asked", got=srv.asked)
    out.case(case)


def broken(arg, out):
    """a device which raises or is not set up: the agent fails; ping tells whether the server is there"""
    what, ep = arg

    class Dev:
        async def tsx_sign(self, msg):
            return self.act()

        async def key_image_sync(self, msg):
            return self.act()

        def act(self):
            if what == "raises":
                raise ValueError("no")
            if what == "none":
                return None
            if what == "failure":
                return M.Failure(code=99, message="no")
            return 7

    srv = Server(None if what == "no device" else Dev())
    net = Net(srv, what if what in FAULTS else None, 0 if what in FAULTS else None)
    px = proxy.TokenProxy()
    msg = M.MoneroTransactionFinalRequest()
    case = "broken / %s / %s" % (ep, what)
    with over(net):
        if ep == "ping":
            f, r = attempt(lambda: drive(px.ping()))
            if what in ("lost before", "lost after", "status 400", "status 403", "status 406", "status 500", "status 503"):
                out.expect(f, "broken / ping / %s / an absent server is taken for present" % what)
            elif what == "fine":
                out.expect(not f, "broken / ping / a present server is taken for absent", error=repr(r))
        else:
            f, r = attempt(lambda: drive(getattr(px, ep)(msg)))
            case = "broken / %s / %s" % (ep, what)
            if what == "failure":
                out.expect(not f and isinstance(r, M.Failure) and r.code == 99 and r.message == "no", case + " / a failure of the device is carried otherwise", got=repr(r))
            elif what in ("raises", "none", "no device", "fine"):
                out.expect(f, case + " / an answer comes out of a device which gave none", got=repr(r))
    out.case(case)


def one(sub, arg):
    {"carried": carried, "signing": signing, "sync": sync, "watch": watch, "broken": broken}[arg[0]](arg[1:], Out(sub))


def run(chk):
    chk.rule = __doc__
    logging.getLogger("monero_poc.trezor").setLevel(logging.CRITICAL)
    quick = chk.tier == "quick"
    names = [n for n, c in p27.TYPES.items() if has_type(c)]
    items = [("carried", n, False) for n in names] + [("carried", n, True) for n in (names[:6] if quick else names)]
    for k in (0,) if quick else (0, 1):
        spec = specs(False)[k]
        n = len(hostagent.sign(spec)[0].sent)
        items += [("signing", k, None, None, True, False), ("signing", k, None, None, False, False), ("signing", k, None, None, "raise", False)]
        items += [("signing", k, f, at, True, False) for f in FAULTS for at in range(n) if not (f == "stale" and at == 0)]
    items += [("signing", 1, None, None, True, False), ("signing", 1, None, None, False, False), ("signing", 0, None, None, True, True)]
    for n in (1, 3) if quick else (1, 2, 3, 11):
        items += [("sync", n, None, None, a) for a in (True, False, "raise")]
        items += [("sync", n, f, at, True) for f in FAULTS for at in range(2 + (n + 9) // 10) if not (f == "stale" and at == 0)]
    items += [("watch", s, a, f, b) for s in (True, False) for a in (True, False, "raise") for f in [None] + FAULTS if f != "stale" for b in (False, True)]
    items += [("broken", w, ep) for w in ["raises", "none", "failure", "fine", "no device"] + [f for f in FAULTS if f != "stale"] for ep in ("tsx_sign", "key_image_sync", "ping")]
    chk.extra["bounds"] = "%d runs: %d message types with every field menu in both directions over 2 endpoints; %d faults at every message of a signing run and of exports; 3 user answers" % (len(items), len(names), len(FAULTS))
    pmap(chk, one, items, 900)
