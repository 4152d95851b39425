"""P43: a confirmation belongs to the question the user saw.

The request handlers of the prototype device (confirm_transaction, confirm_ki_sync, on_watch_only) and its command line (T, K, W) run as real threads under a
controlled scheduler: every source line of monero_poc/trezor.py and monero_poc/utils/misc.py and every operation on a lock or event is a scheduling point, all
schedules up to a bound of preemptions are enumerated for every combination of requests and user scripts."""
import asyncio
import itertools
import types

from mc import env, ref
from mc.check import pmap
from mc.sched import Sched, Prims, explore

env.install_rng()

import threading as real_threading
from monero_glue.xmr import crypto, monero
from monero_poc import trezor as ptrezor
from monero_poc.utils import misc as pmisc

PT = [ref.enc(ref.mulG(3 + i)) for i in range(4)]
FILES = ("monero_poc/trezor.py", "monero_poc/utils/misc.py")
YES, NO = 0, 1
LOOP = asyncio.new_event_loop()


class Abort(Exception):
    pass


def drive(co):
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("request handler waits on an event loop")


def fake_abort(code, *a, **k):
    raise Abort(code)


def tsx(i):
    o = types.SimpleNamespace(amount=10 ** 12 * (i + 1), addr=types.SimpleNamespace(spend_public_key=PT[i % 3], view_public_key=PT[i % 3 + 1]), is_subaddress=False)
    return types.SimpleNamespace(payment_id=b"", unlock_time=77000 + i, num_inputs=88000 + i, mixin=10, account=66000 + i, fee=(990 + i) * 10 ** 12, outputs=[o], change_dts=None)


MARK = {}
for _i in range(4):
    MARK["tx%d" % _i] = ["%d" % (77000 + _i), "%d" % (88000 + _i), "%d" % (66000 + _i), "%d.0" % (990 + _i)]
    MARK["ki%d" % _i] = ["%d" % (55000 + _i)]


_real_encode = monero.public_addr_encode
_memo = {}


def memo_encode(a, sub=False, nt=None):
    k = (a.spend_public_key, a.view_public_key, sub, nt)
    if k not in _memo:
        _memo[k] = _real_encode(a, sub, nt)
    return _memo[k]


class World:
    def __init__(self, sched, reqs, script):
        self.s = sched
        pr = Prims(sched, real_threading)
        pmisc.threading = ptrezor.threading = pr
        monero.public_addr_encode = memo_encode
        ptrezor.jsonify = lambda x: x
        ptrezor.abort = fake_abort
        t = self.t = object.__new__(ptrezor.TrezorServer)
        ptrezor.cli.BaseCli.__init__ = lambda *a, **k: None
        ptrezor.Flask = lambda *a, **k: None
        asyncio.set_event_loop(LOOP)
        t.poutput = self.poutput
        t.select = self.select
        t.__init__()
        t.creds = types.SimpleNamespace(view_key_private=crypto.sc_init(12345), address=b"A" * 95)
        t.network_type = monero.NetworkTypes.TESTNET
        self.reqs, self.script = reqs, script
        self.results = {}
        self.span = {}
        self.cmds = []
        self.cur = None
        self.ui = None
        self.stuck = False

    def poutput(self, x="", *a, **k):
        if self.cur is not None and self.s.cur is self.ui:
            self.cur["lines"].append(str(x))

    def select(self, *a, **k):
        c = self.cur
        c["asked"] = self.s.steps
        self.s.point()
        c["answered"] = self.s.steps
        return c["ans"]

    def command(self, name, ans):
        c = self.cur = {"name": name, "ans": ans, "lines": [], "asked": None, "answered": None}
        self.cmds.append(c)
        getattr(self.t, "do_" + name)("")
        self.cur = None

    def request(self, name):
        def fn():
            i = int(name[-1])
            self.span[name] = [self.s.steps, None]
            self.s.point()
            if name.startswith("tx"):
                r = drive(self.t.trez_iface.confirm_transaction(tsx(i), None))
            elif name.startswith("ki"):
                r = drive(self.t.trez_iface.confirm_ki_sync(types.SimpleNamespace(num=55000 + i)))
            else:
                try:
                    r = drive(self.t.on_watch_only())
                except Abort:
                    r = None
            self.results[name] = bool(r)
            self.span[name][1] = self.s.steps
        return fn

    def user(self):
        self.ui = self.s.cur
        for name, ans in self.script:
            self.s.point()
            self.command(name, ans)
        rest = lambda: all(t is self.ui or t.done or (t.cond is not None and not t.cond()) for t in self.s.threads)
        for _ in range(len(self.reqs) + 1):
            self.s.quiet = False
            self.s.block(rest)
            if all(t.done for t in self.s.threads if t is not self.ui):
                return
            self.s.quiet = True
            for name in "TKW":
                self.command(name, NO)
            self.s.quiet = False
        self.s.block(rest)
        self.stuck = not all(t.done for t in self.s.threads if t is not self.ui)


def verdict(w, s):
    """list of broken promises in this execution"""
    bad = []
    for t in s.threads:
        if t.exc is not None:
            bad.append(("exception", "%r in %s" % (t.exc, "the command line" if t is w.ui else "a request")))
    if s.overrun:
        bad.append(("overrun", "does not settle"))
    if w.stuck or (s.deadlock and not bad):
        bad.append(("stuck", "question without a possible answer: %s" % [r for r in w.reqs if r not in w.results]))
    seen = {}
    for c in w.cmds:
        if c["name"] not in ("T", "K") or not c["lines"] or c["asked"] is None:
            if c["name"] == "W" and c["answered"] is not None:
                c["target"] = "w"
            continue
        txt = "\n".join(c["lines"])
        owners = {k for k in MARK if any(m in txt for m in MARK[k])}
        if len(owners) != 1 or any(m not in txt for m in MARK[next(iter(owners))]):
            bad.append(("display", "shown at once: %s" % sorted(owners)))
            continue
        c["target"] = next(iter(owners))
        if c["answered"] is not None:
            seen.setdefault(c["target"], []).append(c)
    for r, res in w.results.items():
        if r.startswith("w"):
            continue
        cs = seen.get(r, [])
        if res and not any(c["ans"] == YES for c in cs):
            bad.append(("unseen", "%s confirmed, answers given: %s" % (r, [(c["name"], c.get("target"), c["ans"]) for c in w.cmds])))
        if cs and res != (cs[0]["ans"] == YES):
            bad.append(("lost", "%s shown and answered %s, taken as %s" % (r, cs[0]["ans"] == YES, res)))
    ws = [(r, w.span[r]) for r in w.results if r.startswith("w") and w.results[r]]
    wc = [c for c in w.cmds if c.get("target") == "w" and c["ans"] == YES]
    if len(ws) > len(wc):
        bad.append(("unseen", "%d watch-only exports, %d confirmations" % (len(ws), len(wc))))
    for r, (a, b) in ws:
        if not any(c["asked"] >= a and c["answered"] <= b for c in wc):
            bad.append(("unseen", "%s granted by a confirmation given before it was asked" % r))
    return bad


def make(reqs, script):
    def m():
        s = Sched(FILES)
        w = World(s, reqs, script)
        s.world = w
        return s, [w.request(r) for r in reqs] + [w.user]
    return m


def scenario(sub, arg):
    reqs, script, bound, part, parts = arg
    name = "%s/%s" % ("+".join(reqs), ",".join("%s%s" % (c, "y" if a == YES else "n") for c, a in script))
    outcomes = set()
    seen = set()

    def check(s, prefix):
        w = s.world
        for kind, what in verdict(w, s):
            if kind not in seen:
                seen.add(kind)
                sub.violation("%s:%s" % (kind, name), "%s; schedule %s" % (what, prefix))
        outcomes.add(tuple(sorted(w.results.items())))
    runs, steps, _ = explore(make(reqs, script), check, bound, part, parts)
    sub.add(states=runs, transitions=steps)
    if len(outcomes) > 1:
        sub.case("outcomes-differ")
    sub.case("%d requests" % len(reqs))


def run(chk):
    chk.rule = __doc__
    sets = [("tx0",), ("ki0",), ("w0",), ("tx0", "tx1"), ("ki0", "ki1"), ("w0", "w1"), ("tx0", "ki0"), ("tx0", "w0"), ("ki0", "w0")]
    items = []

    def add(reqs, sc, b, n):
        items.extend((reqs, sc, b, i, n) for i in range(n))

    for reqs in sets:
        letters = sorted({r[0].replace("t", "T").replace("k", "K").replace("w", "W") for r in reqs})
        cmds = [(c, a) for c in letters for a in (YES, NO)]
        scripts = [(c,) for c in cmds] + [p for p in itertools.product(cmds, repeat=2)]
        for sc in scripts:
            if not chk.thorough and len(letters) == 2 and len(sc) == 2 and (sc[0][0] == sc[1][0] or sc[0][1] == sc[1][1]):
                continue
            one = len(reqs) == 1
            if chk.thorough:
                b = (1 if len(sc) == 2 and len(letters) == 2 else 2) if not one else 3 if len(sc) == 1 else 2
            else:
                b = 2 if one and len(sc) == 1 else 1
            add(reqs, sc, b, {1: 1, 2: 4 if one else 24, 3: 24}[b])
    if chk.thorough:
        for reqs in (("tx0", "tx1", "tx2"), ("tx0", "tx1", "ki0"), ("w0", "w1", "w2")):
            c = reqs[0][0].upper()
            for sc in itertools.product([(c, YES), (c, NO)], repeat=2):
                add(reqs, sc, 1, 2)
    pmap(chk, scenario, items, 800)
    chk.extra["bounds"] = "1-3 concurrent requests, user scripts of 1-2 commands, up to %d preemptions at source lines" % (3 if chk.thorough else 2)
