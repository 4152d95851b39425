"""P45: restore heights are safe for every date.

The real height search (Wallet.get_blockchain_height_by_date over the real daemon RPC client, block parsing included) runs against a synthetic daemon for a menu of chains
(lengths, block times, gaps, plateaus, jittered timestamps) and every date from before the genesis to past the tip at which the result can change. The restore dialogue runs on all
input sequences up to a depth."""
import asyncio
import contextlib
import datetime
import io
import itertools
import re

from mc import env, ref
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import daemon_rpc, wallet
from monero_poc import agent as pagent
from monero_poc.utils import misc as pmisc
from monero_serialize import xmrrpc, xmrserialize, xmrtypes
from checks.p36 import attempt

DAY = 86400
GENESIS = int(datetime.datetime(2014, 4, 18, 10, 49, 53, tzinfo=datetime.timezone.utc).timestamp())
MIDNIGHT = GENESIS // DAY * DAY + DAY
SPAN = 1440          # the search may stop that many blocks early


def run_(co):
    loop = asyncio.new_event_loop()
    try:
        return loop.run_until_complete(co)
    finally:
        loop.close()


class Chain:
    """timestamps as a function of the height"""

    def __init__(self, name, n, f, jitter=0):
        self.name, self.n, self.f, self.jitter = name, n, f, jitter

    def ts(self, h):
        t = self.f(h)
        if self.jitter:
            t += int.from_bytes(ref.keccak(b"j%d" % h)[:4], "little") % (2 * self.jitter + 1) - self.jitter
        return max(0, t)


def chains(thorough):
    r = []
    for n in (1, 2, 3, 5, 1440, 1441, 1442, 2880, 2881, 2883, 5000, 40000, 300000, 2500000):
        r.append(Chain("steady", n, lambda h: GENESIS + 120 * h))
    for n in (3000, 10000, 60000):
        r.append(Chain("fast", n, lambda h: GENESIS + h))
        r.append(Chain("slow", n, lambda h: GENESIS + 3600 * h))
        r.append(Chain("daily", n, lambda h: GENESIS + DAY * h // 4))
        r.append(Chain("gap", n, lambda h, n=n: GENESIS + 120 * h + (400 * DAY if h > n // 2 else 0)))
        r.append(Chain("gap-early", n, lambda h: GENESIS + 120 * h + (400 * DAY if h > 0 else 0)))
        r.append(Chain("gap-late", n, lambda h, n=n: GENESIS + 120 * h + (400 * DAY if h >= n - 1 else 0)))
        r.append(Chain("plateau", n, lambda h: GENESIS + (h // 1000) * 10 * DAY))
        r.append(Chain("halving", n, lambda h, n=n: GENESIS + (60 * h if h < n // 3 else 60 * (n // 3) + 120 * (h - n // 3))))
        r.append(Chain("jitter", n, lambda h: GENESIS + 120 * h, 3600))
        r.append(Chain("epoch", n, lambda h: 120 * h))
        for w in (1000, 1441, 5000, n // 3, n):      # long runs of blocks which carry exactly the midnight of a date
            r.append(Chain("midnight-%d" % w, n, lambda h, w=w: MIDNIGHT + (h // w) * 10 * DAY))
            r.append(Chain("midnight-late-%d" % w, n, lambda h, w=w, n=n: MIDNIGHT + 40 * DAY - (n // 4 - h) * 120 if h < n // 4 else (MIDNIGHT + 40 * DAY if h < n // 4 + w else MIDNIGHT + 40 * DAY + (h - n // 4 - w) * 120)))
        r.append(Chain("zero-genesis", n, lambda h: 0 if h == 0 else GENESIS + 120 * h))
    if thorough:
        for n in range(2, 6200, 37):
            r.append(Chain("sizes", n, lambda h: GENESIS + 120 * h))
            r.append(Chain("sizes-slow", n, lambda h: GENESIS + 2400 * h))
    return r


class Daemon(daemon_rpc.DaemonRpc):
    def __init__(self, chain):
        super().__init__()
        self.chain = chain
        self.calls = 0
        self.out_of_range = []

    def request(self, method, params=None):
        self.calls += 1
        if method == "get_info":
            return {"id": "0", "jsonrpc": "2.0", "result": {"height": self.chain.n}}
        raise ValueError(method)

    def request_bin(self, method, data=None):
        self.calls += 1
        if self.calls > 400:
            raise RuntimeError("search does not terminate")
        if method != "getblocks_by_height.bin":
            raise ValueError(method)
        hs = ask(bytes(data))
        for h in hs:
            if not 0 <= h < self.chain.n:
                self.out_of_range.append(h)
        return answer([block(self.chain.ts(h)) for h in hs])


_ask = {}


def ask(data):
    async def f():
        ar = xmrrpc.Archive(xmrserialize.MemoryReaderWriter(bytearray(data)), False)
        m = {}
        await ar.root()
        await ar.section(m)
        return m
    m = run_sync(f())
    hs = m["heights"]
    hs = getattr(hs, "val", hs)
    return [int(getattr(h, "val", h)) for h in hs]


def run_sync(co):
    """coroutine that never really waits"""
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("waits")


_blocks = {}


def block(ts):
    if ts not in _blocks:
        async def f():
            w = xmrserialize.MemoryReaderWriter()
            ar = xmrserialize.Archive(w, True)
            b = xmrtypes.Block(major_version=1, minor_version=0, timestamp=ts, prev_id=bytes(32), nonce=7,
                               miner_tx=xmrtypes.Transaction(version=1, unlock_time=60, vin=[xmrtypes.TxinGen(height=5)], vout=[xmrtypes.TxOut(amount=9, target=xmrtypes.TxoutToKey(key=b"k" * 32))], extra=[1, 2, 3], signatures=[]), tx_hashes=[])
            await ar.message(b)
            return bytes(w.get_buffer())
        _blocks[ts] = run_sync(f())
    return _blocks[ts]


def answer(bl):
    async def f():
        w = xmrserialize.MemoryReaderWriter()
        ar = xmrrpc.Archive(w, True)
        await ar.root()
        await ar.section({"blocks": [{"block": b} for b in bl], "status": b"OK"})
        return bytes(w.get_buffer())
    return run_sync(f())


def first_at(chain, t):
    """lowest height with a (nominal) timestamp >= t, None when there is none"""
    lo, hi = 0, chain.n
    while lo < hi:
        m = (lo + hi) // 2
        if chain.f(m) >= t:
            hi = m
        else:
            lo = m + 1
    return lo if lo < chain.n else None


def dates(chain):
    """days around everything where the answer may change"""
    t0, t1 = chain.f(0), chain.f(chain.n - 1)
    pts = {t0, t1}
    lo, hi = 0, chain.n - 1
    for k in range(0, 65):
        pts.add(chain.f(min(chain.n - 1, chain.n * k // 64)))
    for h in (1, 2, 1439, 1440, 1441, 2880, 2881, chain.n // 2, chain.n // 2 + 1, chain.n // 3, chain.n // 1024):
        if h < chain.n:
            pts.add(chain.f(h))
    days = set()
    for p in pts:
        for d in range(-4, 5):
            days.add(p // DAY + d)
    lim = (datetime.date(9990, 1, 1) - datetime.date(1970, 1, 1)).days
    return sorted(d for d in days if 0 <= d < lim)


def search(sub, arg):
    i, thorough = arg
    chain = chains(thorough)[i]
    key = "%s:%d" % (chain.name, chain.n)
    prev = None
    kinds = set()
    for d in dates(chain):
        date = datetime.date(1970, 1, 1) + datetime.timedelta(days=d)
        t = d * DAY
        daemon = Daemon(chain)
        w = wallet.Wallet(daemon)
        r = attempt(lambda: run_(w.get_blockchain_height_by_date(date.year, date.month, date.day)))
        sub.add(states=1, transitions=daemon.calls)
        k = "%s:%s" % (key, date)
        if daemon.out_of_range:
            sub.violation("range:" + k, "asked for heights %s of a chain of %d blocks" % (daemon.out_of_range, chain.n))
        tip = max(chain.ts(chain.n - 1), 0)
        if r[0]:
            kinds.add("future")
            if t <= tip - 2 * chain.jitter and not isinstance(r[1], ValueError) or t <= tip - 2 * chain.jitter:
                sub.violation("unavailable:" + k, "%r" % (r[1],))
            continue
        h = r[1]
        if not isinstance(h, int) or not 0 <= h < chain.n:
            sub.violation("invalid:" + k, "height %r" % (h,))
            continue
        if t > tip + 2 * chain.jitter:
            sub.violation("future:" + k, "date after the tip answered with %d" % h)
            continue
        want = first_at(chain, t + 2 * chain.jitter)
        if want is not None and h > want:
            sub.violation("late:" + k, "height %d, but block %d is from that day already" % (h, want))
        # not uselessly early: within the search window in blocks or two days in time
        first = first_at(chain, t - 2 * chain.jitter)
        if first is not None and not chain.jitter and first - h > 2 * SPAN and t - chain.f(h) > 2 * DAY:
            sub.violation("early:" + k, "height %d, first block of the day %d" % (h, first))
        if prev is not None and h < prev[1] and not chain.jitter:
            sub.violation("monotone:" + k, "height %d, for the earlier %s it was %d" % (h, prev[0], prev[1]))
        prev = (date, h)
        kinds.add("zero" if h == 0 else "inner")
    for x in kinds:
        sub.case(x)


# -- the dialogue
INPUTS = ["-", "", "0", "5000", " 77 ", "-3", "abc", "2014-05-01", "2014-13-01", "2031-01-01", "2014-5-9", "1e3"]


class Bad(Exception):
    pass


def dialogue(sub, part):
    chain = Chain("d", 20000, lambda h: GENESIS + 120 * h)
    day = lambda s: run_(wallet.Wallet(Daemon(chain)).get_blockchain_height_by_date(*map(int, s.split("-"))))
    dated = {s: attempt(lambda: day(s)) for s in INPUTS if re.match(r"^\d{4}-", s)}
    h = object.__new__(pagent.HostAgent)
    Y, N = h.PROCEED_YES, h.PROCEED_NO

    def meaning(s):
        s = s.strip()
        if s == "-":
            return chain.n
        if s == "":
            return 0
        if s in dated:
            return None if dated[s][0] else dated[s][1]
        if re.match(r"^\d+$", s, re.A):
            return int(s)
        return None
    for n in (1, 2, 3):
        for k, seq in enumerate(itertools.product(INPUTS, repeat=n)):
            if k % 8 != part:
                continue
            for ans in itertools.product((Y, N), repeat=n):
                h = object.__new__(pagent.HostAgent)
                h.wallet_obj = wallet.Wallet(Daemon(chain))
                h.trace_logger = type("L", (), {"log": lambda *a: None})()
                h.poutput = lambda *a, **k: None
                ins, an, shown = list(seq), list(ans), []

                def ask_(q="", *a, **k):
                    shown.append(q)
                    if not an:
                        raise Bad()
                    return an.pop(0)
                h.ask_proceed_quit = ask_

                def raw(q=None):
                    if not ins:
                        raise Bad()
                    shown.append(("in", ins[0]))
                    return ins.pop(0)
                save = pmisc.py_raw_input
                pmisc.py_raw_input = raw
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = attempt(lambda: run_(h.wallet_restore_param()))
                finally:
                    pmisc.py_raw_input = save
                sub.add(states=1, transitions=len(shown))
                key = "dialogue:%s:%s" % (",".join(seq), "".join("y" if a == Y else "n" for a in ans))
                if r[0]:
                    if not isinstance(r[1], Bad):
                        sub.violation(key, "%r" % (r[1],))
                    continue
                last = [x for x in shown if isinstance(x, tuple)][-1][1]
                m = meaning(last)
                got = r[1]
                if not isinstance(got, int) or isinstance(got, bool) or got < 0:
                    sub.violation(key, "restore height %r" % (got,))
                elif m is None:
                    # an unusable date and no further attempt: from the start
                    if got != 0:
                        sub.violation(key, "restore height %r from %r" % (got, last))
                else:
                    q = shown[-1]
                    if got != m or not isinstance(q, str) or str(m) not in q:
                        sub.violation(key, "restore height %r, entered %r (%r), question %r" % (got, last, m, q))
                    elif ans[len(ans) - len(an) - 1] != Y:
                        sub.violation(key, "restore height %r, which the user did not confirm" % (got,))
    sub.case("dialogue")


def worker(sub, it):
    (search if it[0] == "search" else dialogue)(sub, it[1])


def run(chk):
    chk.rule = __doc__
    n = len(chains(chk.thorough))
    pmap(chk, worker, [("dialogue", p) for p in range(8)] + [("search", (i, chk.thorough)) for i in range(n)], 600)
    chk.extra["bounds"] = "%d chains of 1 to 2.5 million blocks, up to ~600 dates each; dialogues of up to 3 entries over %d inputs with every answer" % (n, len(INPUTS))
