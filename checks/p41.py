"""P41: what is typed is what is requested, what is displayed is exact.

The real command handlers of the interactive host (do_transfer, do_sweep_*) run with the wallet RPC, the signing and the terminal replaced by recorders.
Enumerated: amounts (whole x fraction menus, all strings up to length 4 over a small alphabet), every combination of the optional arguments of each command,
all single-token deletions/duplications/swaps/insertions of well-formed lines against a reference grammar, all answers to the confirmation, everything typed at its prompt up to four lines, and the lines
shown by host and device for a menu of amounts."""
import asyncio
import binascii
import io
import itertools
import re
import contextlib
import threading
import time
from unittest import mock
from fractions import Fraction

from mc import env, ref
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import monero
from monero_poc import agent as pagent
from monero_poc import trezor as ptrezor
from monero_poc.utils import misc as pmisc
from checks.p36 import attempt

PT = [ref.enc(ref.mulG(3 + i)) for i in range(6)]
NT = monero.NetworkTypes.TESTNET


def addr(i, sub=False):
    import types
    return monero.public_addr_encode(types.SimpleNamespace(spend_public_key=PT[i], view_public_key=PT[i + 1]), sub, NT).decode()


A, B, S = addr(0), addr(1), addr(2, True)
PID8, PID32 = "0123456789abcdef", "00112233445566778899aabbccddeeff" * 2
KI = binascii.hexlify(PT[5]).decode()
PRIO = ["default", "unimportant", "normal", "elevated", "priority"]


def drive(co):
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("handler waits on an event loop")


class Host(pagent.HostAgent):
    def __init__(self, answer=None):
        self.calls, self.lines, self.errors, self.signed, self.asked = [], [], [], [], 0
        self.answer = self.PROCEED_YES if answer is None else answer
        self.account_idx = 7
        self.wallet_proxy = self
        self.result = {"amount": 1, "fee": 2, "unsigned_txset": "00ff"}

    def check_rpc(self):
        return True

    def check_address(self):
        pass

    def ask_proceed_quit(self, *a, **k):
        self.asked += 1
        a = self.answer
        return a.pop(0) if isinstance(a, list) else a

    def poutput(self, x="", *a, **k):
        self.lines.append(str(x))

    def perror(self, x="", *a, **k):
        self.errors.append(str(x))

    def wait_coro(self, co):
        return asyncio.run(co)

    async def sign_unsigned(self, data, aux_data=None):
        self.signed.append((bytes(data), aux_data))

    def transfer_split(self, p):
        return self.rpc("transfer_split", p)

    def sweep_all(self, p):
        return self.rpc("sweep_all", p)

    def sweep_single(self, p):
        return self.rpc("sweep_single", p)

    def sweep_dust(self, p):
        return self.rpc("sweep_dust", p)

    def rpc(self, name, p):
        self.calls.append((name, p))
        return {"result": self.result}


def issue(cmd, line, **kw):
    h = Host(**kw)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = attempt(lambda: getattr(h, "do_" + cmd)(line))
    h.out = out.getvalue()
    h.refused = r[0]
    h.exc = r[1] if r[0] else None
    return h


NUM = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$", re.A)
CANON = re.compile(r"^\d+(\.\d{1,12})?$", re.A)


def atomic(s):
    """exact value in atomic units, or None when the text is not a number"""
    if not NUM.match(s):
        return None
    if "e" in s.lower() and abs(int(s.lower().split("e")[1])) > 400:
        return None
    return Fraction(s) * 10 ** 12


def judge_amount(sub, s, via, got):
    """got: None = refused"""
    want = atomic(s)
    if got is not None and (want is None or Fraction(got) != want or not isinstance(got, int) or not 0 <= got < 1 << 64):
        sub.violation("amount:%s:%s" % (via, s), "%r requested as %r atomic units, is %s" % (s, got, want))
    if got is None and CANON.match(s) and 0 < want < 1 << 64:
        sub.violation("amount:%s:%s" % (via, s), "%r refused" % s)


def strings(kind, part, parts):
    if kind == "grid":
        whole = ["", "0", "1", "3", "9", "10", "99", "123", "4503", "9007", "9008", "99999", "1844673", "1844674", "18446743", "18446744", "18446745", "99999999", "-1", "+1", "-0", "00", "007"]
        one = ["%0*d" % (n, v) for n in range(1, 14) for v in sorted({0, 1, 10 ** (n - 1), 10 ** n - 1, (10 ** n) // 3, (10 ** n) * 7 // 10 + 3})]
        fr = [None, ""] + one + ["073709551615", "073709551616", "07370955161", "709551615", "709551616"]
        # every single digit position on its own
        fr += ["0" * i + d + "0" * (11 - i) for i in range(12) for d in "123456789"]
        allv = ["%s" % w if f is None else "%s.%s" % (w, f) for w in whole for f in fr]
    else:
        allv = ["".join(t) for n in range(1, 5 if kind == "short" else 6) for t in itertools.product("019.-+e,xnaif "[:14] if kind == "short" else "05.-e", repeat=n)]
        allv += ["nan", "NaN", "inf", "Infinity", "-inf", "sNaN", "1e12", "1e-12", "1e-13", "1e7", "1e8", "1E+3", "1e999999999", "1e-999999999", "0x10", "1,5", "1 000", "٣", "１", "1.5.5", "--1", "1_000", "1__0", "_1", "1_", "½", "²", "1\u00a0", "\t1", "0e999999999"]
    return [s for i, s in enumerate(dict.fromkeys(allv)) if s and i % parts == part]


def amounts(sub, arg):
    kind, part, parts = arg
    for s in strings(kind, part, parts):
        sub.add(states=1, transitions=2)
        r = attempt(lambda: pmisc.amount_to_uint64(pmisc.parse_amount(s)))
        judge_amount(sub, s, "parse", None if r[0] else r[1])
        if " " in s or s.startswith(("\t", "\u00a0")) or not s.strip():
            continue
        for cmd, line in (("transfer", "%s %s" % (A, s)), ("sweep_below", "%s %s" % (s, A))):
            if kind != "grid" and part and cmd == "sweep_below":
                continue
            h = issue(cmd, line)
            got = None
            if h.calls:
                p = h.calls[0][1]
                got = p.get("below_amount") if cmd == "sweep_below" else p["destinations"][0]["amount"]
                if cmd == "transfer" and (len(p["destinations"]) != 1 or len(h.signed) != 1 or h.signed[0][1].destinations[0][1] != got):
                    sub.violation("amount:dst:%s" % s, "amount checked on signing differs: %r" % (h.signed,))
            elif not h.refused and h.asked:
                sub.violation("amount:lost:%s:%s" % (cmd, s), "confirmed, but nothing requested")
            judge_amount(sub, s, cmd, got)
    sub.case("amounts:%s" % kind)


INDEX = [(None, []), ("index=0", [0]), ("index=3", [3]), ("index=1,2", [1, 2]), ("index=12,0,4294967295", [12, 0, 4294967295])]
PRI = [(None, None)] + [(p, i) for i, p in enumerate(PRIO)]
RING = [(None, None), ("5", 5), ("7", 7), ("11", 11), ("16", 16)]
PIDS = [(None, None), (PID8, PID8), (PID32, PID32)]
DSTS = [[(A, "1.5", 1500000000000)], [(S, "0.000000000001", 1)], [(A, "2", 2000000000000), (B, "0.3", 300000000000)],
        [(A, "1", 10 ** 12), (B, "2", 2 * 10 ** 12), (S, "3", 3 * 10 ** 12), (A, "18446740.1", 18446740100000000000)]]


def expected(cmd, idx, pri, ring, pid, dst=None, ki=None, below=None, to=None):
    e = {"do_not_relay": True}
    if cmd == "transfer":
        e.update(destinations=[{"amount": d[2], "address": d[0]} for d in dst], account_index=7, subaddr_indices=idx, unlock_time=0, get_tx_keys=True, get_tx_hex=False, get_tx_metadata=False)
    else:
        e["address"] = to
        if cmd != "sweep_single":
            e.update(account_index=7, subaddr_indices=idx)
    for k, v in (("priority", pri), ("ring_size", ring), ("payment_id", pid), ("key_image", ki), ("below_amount", below)):
        if v is not None:
            e[k] = v
    return e


RPC = {"transfer": "transfer_split", "sweep_all": "sweep_all", "sweep_below": "sweep_all", "sweep_single": "sweep_single"}
EXTRA = {"get_tx_keys", "get_tx_hex", "get_tx_metadata", "unlock_time", "do_not_relay"}


def same(got, exp):
    """requests agree in everything that decides what is paid; a list argument that is empty may be left out"""
    norm = lambda p: {k: v for k, v in p.items() if not (k == "subaddr_indices" and not v) and not (k == "unlock_time" and not v) and not (k == "payment_id" and not v) and k not in ("get_tx_keys", "get_tx_hex", "get_tx_metadata")}
    return norm(got) == norm(exp)


def check_call(sub, key, cmd, line, exp, answer=None):
    h = issue(cmd, line, answer=list(answer) if answer is not None else None)
    sub.add(states=1, transitions=1)
    if h.refused:
        sub.violation(key, "refused: %r" % (h.exc,))
        return h
    n = len(h.calls)
    if answer is None and (n != 1 or h.calls[0][0] != RPC[cmd] or not same(h.calls[0][1], exp)):
        sub.violation(key, "requested %r, expected %s %r" % (h.calls, RPC[cmd], exp))
    if answer is None and (len(h.signed) != 1 or h.signed[0][0] != b"\x00\xff"):
        sub.violation(key, "signed %r" % (h.signed,))
    if cmd == "transfer" and h.signed:
        d = [(bytes(x[0].addr).decode(), x[1]) for x in h.signed[0][1].destinations]
        if d != [(x["address"], x["amount"]) for x in exp["destinations"]]:
            sub.violation(key, "destinations verified on signing: %r" % d)
    return h


def combos(sub, cmd):
    for (it, iv), (pt, pv), (rt, rv), (dt, dv) in itertools.product(INDEX, PRI, RING, PIDS):
        head = [x for x in ((it if cmd != "sweep_single" else None), pt, rt) if x]
        if cmd == "sweep_single" and it:
            continue
        tail = [dt] if dt else []
        if cmd == "transfer":
            for di, dst in enumerate(DSTS):
                line = head + [y for d in dst for y in d[:2]] + tail
                check_call(sub, "opts:%s:%s" % (cmd, " ".join(x[:8] for x in line)), cmd, " ".join(line), expected(cmd, iv, pv, rv, dv, dst=dst))
        else:
            for to in (A, S):
                pre = ["0.25"] if cmd == "sweep_below" else []
                ki = [KI] if cmd == "sweep_single" else []
                line = pre + head + ki + [to] + tail
                check_call(sub, "opts:%s:%s" % (cmd, " ".join(x[:8] for x in line)), cmd, " ".join(line),
                           expected(cmd, iv, pv, rv, dv, to=to, ki=KI if ki else None, below=250000000000 if pre else None))
    sub.case("options:%s" % cmd)


# reference grammar: list of tokens -> expected request or None (to be refused)
def is_addr(t):
    return t in (A, B, S)


def is_amount(t):
    return CANON.match(t) is not None and 0 < atomic(t) < 1 << 64


def is_pid(t):
    return len(t) in (16, 64) and re.match("^[0-9a-f]+$", t) is not None


def grammar(cmd, tok):
    t = list(tok)
    below = ki = None
    if cmd == "sweep_below":
        if not t or not is_amount(t[0]):
            return None
        below = int(atomic(t.pop(0)))
    idx, pri, ring = [], None, None
    if cmd != "sweep_single" and t and re.match(r"^index=\d+(,\d+)*$", t[0]):
        idx = [int(x) for x in t.pop(0)[6:].split(",")]
    if t and t[0] in PRIO:
        pri = PRIO.index(t.pop(0))
    if t and re.match(r"^\d+$", t[0]):
        ring = int(t.pop(0))
    if cmd == "sweep_single":
        if not t or len(t[0]) != 64 or not is_pid(t[0]):
            return None
        ki = t.pop(0)
    dst, to = [], None
    if cmd == "transfer":
        while len(t) > 1 and is_addr(t[0]) and is_amount(t[1]):
            dst.append((t[0], t[1], int(atomic(t[1]))))
            t = t[2:]
        if not dst:
            return None
    else:
        if not t or not is_addr(t[0]):
            return None
        to = t.pop(0)
    pid = t.pop(0) if t and is_pid(t[0]) else None
    return None if t else expected(cmd, idx, pri, ring, pid, dst=dst, ki=ki, below=below, to=to)


def mutations(sub, arg):
    cmd, base = arg
    toks = [A, S, "1.5", "2", PID8, PID32, PID8[:-1], "index=1", "index=", "normal", "11", "zz" * 8, A[:-1], "x"]
    seen = set()

    def variants():
        yield list(base)
        for i in range(len(base)):
            yield base[:i] + base[i + 1:]
            yield base[:i] + [base[i]] * 2 + base[i + 1:]
            for k in range(i + 1, len(base)):
                b = list(base)
                b[i], b[k] = b[k], b[i]
                yield b
            for t in toks:
                yield base[:i] + [t] + base[i + 1:]
        for i in range(len(base) + 1):
            for t in toks:
                yield base[:i] + [t] + base[i:]
                for j in range(i, len(base) + 1):
                    for u in ("x", "1", PID8, A):
                        yield base[:i] + [t] + base[i:j] + [u] + base[j:]
    for v in variants():
        if tuple(v) in seen or not v:
            continue
        seen.add(tuple(v))
        exp = grammar(cmd, v)
        sub.add(states=1, transitions=1)
        h = issue(cmd, " ".join(v))
        key = "line:%s:%s" % (cmd, " ".join(x[:6] if len(x) < 90 else x[:3] + ".." for x in v))
        if exp is None:
            # addresses and payment ids of sweeps are judged by the wallet, which gets them verbatim
            if h.calls and not (cmd != "transfer" and verbatim(cmd, v, h.calls)):
                sub.violation(key, "malformed line %r requested %r" % (v, h.calls))
        elif not h.calls or not same(h.calls[0][1], exp):
            sub.violation(key, "requested %r, expected %r (%s)" % (h.calls, exp, h.exc))
    sub.case("mutations:%s" % cmd)


def verbatim(cmd, v, calls):
    """every token of the line reappears in the request, in its role"""
    p = calls[0][1]
    t = list(v)
    if p.get("payment_id") is not None:
        if t[-1] != p["payment_id"] or len(t[-1]) not in (16, 64):
            return False
        t.pop()
    if t[-1] != p["address"]:
        return False
    t.pop()
    e = grammar(cmd, t + [A])
    return e is not None and same(dict(p, address=A, payment_id=None), e)


def answers(sub, _):
    """no request before the question was answered with yes, no signature before the second"""
    line = {"transfer": "%s 1.5" % A, "sweep_all": A, "sweep_below": "1 %s" % A, "sweep_single": "%s %s" % (KI, A)}
    Y = Host.PROCEED_YES
    vals = [Y, Host.PROCEED_NO, Host.PROCEED_QUIT]
    for cmd in line:
        n = 2 if cmd == "transfer" else 1
        for ans in itertools.product(vals, repeat=n):
            h = issue(cmd, line[cmd], answer=list(ans))
            sub.add(states=1, transitions=n)
            want_calls = 1 if cmd != "transfer" or ans[0] == Y else 0
            want_sign = 1 if all(a == Y for a in ans) else 0
            if h.refused or len(h.calls) != want_calls or len(h.signed) != want_sign:
                sub.violation("answers:%s:%s" % (cmd, ans), "%d requests, %d signatures, %r" % (len(h.calls), len(h.signed), h.exc))
            if any(not c[1].get("do_not_relay") for c in h.calls):
                sub.violation("answers:relay:%s" % cmd, "wallet asked to relay")
    for pid, ok in ((PID8, True), (PID8[:-2], False), (PID32[:-2], False), ("zz" * 8, False), ("zz" * 32, False), (PID32.upper(), True)):
        h = issue("transfer", "%s 1.5 %s" % (A, pid))
        sub.add(states=1, transitions=1)
        if bool(h.calls) != ok or ok and h.calls[0][1].get("payment_id", "").lower() != pid.lower():
            sub.violation("pid:%s" % pid[:9], "requested %r" % (h.calls,))
    sub.case("answers")


class Prompted(Host):
    """the real question at the terminal"""
    ask_proceed_quit = pagent.HostAgent.ask_proceed_quit
    noninteractive = False


def prompts(sub, cmd):
    """what is typed at the question: only y (any case, with blanks) is a yes, anything unknown is asked again, the end of the input is no approval"""
    line = {"transfer": "%s 1.5" % A, "sweep_all": A, "sweep_below": "1 %s" % A, "sweep_single": "%s %s" % (KI, A)}[cmd]
    need = 2 if cmd == "transfer" else 1
    menu = ["y", "Y", " y\t", "n", "N ", "q", "", "yes", "ye", "1", "ny", "yy", "true", EOFError, KeyboardInterrupt]
    small = ["y", "n", "q", "", "yes", EOFError]
    for n in (1, 2, 3, 4):
        for typed in itertools.product(menu if n <= 2 else small, repeat=n):
            left, ok, asked = list(typed), 0, 0
            while ok < need:
                t = left.pop(0) if left else EOFError
                asked += 1
                k = None if isinstance(t, type) else t.strip().lower()
                if k == "y":
                    ok += 1
                elif k in ("n", "q") or k is None:
                    break
            stopped = k is None and ok < need
            script = list(typed)

            def read(*a):
                t = script.pop(0) if script else EOFError
                if isinstance(t, type):
                    raise t()
                return t
            h = Prompted()
            exc = None
            with mock.patch("builtins.input", read), contextlib.redirect_stdout(io.StringIO()):
                try:
                    getattr(h, "do_" + cmd)(line)
                except BaseException as e:
                    exc = e
            sub.add(states=1, transitions=asked)
            want = (1 if cmd != "transfer" or ok >= 1 else 0, 1 if ok == need else 0)
            lab = "/".join(t if isinstance(t, str) else t.__name__ for t in typed)
            if (len(h.calls), len(h.signed)) != want or (exc is not None) != stopped or (len(left) != len(script)):
                sub.violation("typed:%s" % cmd, "%s: typed %r: %d requests, %d signatures, expected %r; %r" % (cmd, lab, len(h.calls), len(h.signed), want, exc), case="%s:%s" % (cmd, lab))
            sub.case("typed:%s:%s" % (cmd, lab))
    if cmd != "transfer":
        return
    pws = ["a", "b", "", "a ", "A"]
    for n in (2, 4, 6):
        for typed in itertools.product(pws if n < 6 else pws[:3], repeat=n):
            for double in (True, False):
                script = list(typed)
                with mock.patch("getpass.getpass", lambda *a, **k: script.pop(0)), contextlib.redirect_stdout(io.StringIO()):
                    try:
                        got = pagent.HostAgent.ask_password(Prompted(), "q", double)
                    except IndexError:
                        got = None
                want = typed[0] if not double else next((typed[i] for i in range(0, n, 2) if typed[i] == typed[i + 1]), None)
                sub.add(states=1, transitions=n)
                if got != want:
                    sub.violation("password:%s" % double, "typed %r: %r taken, expected %r" % (typed, got, want), case=str(typed))


DISP = sorted({0, 1, 9, 10, 999, 10 ** 12 - 1, 10 ** 12, 10 ** 12 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 9007199254740993, 123456789012345678, 12345678901234567890}
              | {10 ** k for k in range(20)} | {10 ** k + 1 for k in range(20)} | {7 * 10 ** k - 1 for k in range(19)} | {3 << k for k in range(0, 62)})
DEC = re.compile(r"(?<![\w.])-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?(?![\w.])")


def decimals(s):
    return [Fraction(x) * 10 ** 12 for x in DEC.findall(s)]


def display(sub, _):
    for a in DISP:
        b = (a * 7 + 13) % (1 << 64)
        for cmd, line in (("transfer", "%s 1.5" % A), ("sweep_all", A), ("sweep_below", "1 %s" % A), ("sweep_single", "%s %s" % (KI, A))):
            for res in ({"amount": a, "fee": b}, {"amount_list": [a, b], "fee_list": [b, a]}, {"amount_list": [a, b, a], "fee_list": [b, a, b]}):
                h = Host()
                h.result = dict(res, unsigned_txset="00")
                with contextlib.redirect_stdout(io.StringIO()):
                    r = attempt(lambda: getattr(h, "do_" + cmd)(line))
                sub.add(states=1, transitions=1)
                want = [(a, b)] if "amount" in res else list(zip(res["amount_list"], res["fee_list"]))
                got = [tuple(decimals(x)) for x in h.lines if "mount" in x]
                if r[0] or got != [tuple(map(Fraction, w)) for w in want]:
                    sub.violation("display:%s:%d" % (cmd, a), "shown %r for %r" % (h.lines, want))
        # typed amount is repeated in the question
        if 0 < a:
            txt = "%d.%012d" % divmod(a, 10 ** 12)
            h = issue("transfer", "%s %s" % (A, txt))
            shown = [x for x in h.out.splitlines() if x.startswith("Sending")]
            sub.add(states=1, transitions=1)
            if len(shown) != 1 or decimals(shown[0].replace(A, "")) != [Fraction(a)] or A not in shown[0]:
                sub.violation("display:question:%d" % a, "shown %r" % (shown,))
    sub.case("display-host")


LOCKS = [0, 1, 10, 255, 256, 499999999, 500000000, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 7, 1 << 63, (1 << 64) - 1]
SHOWN_PIDS = [b"", b"\x01" * 8, bytes(8), bytes(7) + b"\x01", b"\x01" + bytes(7), b"", bytes(range(1, 33)), bytes(32), bytes(24) + b"\xff" * 8, b"\xff" * 8 + bytes(24), b"\xab" * 8]


def synced(sub, part):
    """the key image question shows how many outputs are asked for"""
    import types
    for num, ans in itertools.product([0, 1, 2, 9, 10, 16, 255, 256, 257, 1000, 65535, 65536, 65537, 100000, 1 << 20, (1 << 32) - 1], (0, 1)):
        t = object.__new__(ptrezor.TrezorServer)
        lines, conf, asked = [], [], []
        t.poutput = lambda x="", *r, **k: lines.append(str(x))
        t.update_prompt = lambda *r, **k: None
        t.on_confirm_ki_sync = lambda *r, **k: None
        t.trez_iface = ptrezor.TokenInterface(t)

        def select(*r, **k):
            asked.append(len(lines))
            return ans
        t.select = select
        th = threading.Thread(target=lambda: conf.append(attempt(lambda: drive(t.trez_iface.confirm_ki_sync(types.SimpleNamespace(num=num), None)))), daemon=True)
        th.start()
        for _ in range(20000):
            if t.trez_iface.ki_sync_waiter.question is not None:
                break
            time.sleep(0.0005)
        r = attempt(lambda: t.do_K(""))
        th.join(20)
        sub.add(states=1, transitions=1)
        key = "sync:%d:%d" % (num, ans)
        if r[0]:
            sub.violation(key, "raised %r" % (r[1],))
            continue
        if len(conf) != 1 or conf[0][0] or bool(conf[0][1]) != (ans == 0):
            sub.violation(key, "answer %d reported as %r" % (ans, conf))
        del lines[asked[0] if asked else 0:]
        got = [int(y) for x in lines for y in re.findall(r"\d+", x)]
        if len(asked) != 1 or got != [num]:
            sub.violation(key, "asked %d times, shown %r" % (len(asked), lines))
    sub.case("display-sync")


def device(sub, part):
    import types

    def dst(i, amount, s):
        return types.SimpleNamespace(amount=amount, addr=types.SimpleNamespace(spend_public_key=PT[i], view_public_key=PT[i + 1]), is_subaddress=s)
    adr = lambda d: monero.public_addr_encode(d.addr, d.is_subaddress, NT).decode()
    vals = DISP[part::4] + [0]
    n_case = part
    for i, a in enumerate(vals):
        b, c, f = vals[(i * 5 + 1) % len(vals)], vals[(i * 3 + 2) % len(vals)], vals[(i * 7 + 3) % len(vals)]
        for chg_pos, nout, ans in itertools.product((None, 0, 1, 2), (1, 2, 3), (0, 1)):
            if chg_pos is not None and chg_pos >= nout:
                continue
            outs = [dst(k, (a, b, c)[k], k == 1) for k in range(nout)]
            n_case += 1
            shown_too = {"nlock": LOCKS[n_case % len(LOCKS)], "UTXO": (1, 3, 16, 256)[n_case % 4], "ixin": (0, 10, 255)[n_case % 3], "ccount": (0, 5, 1 << 31)[n_case // 2 % 3]}
            pid = SHOWN_PIDS[n_case % len(SHOWN_PIDS)]
            data = types.SimpleNamespace(payment_id=pid, unlock_time=shown_too["nlock"], num_inputs=shown_too["UTXO"], mixin=shown_too["ixin"], account=shown_too["ccount"], fee=f, outputs=outs,
                                         change_dts=None if chg_pos is None else outs[chg_pos])
            t = object.__new__(ptrezor.TrezorServer)
            t.network_type = NT
            lines, conf, asked = [], [], []
            t.poutput = lambda x="", *r, **k: lines.append(str(x))
            t.update_prompt = lambda *r, **k: None
            t.on_confirm_start = lambda *r, **k: None
            t.trez_iface = ptrezor.TokenInterface(t)

            def select(*r, **k):
                asked.append(len(lines))
                return ans
            t.select = select
            th = threading.Thread(target=lambda: conf.append(attempt(lambda: drive(t.trez_iface.confirm_transaction(data, None)))), daemon=True)
            th.start()
            for _ in range(20000):
                if t.trez_iface.in_confirmation:
                    break
                time.sleep(0.0005)
            time.sleep(0)
            r = attempt(lambda: t.do_T(""))
            th.join(20)
            sub.add(states=1, transitions=1)
            key = "device:%d:%s:%d:%d" % (a, chg_pos, nout, ans)
            if r[0]:
                sub.violation(key, "raised %r" % (r[1],))
                continue
            if [bool(x[1]) for x in conf] != [ans == 0] or conf[0][0]:
                sub.violation(key, "answer %d reported as %r" % (ans, conf))
            if len(asked) != 1:
                sub.violation(key, "asked %d times" % len(asked))
            del lines[asked[0]:]
            shown = []
            for x in lines:
                for o in outs:
                    if adr(o) in x:
                        body = x.replace(adr(o), "")
                        shown.append((adr(o), decimals(body.split(":", 1)[1]), "hange" in x))
            want = [(adr(o), [Fraction(o.amount)], chg_pos == k) for k, o in enumerate(outs)]
            if shown != want:
                sub.violation(key, "shown %r for %r" % (shown, want))
            fee = [x for x in lines if "Fee" in x]
            if len(fee) != 1 or decimals(fee[0]) != [Fraction(f)]:
                sub.violation(key, "fee shown %r for %d" % (fee, f))
            for name, v in shown_too.items():
                line = [x for x in lines if name in x and not any(adr(o) in x for o in outs)]
                if len(line) != 1 or line[0].split(":", 1)[1].strip() != str(v):
                    sub.violation("%s:%s" % (key, name), "shown %r for %d" % (line, v))
            line = [x for x in lines if "ayment" in x]
            if bool(line) != bool(pid) or pid and (len(line) != 1 or line[0].split(":", 1)[1].strip().lower() != pid.hex()):
                sub.violation(key, "payment id shown %r for %s" % (line, pid.hex()))
    sub.case("display-device")


BASES = {
    "transfer": [["index=1,2", "normal", "11", A, "1.5", B, "2", PID8], [A, "1"]],
    "sweep_all": [["index=1,2", "normal", "11", A, PID8], [A]],
    "sweep_below": [["0.5", "index=1,2", "normal", "11", A, PID8], ["1", A]],
    "sweep_single": [["normal", "11", KI, A, PID8], [KI, A]],
}


def worker(sub, it):
    {"amounts": amounts, "combos": combos, "mutations": mutations, "answers": answers, "prompts": prompts, "display": display, "device": device, "synced": synced}[it[0]](sub, it[1])


def run(chk):
    chk.rule = __doc__
    items = [("amounts", ("grid", i, 4)) for i in range(4)] + [("combos", c) for c in RPC] + [("mutations", (c, b)) for c in BASES for b in BASES[c]]
    items += [("prompts", c) for c in BASES]
    items += [("answers", None), ("display", None), ("synced", None)] + [("device", i) for i in range(4)]
    items += [("amounts", ("short", i, 24)) for i in (range(24) if chk.thorough else range(0, 24, 6))]
    items += [("amounts", ("dense", i, 4)) for i in range(4)]
    pmap(chk, worker, items, 300)
