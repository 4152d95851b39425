"""P54: what is submitted is what the device signed, after a yes, and success is reported only when the wallet accepted it.

The real commands (transfer, the sweeps, sweep_dust, sign) of the host run for every combination of the wallet's reply to the request (one or several transactions, refusals, errors,
replies with fields missing or damaged), every answer to each question, every outcome of the signing (a signed set, a failure of the device, a device which does not run, other errors, no view key)
and every reply to the submission. The steps done - request, questions, what is given to the device, what is submitted - are compared with the sequence the replies and answers
call for: a step happens only if every one before it succeeded and the user said yes, with exactly the data of the step before; amounts and fees are shown for every transaction before the question."""
import asyncio
import contextlib
import io
import itertools
import os
import re
import shutil
import tempfile
import types
from fractions import Fraction

from mc import env, ref
from mc.check import pmap

env.install_rng()

from monero_glue.agent import agent_misc
from monero_glue.messages import Failure
from monero_poc import agent as pagent
from checks.p36 import attempt
from checks.p41 import A, DEC, KI

Y, N, Q = pagent.HostAgent.PROCEED_YES, pagent.HostAgent.PROCEED_NO, pagent.HostAgent.PROCEED_QUIT
COMMANDS = {"transfer": "%s 1.5" % A, "sweep_all": A, "sweep_below": "1 %s" % A, "sweep_single": "%s %s" % (KI, A), "sweep_dust": ""}
QUESTIONS = {"transfer": 2, "sweep_all": 1, "sweep_below": 1, "sweep_single": 1, "sweep_dust": 0}
SET = bytes(range(256)) * 2
SIGNED = b"Monero signed tx set" + bytes(range(255, -1, -1))
XMR = 10 ** 12

# replies to the request: (reply, transactions shown [(amount, fee)], set of unsigned transactions or None)
REPLIES = {
    "one": ({"result": {"amount": 3 * XMR + 7, "fee": 12345, "unsigned_txset": SET.hex()}}, [(3 * XMR + 7, 12345)], SET),
    "list": ({"result": {"amount_list": [1], "fee_list": [2], "unsigned_txset": "00"}}, [(1, 2)], b"\0"),
    "several": ({"result": {"amount_list": [5 * XMR, (1 << 64) - 1, 1], "fee_list": [7, 1 << 53, (1 << 53) + 1], "unsigned_txset": SET.hex().upper()}}, [(5 * XMR, 7), ((1 << 64) - 1, 1 << 53), (1, (1 << 53) + 1)], SET),
    "many": ({"result": {"amount_list": [XMR + i for i in range(17)], "fee_list": [100 + i for i in range(17)], "unsigned_txset": SET[::-1].hex()}}, [(XMR + i, 100 + i) for i in range(17)], SET[::-1]),
    "error": ({"error": {"code": -4, "message": "not enough money"}}, None, None),
    "error and id": ({"id": 0, "jsonrpc": "2.0", "error": {"code": -13, "message": "No wallet file"}}, None, None),
    "empty": ({}, None, None),
    "no set": ({"result": {"amount": 1, "fee": 2}}, None, None),
    "odd hex": ({"result": {"amount": 1, "fee": 2, "unsigned_txset": "123"}}, None, None),
    "not hex": ({"result": {"amount": 1, "fee": 2, "unsigned_txset": "zz"}}, None, None),
    "null": ({"result": None}, None, None),
}
SIGNS = ["signed", "refused", "away", "raises", "no key", "empty"]
SUBMITS = {
    "accepted": ({"result": {"tx_hash_list": ["ab" * 32]}}, True),
    "accepted two": ({"result": {"tx_hash_list": ["ab" * 32, "cd" * 32]}}, True),
    "none": ({"result": {"tx_hash_list": []}}, False),
    "error": ({"error": {"code": -35, "message": "double spend"}}, False),
    "null": ({"result": None}, False),
    "nothing": (None, False),
    "no list": ({"result": {}}, False),
    "null list": ({"result": {"tx_hash_list": None}}, False),
    "raises": (IOError("away"), False),
}


class Host(pagent.HostAgent):
    def __init__(self, answers, reply, sign, submit, log):
        self.log, self.answers = log, list(answers)
        self.account_idx = 2
        self.priv_view = None if sign == "no key" else b"\1" * 32
        self.trace_logger = types.SimpleNamespace(log=lambda *a: None)
        self.how = sign
        host = self

        class Wallet:
            def __getattr__(self, name):
                def call(params=None):
                    log.append(("submit" if name == "submit_transfer" else "request", name, params))
                    r = submit if name == "submit_transfer" else reply
                    if isinstance(r, Exception):
                        raise r
                    return r
                return call
        self.wallet_proxy = Wallet()

    def check_rpc(self):
        return True

    def check_address(self):
        pass

    def ask_proceed_quit(self, *a, **k):
        self.log.append(("ask", len(self.log)))
        return self.answers.pop(0)

    def poutput(self, x="", *a, **k):
        self.log.append(("shown", str(x)))

    def perror(self, x="", *a, **k):
        self.log.append(("shown", str(x)))

    def wait_coro(self, co):
        return asyncio.run(co)

    async def sign(self, file=None, fdata=None, aux_data=None):
        self.log.append(("sign", file, None if fdata is None else bytes(fdata), aux_data))
        if self.how == "refused":
            raise agent_misc.TrezorReturnedError(Failure(code=4, message="cancelled"))
        if self.how == "away":
            raise agent_misc.TrezorNotRunning(IOError("no"))
        if self.how == "raises":
            raise ValueError("bad")
        return b"" if self.how == "empty" else SIGNED


def flow(sub, cmd, rname, answers, sign, sname):
    reply, txs, data = REPLIES[rname]
    submit, accepted = SUBMITS[sname]
    log = []
    h = Host(answers, reply, sign, submit, log)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = attempt(lambda: getattr(h, "do_" + cmd)(COMMANDS[cmd]))
    key = "%s / %s / %s / %s / %s" % (cmd, rname, "".join("ynq"[(Y, N, Q).index(a)] for a in answers), sign, sname)
    sub.add(states=len(log), transitions=len(log), traces=1)
    steps = [x[0] for x in log if x[0] not in ("shown", "ask")]
    nq = QUESTIONS[cmd]
    want = []
    go = not (cmd == "transfer" and answers[0] != Y)
    if go:
        want.append("request")
        go = data is not None and all(a == Y for a in answers[:nq])
    if go and sign != "no key":
        want.append("sign")
    if go:
        go = sign in ("signed", "empty") and answers[nq] == Y
    if go:
        want.append("submit")
    if steps != want:
        sub.violation(key, "steps %s, expected %s (%r)" % (steps, want, r[1]), key)
        return
    for x in log:
        if x[0] == "sign" and (x[1] is not None or x[2] != data):
            sub.violation(key, "the device is given %r for signing" % (x[1:3],), key)
        if x[0] == "submit" and x[2] != {"tx_data_hex": (b"" if sign == "empty" else SIGNED).hex()}:
            sub.violation(key, "submitted %r" % (x[2],), key)
        if x[0] == "request" and x[2].get("do_not_relay") is not True:
            sub.violation(key, "the wallet may relay: %r" % (x[2],), key)
    text = out.getvalue() + "".join(x[1] + "\n" for x in log if x[0] == "shown")
    won = "success" in text.lower() or "has been submitted" in text.lower()
    if won != ("submit" in want and accepted):
        sub.violation(key, "success %s: %s" % ("reported" if won else "not reported", text[-200:]), key)
    # amounts and fees of all transactions are shown before the question which starts the signing
    if cmd != "sweep_dust" and "request" in want and data is not None:
        at = [i for i, x in enumerate(log) if x[0] == "request"][0]
        ask = [i for i, x in enumerate(log) if x[0] == "ask" and i > at][:1]
        seen = [[Fraction(v) for v in DEC.findall(x[1])] for x in log[at:ask[0] if ask else 0] if x[0] == "shown"]
        if seen != [[Fraction(a, XMR), Fraction(f, XMR)] for a, f in txs]:
            sub.violation(key + " / shown", "shown %s for %s" % (seen, txs), key)
    sub.case(key)


def work(sub, it):
    cmd, rname = it
    good = REPLIES[rname][2] is not None
    for answers in itertools.product((Y, N, Q), repeat=QUESTIONS[cmd] + 1):
        for sign in SIGNS if good else SIGNS[:1]:
            for sname in SUBMITS if good and sign in ("signed", "empty") else ["accepted"]:
                flow(sub, cmd, rname, answers, sign, sname)


def files(sub, sign):
    """sign FILE: the file named is signed, nothing is submitted"""
    for line in ("unsigned_monero_tx", "a b", "/tmp/x"):
        log = []
        h = Host([], {}, sign, {}, log)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r = attempt(lambda: h.do_sign(line))
        steps = [x for x in log if x[0] in ("request", "submit", "sign")]
        sub.add(states=1, transitions=len(log), traces=1)
        want = [] if sign == "no key" else [("sign", line, None, None)]
        sub.expect(steps == want, "sign file:" + sign, "steps %r" % (steps,), line)
    sub.case("file:" + sign)


def worker(sub, it):
    (files if it[0] == "files" else lambda s, a: work(s, a))(sub, it[1])


def run(chk):
    chk.rule = __doc__
    items = [("flow", (c, r)) for c in COMMANDS for r in REPLIES] + [("files", s) for s in SIGNS]
    pmap(chk, worker, items, 300)
    chk.extra["bounds"] = "%d commands x %d replies x all answers x %d signing outcomes x %d submission replies" % (len(COMMANDS), len(REPLIES), len(SIGNS), len(SUBMITS))
