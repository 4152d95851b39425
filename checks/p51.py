"""P51: the wallet process is started, watched and asked exactly as configured.

The real HostAgent.wallet_rpc_main runs with a stand-in for the process whose behaviour is enumerated: every split of its output into up to three pieces (between any two bytes, multi-byte characters included) on both
streams, every end (exit codes, failure of each single call, request to stop at each step). The command is run by the real shell with a program recording its arguments, for every combination of
awkward paths, addresses and networks. The real RPC clients are run with a recording HTTP layer for every method, argument shape and answer."""
import contextlib
import io
import itertools
import json
import logging
import os
import random
import shutil
import subprocess
import tempfile
import types

from mc import env, ref
from mc.check import pmap

env.install_rng()

import requests
from monero_glue.xmr import daemon_rpc, wallet_rpc
from monero_glue.xmr.monero import NetworkTypes as NET
from monero_poc import agent as pagent
from checks.p36 import attempt
from checks.p47 import Out, drive

LOG = []


class Handler(logging.Handler):
    def emit(self, r):
        LOG.append((r.levelno, r.getMessage()))


pagent.logger.addHandler(Handler())
pagent.logger.setLevel(logging.DEBUG)
pagent.logger.propagate = False


class Stop(Exception):
    pass


class Process:
    """stands for the child process.  script: list of (stdout bytes, stderr bytes); fail: number of the call which fails; stop: step at which the user asks for the end"""

    def __init__(self, host, script, rest=(b"", b""), fail=None, stop=None, code=0, late=0):
        self.host, self.script, self.rest, self.fail, self.stop, self.code, self.late = host, list(script), rest, fail, stop, code, late
        self.calls, self.fed, self.signals, self.cmd, self.kw, self.step, self.over = 0, [], 0, None, None, 0, False
        self.returncode = None
        self.commands_ = [self]
        self.pending = [b"", b""]
        self.stdout, self.stderr = types.SimpleNamespace(read=lambda *a, **k: self.read(0), close=lambda: None), types.SimpleNamespace(read=lambda *a, **k: self.read(1), close=lambda: None)

    def call(self):
        self.calls += 1
        if self.calls > 400:
            raise Stop("never ends")
        if self.fail == self.calls:
            raise IOError("failure %d" % self.calls)

    @property
    def commands(self):
        if self.late > 0:
            self.late -= 1
            return []
        return self.commands_

    def feed(self, data):
        self.call()
        self.fed.append(data if isinstance(data, bytes) else data.encode())

    def read(self, n):
        self.call()
        if self.returncode is not None and not self.over:
            self.pending = [self.pending[i] + self.rest[i] for i in (0, 1)]
            self.over = True
        r, self.pending[n] = self.pending[n], b""
        return r

    def poll(self):
        self.call()
        self.step += 1
        if self.stop == self.step:
            self.host.terminating = True
        if self.script and not self.signals:
            o, e = self.script.pop(0)
            self.pending = [self.pending[0] + o, self.pending[1] + e]
        else:
            self.returncode = self.code
        return self.returncode

    def close(self):
        self.call()

    def sigint(self, c):
        self.call()
        self.signals += 1


class Host(pagent.HostAgent):
    def __init__(self, d, testnet=False, net=NET.MAINNET, rpc="127.0.0.1:18081", wallet="w", binary="bin", password=b"pw", debug=True):
        self.args = types.SimpleNamespace(testnet=testnet, debug_rpc=debug, wallet_rpc_addr=None, wallet_rpc_creds=None, rpc_addr=None, watch_wallet=None, monero_bin=None)
        self.network_type, self.rpc_addr, self.rpc_bind_port = net, rpc, 48084
        self.wallet_file, self.monero_bin, self.wallet_password = os.path.join(d, wallet), os.path.join(d, binary), password
        self.rpc_running = self.rpc_ready = self.terminating = False
        self.fresh_wallet = False
        self.trace_logger = type("L", (), {"log": lambda *a: None})()
        self.wallet_proxy = wallet_rpc.WalletRpc(self, 48084, None)
        self.daemon_rpc = daemon_rpc.DaemonRpc()
        self.ready, self.prompts = 0, []

    def update_prompt(self):
        self.prompts.append((self.rpc_running, self.rpc_ready))

    def update_intro(self):
        pass

    def poutput(self, *a):
        pass

    def on_rpc_ready(self):
        self.ready += 1


@contextlib.contextmanager
def standin(proc):
    """the process module replaced by the stand-in"""
    old = {n: getattr(pagent.misc, n) for n in ("run", "Feeder", "Capture", "sarge_sigint")}
    old_time = pagent.time

    def run(cmd, **kw):
        proc.cmd, proc.kw = cmd, kw
        return proc

    pagent.misc.run, pagent.misc.Feeder, pagent.misc.Capture, pagent.misc.sarge_sigint = run, lambda *a, **k: proc, lambda *a, **k: None, proc.sigint
    pagent.time = types.SimpleNamespace(sleep=lambda s: proc.call(), time=lambda: 0)
    try:
        yield
    finally:
        for n, v in old.items():
            setattr(pagent.misc, n, v)
        pagent.time = old_time


def launch(host, proc):
    os.makedirs(host.monero_bin, exist_ok=True)
    b = os.path.join(host.monero_bin, "monero-wallet-rpc")
    with open(b, "w") as fh:
        fh.write("#!/opt/venv/bin/python -IS\nimport sys, json\nprint(json.dumps(sys.argv))\n")
    os.chmod(b, 0o755)
    del LOG[:]
    logging.disable(logging.NOTSET)
    with standin(proc), contextlib.redirect_stdout(io.StringIO()):
        try:
            host.wallet_rpc_main(None)
            return None
        except Stop as e:
            return e
        except SystemExit as e:
            return e
        except Exception as e:
            return e


def ended(out, case, host, proc, e):
    out.expect(e is None, case + " / watching the wallet process fails", error=repr(e))
    out.expect(not host.rpc_running, case + " / the wallet process is taken for running after its end")
    out.expect(not host.prompts or host.prompts[-1][0] is False, case + " / the end of the wallet process is not shown")


def fed(out, case, host, proc, whole=True):
    pw = host.rpc_passwd
    want = host.wallet_password + b"\n" + pw.encode() + b"\n"
    got = b"".join(proc.fed)
    if host.terminating and got.startswith(want):
        tail = got[len(want):]
        out.expect(set(tail.split(b"\n")) <= {b"quit", b""}, case + " / input of the wallet process", got=got)
    elif whole:
        out.expect(got == want, case + " / input of the wallet process", got=got, want=want)
    else:
        out.expect(want.startswith(got), case + " / input of the wallet process", got=got, want=want)
    out.expect(list(host.wallet_proxy.creds) == ["trezor", pw], case + " / credentials of the client differ from those of the process", got=host.wallet_proxy.creds)
    out.expect(len(pw) >= 16 and pw.isalnum(), case + " / password of the wallet process", got=pw)


TEXTS = [
    "Starting wallet RPC server\n",
    "2018 01:02 \t[RPC0]\tERROR\tw\u00e4llet: \u6f22 \U0001f511 x\nStarting wallet\r\nz\n",
    "a\n\nb starting WALLET c\nStarting wal",
]


def split_all(data, parts):
    for cut in itertools.combinations(range(len(data) + 1), parts - 1):
        c = (0,) + cut + (len(data),)
        yield [data[c[i]: c[i + 1]] for i in range(parts)]


def output(arg, out):
    """every split of the output, on either stream: the same lines and the same state"""
    ti, parts, stream, tail, block = arg
    text = TEXTS[ti]
    data = text.encode()
    d = tempfile.mkdtemp(prefix="p51")
    try:
        want = [x.strip("\r") for x in text.split("\n")[:-1]]
        n_ready = sum("starting wallet" in x.lower() for x in want)
        for i, pieces in enumerate(split_all(data, parts)):
            if i % 8 != block:
                continue
            h = Host(d)
            script = [(x, b"") if stream == 0 else (b"", x) for x in (pieces[:-1] if tail else pieces)]
            rest = ((pieces[-1], b"") if stream == 0 else (b"", pieces[-1])) if tail else (b"", b"")
            p = Process(h, script, rest)
            case = "output / text %d in %s%s / %s" % (ti, [len(x) for x in pieces], ", the last after the end" if tail else "", ("stdout", "stderr")[stream])
            e = launch(h, p)
            ended(out, case, h, p, e)
            fed(out, case, h, p, bool(script) or True)
            out.expect(h.rpc_ready == (n_ready > 0) and h.ready == n_ready, case + " / readiness of the wallet process", got=(h.rpc_ready, h.ready), want=n_ready)
            pre = "RPC_ERR: " if stream else "RPC_OUT: "
            got = [m for lv, m in LOG if m.startswith("RPC_") and m.startswith(("RPC_ERR: ", "RPC_OUT: "))]
            out.expect(got == [pre + x for x in want], case + " / lines of the output are not reported as printed", got=got, want=want)
            err = [m for lv, m in LOG if lv >= logging.ERROR and m.startswith("RPC_")]
            out.expect(err == [pre + x for x in want if "\tERROR\t" in x], case + " / errors of the wallet process are not reported", got=err)
            out.case(case)
    finally:
        shutil.rmtree(d)


def both(arg, out):
    """two streams at once: all interleavings of their pieces"""
    a, b = ["Starting ", "wallet\nx", "y\n"], ["e1\ne", "\u00e4".encode()[:1], "\u00e4".encode()[1:] + b"\n"]
    a = [x.encode() for x in a]
    b = [x if isinstance(x, bytes) else x.encode() for x in b]
    d = tempfile.mkdtemp(prefix="p51")
    try:
        for pick in itertools.combinations(range(6), 3):
            for merge in (False, True):
                ia, ib, script = iter(a), iter(b), []
                for i in range(6):
                    script.append((next(ia), b"") if i in pick else (b"", next(ib)))
                if merge:
                    script = [(script[i][0] + script[i + 1][0], script[i][1] + script[i + 1][1]) for i in range(0, 6, 2)]
                h = Host(d)
                p = Process(h, script)
                case = "output / two streams %s%s" % (pick, " merged" if merge else "")
                e = launch(h, p)
                ended(out, case, h, p, e)
                got = [m for _, m in LOG if m.startswith("RPC_ERR: ") or m.startswith("RPC_OUT: ")]
                out.expect([m for m in got if m.startswith("RPC_OUT")] == ["RPC_OUT: Starting wallet", "RPC_OUT: xy"] and [m for m in got if m.startswith("RPC_ERR")] == ["RPC_ERR: e1", "RPC_ERR: e\u00e4"],
                           case + " / lines of the output are not reported as printed", got=got)
                out.expect(h.rpc_ready and h.ready == 1, case + " / readiness of the wallet process")
                out.case(case)
    finally:
        shutil.rmtree(d)


def ends(arg, out):
    """every way the process may end"""
    code, stop, late, pw = arg
    d = tempfile.mkdtemp(prefix="p51")
    try:
        script = [(b"a\n", b""), (b"", b""), (b"Starting wallet\n", b"e\n"), (b"", b"")]
        case = "end / code %s / stop at %s / %s" % (code, stop, "late" if late else "at once")
        h = Host(d, password=pw)
        p = Process(h, script, code=code, stop=stop, late=late)
        e = launch(h, p)
        n = p.calls
        ended(out, case, h, p, e)
        fed(out, case, h, p)
        prem = any("prematurely" in m for lv, m in LOG)
        out.expect(prem == (stop is None or stop > 5), case + " / an end nobody asked for is not told, or one asked for is", told=prem)
        out.expect((p.signals > 0) == (stop is not None and stop <= 4), case + " / the process is not asked to end, or is without need", signals=p.signals)
        out.expect(all(h.wallet_password.decode() not in m or not pw for lv, m in LOG if pw and len(pw) > 4), case + " / the wallet password is logged")
        if pw and len(pw) > 4:
            out.expect(pw.decode() not in str(p.cmd), case + " / the wallet password is on the command line")
        out.expect(h.rpc_passwd not in str(p.cmd), case + " / the RPC password is on the command line")
        out.case(case)
        for f in range(1, n + 1):
            h = Host(d, password=pw)
            p = Process(h, script, code=code, stop=stop, late=late, fail=f)
            e = launch(h, p)
            c = case + " / failing call %d" % f
            if not isinstance(e, IOError):
                ended(out, c, h, p, e)
            else:
                out.expect(not h.rpc_running, c + " / the wallet process is taken for running after its end")
            fed(out, c, h, p, False)
            out.case(case)
    finally:
        shutil.rmtree(d)


NAMES = ["w", "my wallet", "a'b", 'a"b', "$(touch x)", "`touch x`", "a;touch x", "a&b|c>d", "a\\b", "\u00fc\u6f22", "*", "~", "#x", "-x", "!h", "a\tb", "$HOME", "{a,b}"]
ADDRS = ["127.0.0.1:18081", "[::1]:18081", "node.example.org:1", "::1"]


def command(arg, out):
    wal, binary, rpc, testnet, net = arg
    d = tempfile.mkdtemp(prefix="p51")
    try:
        h = Host(d, testnet, net, rpc, wal, binary)
        p = Process(h, [])
        case = "command / %r / %r / %s / testnet %s / network %s" % (wal, binary, rpc, testnet, net)
        e = launch(h, p)
        ended(out, case, h, p, e)
        before = sorted(os.listdir(d))
        home = dict(os.environ, HOME="/nonexistent")
        if isinstance(p.cmd, str):
            r = subprocess.run(p.cmd, shell=bool(p.kw.get("shell")), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=home, timeout=60)
        else:
            r = subprocess.run(list(p.cmd), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=home, timeout=60)
        try:
            argv = json.loads(r.stdout.decode())
        except ValueError:
            argv = None
        if argv is None:
            out.violation(case + " / the wallet program is not run", error=r.stderr[:200], cmd=p.cmd)
            return
        # options in either form
        got, i = {}, 1
        while i < len(argv):
            a = argv[i]
            if "=" in a and a.startswith("--"):
                k, v = a.split("=", 1)
                got[k] = v
            elif i + 1 < len(argv) and not argv[i + 1].startswith("--"):
                got[a] = argv[i + 1]
                i += 1
            else:
                got[a] = True
            i += 1
        want = {"--daemon-address": rpc, "--wallet-file": os.path.join(d, wal), "--prompt-for-password": True, "--rpc-login": "trezor", "--rpc-bind-port": "48084"}
        if testnet or net == NET.TESTNET:
            want["--testnet"] = True
        out.expect(got == want, case + " / the wallet program is run with other arguments", got=got, want=want)
        out.expect(argv[0] == os.path.join(d, binary, "monero-wallet-rpc"), case + " / another program is run", got=argv[0])
        out.expect(sorted(os.listdir(d)) == before, case + " / the command does something else as well", files=sorted(os.listdir(d)))
        out.case(case)
    finally:
        shutil.rmtree(d)


class Reply:
    def __init__(self, status, body):
        self.status_code, self.body, self.content = status, body, b"bin"

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError("status %d" % self.status_code)

    def json(self):
        return json.loads(self.body)


METHODS = {"balance": ("getbalance", 0), "height": ("getheight", 0), "get_transfers": ("get_transfers", 1), "rescan_bc": ("rescan_blockchain", 0), "transfer": ("transfer", 2), "transfer_split": ("transfer_split", 2),
           "submit_transfer": ("submit_transfer", 2), "stop_wallet": ("stop_wallet", 0), "export_outputs": ("export_outputs", 0), "import_outputs": ("import_outputs", 1), "import_key_images": ("import_key_images", 1),
           "refresh": ("refresh", 1), "sweep_dust": ("sweep_dust", 1), "sweep_all": ("sweep_all", 1), "sweep_single": ("sweep_single", 1)}
CREDS = [(None, None), (["u", "p"], ("u", "p")), (("u", "p"), ("u", "p")), ("u:p", ("u", "p")), ("u:p:q", ("u", "p:q")), ("u:", ("u", "")), (["u"], ValueError), (("a", "b", "c"), ValueError), (7, ValueError), (b"u:p", ValueError), ({}, ValueError)]
ANSWERS = [(200, '{"result": {"a": [1, "\\u00e4", 18446744073709551615]}}'), (200, '{"error": {"code": -1}}'), (401, "{}"), (404, "x"), (500, '{"result": {}}'), (200, "not json"), (200, "")]


def clients(arg, out):
    """every method of the wallet client (and the request of the daemon client): what is sent, where to, as whom; what comes back"""
    name, = arg
    old = requests.post
    sent = []
    answer = [None]

    def post(url, **kw):
        sent.append((url, kw))
        return Reply(*answer[0])

    requests.post = post
    try:
        for (creds, want_creds), addr, ans in itertools.product(CREDS, [None, "1.2.3.4:5", "[::1]:6"], ANSWERS):
            answer[0] = ans
            for params in [None, {}, {"a": 1}, {"dest": [{"amount": 2 ** 64 - 1, "address": "x\u00e4"}], "n": {"m": None}}]:
                if name.startswith("daemon"):
                    c = daemon_rpc.DaemonRpc(port=4711)
                    method, kind = {"daemon version": ("get_version", 0), "daemon info": ("get_info", 0), "daemon": ("some_method", 1)}[name]
                else:
                    c = wallet_rpc.WalletRpc(None, 4711, None)
                    method, kind = METHODS[name]
                if kind == 0 and params is not None or kind == 2 and params is None:
                    continue
                case = "client / %s / credentials %r / address %s / answer %s %r / %s" % (name, creds, addr, ans[0], ans[1][:20], params)
                f, e = attempt(lambda: c.set_creds(creds))
                if want_creds is ValueError:
                    out.expect(f, case + " / credentials of a wrong form are accepted")
                    continue
                if f:
                    out.violation(case + " / credentials are refused", error=repr(e))
                    continue
                if addr:
                    c.set_addr(addr)
                del sent[:]
                if name == "daemon":
                    f, r = attempt(lambda: c.request(method, params))
                elif name.startswith("daemon"):
                    f, r = attempt(lambda: drive(getattr(c, method)()))
                else:
                    f, r = attempt(lambda: getattr(c, name)(*([] if params is None else [params])))
                out.expect(len(sent) == 1, case + " / requests sent", n=len(sent))
                if len(sent) != 1:
                    continue
                url, kw = sent[0]
                js = kw.get("json")
                out.expect(url == "http://%s/json_rpc" % (addr or "127.0.0.1:4711"), case + " / request goes somewhere else", url=url)
                out.expect(isinstance(js, dict) and js.get("method") == method and js.get("jsonrpc") == "2.0" and (js.get("params") or None) == (params or None), case + " / another request is sent", got=js)
                au = kw.get("auth")
                out.expect((None if au is None else (au.username, au.password)) == want_creds, case + " / request is sent as somebody else")
                good = ans[0] == 200 and ans[1].startswith("{")
                if good and "daemon " in name:
                    good = "result" in json.loads(ans[1])
                if good:
                    want = json.loads(ans[1])
                    out.expect(not f and r == (want["result"] if "daemon " in name else want), case + " / the answer is changed", got=r)
                else:
                    out.expect(f, case + " / a failed request is taken for an answer", got=r)
                out.case(case)
    finally:
        requests.post = old


def daemon(arg, out):
    """which daemon and wallet are asked"""
    given, stored, wrpc, creds = arg
    d = tempfile.mkdtemp(prefix="p51")
    try:
        h = Host(d)
        h.args.rpc_addr = given
        if stored:
            h.rpc_addr = stored
        want = given or stored or "127.0.0.1:18081"
        case = "daemon / given %s / stored %s / wallet %s / %s" % (given, stored, wrpc, creds)
        h.load_params()
        out.expect(h.rpc_addr == want and h.daemon_rpc.url == "http://%s/json_rpc" % want and h.daemon_rpc.base_url == "http://%s" % want, case + " / another daemon is asked than the one configured", got=h.daemon_rpc.url, want=want)
        if wrpc:
            h.args.wallet_rpc_addr, h.args.wallet_rpc_creds = wrpc, creds
            drive(h.wallet_rpc())
            out.expect(h.daemon_rpc.base_url == "http://%s" % want, case + " / another daemon is asked than the one configured", got=h.daemon_rpc.url)
            out.expect(h.wallet_proxy.url == "http://%s/json_rpc" % wrpc and (list(h.wallet_proxy.creds) if creds else h.wallet_proxy.creds) == (creds.split(":", 1) if creds else None), case + " / another wallet is asked than the one configured", got=(h.wallet_proxy.url, h.wallet_proxy.creds))
            out.expect(h.rpc_running, case + " / the given wallet is not taken for running")
        out.case(case)
    finally:
        shutil.rmtree(d)


def passwords(arg, out):
    """the password of the wallet process does not come from a generator with a guessable state"""
    r = []
    for _ in range(3):
        random.seed(1)
        r.append(pagent.misc.gen_simple_passwd(16))
    out.expect(len(set(r)) == 3, "password / the password of the wallet process repeats with the state of the pseudo random generator")
    for n in range(0, 40):
        p = pagent.misc.gen_simple_passwd(n)
        case = "password / %d" % n
        out.expect(len(p) == n and (not n or p.isalnum()), case + " / length", got=p)
        out.case(case)


def one(sub, arg):
    {"output": output, "both": both, "ends": ends, "command": command, "clients": clients, "daemon": daemon, "passwords": passwords}[arg[0]](arg[1:], Out(sub))


def run(chk):
    chk.rule = __doc__
    quick = chk.tier == "quick"
    items = [("both",), ("passwords",)]
    for ti in range(len(TEXTS)):
        for parts in (1, 2, 3) if (quick and ti != 1) or not quick else (1, 2):
            for stream in (0, 1):
                for tail in (False, True):
                    if quick and parts == 3 and (tail or stream):
                        continue
                    items += [("output", ti, parts, stream, tail, b) for b in range(8)]
    if quick:
        items += [("output", 1, 3, 0, False, b) for b in range(8)]
    for code in (0, 1, -9, 255):
        for stop in (None, 1, 2, 3, 4, 5, 6):
            for late in (0, 2):
                for pw in (b"secret", b"", "b\u00fcro \u6f22".encode()):
                    items.append(("ends", code, stop, late, pw))
    nets = [(False, NET.MAINNET), (True, NET.TESTNET), (False, NET.TESTNET), (True, NET.MAINNET)]
    if quick:
        items += [("command", w, b, ADDRS[i % 4], *nets[i % 4]) for i, (w, b) in enumerate([(w, "bin") for w in NAMES] + [("w", b) for b in NAMES] + list(zip(NAMES, NAMES[1:])))]
    else:
        items += [("command", w, b, ADDRS[i % 4], *nets[(i // 4) % 4]) for i, (w, b) in enumerate(itertools.product(NAMES, NAMES))]
        items += [("command", w, "bin", a, *n) for w in NAMES[:4] for a in ADDRS for n in nets]
    items += [("clients", n) for n in list(METHODS) + ["daemon", "daemon version", "daemon info"]]
    items += [("daemon", g, s, w, c) for g in (None, "1.2.3.4:5") for s in (None, "6.7.8.9:10") for w in (None, "1.1.1.1:1") for c in (None, "u:p", "u:p:q") if w or not c]
    chk.extra["bounds"] = "%d groups of runs: %d texts in up to 3 pieces cut at every byte on 2 streams, 20 interleavings of both; 4 exit codes x 7 moments of a stop x failure of every call; %d awkward names as wallet and program path; %d RPC methods x %d credentials x %d answers" % (
        len(items), len(TEXTS), len(NAMES), len(METHODS) + 3, len(CREDS), len(ANSWERS))
    pmap(chk, one, items, 900)
