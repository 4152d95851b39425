"""P52: seed, account and device set-up tools use exactly the seed which was given.

The real command-line tools (seed.amain, generate_creds.main, trezor_init.main, trezor_address.amain) run for every combination of the kind of seed (BIP-39 phrase, word indices, master
secret, Monero phrase, Monero secret), the way it is typed (words, one argument, capitals, spaces), derivation (default, SLIP-0010, own path), passphrase, networks and subaddress listing.
Everything printed is compared with an independent derivation: keys, phrase, the address of each network, and the table of subaddresses of exactly the chosen networks; conflicting or
damaged input is refused before a key is printed. The set-up tool runs against stand-ins of the device library with every combination of options and failures: the device is wiped once
and then loaded with exactly the phrase, PIN, label, language and passphrase setting of the command line, on the chosen connection."""
import asyncio
import contextlib
import hashlib
import io
import itertools
import os
import re
import sys
import types
import unicodedata
from unittest import mock

from mc import env, ref
from mc.check import pmap
from mc.explore import chunks

env.install_rng()

from monero_glue.xmr import crypto
from monero_poc import generate_creds, seed as pseed, trezor_address, trezor_init
from monero_glue.messages import Failure, MoneroAddress
from checks import p26
from checks.p25 import W as MW

NETN = {0: "main", 1: "test", 2: "stage"}
H = 2 ** 31


def addr(net, kind, spend, view):
    return ref.addr_encode(ref.ADDR_TAGS[net][kind], spend + view)


def cli(fn, args):
    """(exception, output) of a tool"""
    out = io.StringIO()
    err = None
    with mock.patch.object(sys, "argv", ["tool"] + args), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            r = fn()
            if asyncio.iscoroutine(r):
                asyncio.run(r)
        except SystemExit as e:
            err = e if e.code else None
        except Exception as e:
            err = e
    return err, out.getvalue()


def labelled(out):
    r = {}
    for l in out.split("\n"):
        if ":" in l and not re.match(r"\s*\d+\s*,", l):
            k, v = l.split(":", 1)
            k = " ".join(k.lower().split())
            r.setdefault(k, []).append(v.strip())
    return r


def pick(d, *words):
    hits = [v for k, v in d.items() if k == " ".join(words)] or [v for k, v in d.items() if all(w in k for w in words)]
    return hits[0][0] if len(hits) == 1 and len(hits[0]) == 1 else hits


def subs_of(out):
    """network -> {(major, minor): address}"""
    res, cur = {}, None
    for l in out.split("\n"):
        m = re.match(r"\s*(\d+)\s*,\s*(\d+)\s*:\s*(\S+)\s*$", l)
        if m:
            res.setdefault(cur, {})[int(m.group(1)), int(m.group(2))] = m.group(3)
        elif "sub" in l.lower() and "address" in l.lower():
            cur = [n for n, t in NETN.items() if t in l.lower()]
            cur = cur[0] if len(cur) == 1 else None
    return res


TABLE = {}


def sub_table(a, v, net):
    k = (a, v, net)
    if k not in TABLE:
        w = ref.Wallet(a, v)
        TABLE[k] = {(i, j): addr(net, 2, *(ref.enc(p) for p in w.sub_pub(i, j))) for i in range(5) for j in range(5) if (i, j) != (0, 0)}
    return TABLE[k]


def nfkd(t):
    return unicodedata.normalize("NFKD", t).encode("utf8")


def cases():
    """(name, flags, typed words, master seed or None, Monero seed or None)"""
    out = []
    for tag in range(2):
        for n in (16, 32):
            ent = ref.keccak(b"p52-%d-%d" % (tag, n))[:n]
            ws = p26.phrase_words(ent)
            for pw in ("", "TREZOR", "cafe\u0301", "caf\u00e9"):
                out.append(("phrase", ["--passphrase", pw] if pw else [], " ".join(ws), hashlib.pbkdf2_hmac("sha512", " ".join(ws).encode(), b"mnemonic" + nfkd(pw), 2048), None))
            bits = "".join(bin(p26.bip39.english_words.index(x))[2:].zfill(11) for x in ws)
            out.append(("indices", ["--wlist-seed"], " ".join(ws), bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8)), None))
            out.append(("master", ["--seed"], ref.keccak(b"ms%d%d" % (tag, n)).hex()[:2 * n], ref.keccak(b"ms%d%d" % (tag, n))[:n], None))
        m = ref.enc_sc(int.from_bytes(ref.keccak(b"mm%d" % tag), "little") % ref.L)
        out.append(("monero words", ["--electrum-mnemonics"], " ".join(MW.enc(m, True)), None, m))
        out.append(("monero secret", ["--monero-master"], m.hex(), None, m))
    return out


TYPED = {"words": lambda t: t.split(" "), "one": lambda t: [t], "upper": lambda t: [t.upper()], "capital": lambda t: [x.capitalize() for x in t.split(" ")],
         "halves": lambda t: [" ".join(t.split(" ")[:3]), " ".join(t.split(" ")[3:])] if " " in t else [t]}
DERIV = {"default": ([], None, False), "slip": (["--slip0010"], None, True), "path": (["--path", "m/44'/128'/1'/0/3"], [H + 44, H + 128, H + 1, 0, 3], False),
         "slip path": (["--slip0010", "--path", "m/44'/128'/7'"], [H + 44, H + 128, H + 7], True)}
NETARGS = [[]] + [["--subs"] + list(c) for n in range(4) for c in itertools.combinations(["--mainnet", "--testnet", "--stagenet"], n)] + [["--testnet"], ["--stagenet"], ["--mainnet"]]


def secrets(out):
    return re.findall(r"[0-9a-fA-F]{64}", out)


def seeds(sub, part):
    for (name, flags, text, master, mon), typed, der, nets in part:
        dargs, ns, ed = DERIV[der]
        words = TYPED[typed](text)
        key = "%s / %s / %s / %s" % (name, typed, der, " ".join(nets))
        err, out = cli(pseed.amain, words + flags + dargs + nets)
        sub.add(states=1, transitions=1)
        sub.case("%s:%s" % (key, text[:12]))
        if mon is not None and dargs:
            if err is None or secrets(out):
                sub.violation("conflict: " + name, "%s: derivation options ignored for a seed which is not derived" % key, case=key)
            continue
        if err is not None:
            sub.violation("refused: " + name, "%s: the tool fails with %r" % (key, err), case=key)
            continue
        if mon is None:
            mm = p26.expected(master, ns if ns is not None else (p26.DEF[:3] if ed else p26.DEF), ed)[1]
        else:
            mm = mon
        a, v, A, V = p26.monero_keys(mm)
        d = labelled(out)
        exp = {("private", "spend"): ref.enc_sc(a).hex(), ("private", "view"): ref.enc_sc(v).hex(), ("public", "spend"): A.hex(), ("public", "view"): V.hex(), ("seed monero",): mm.hex(),
               ("wrds",): " ".join(MW.enc(mm, True))}
        for n, t in NETN.items():
            exp[t + "net address",] = addr(n, 0, A, V)
        if master is not None:
            exp["bip39 words",] = " ".join(text.split())
            exp["bip32",] = master.hex()
        for lab, want in exp.items():
            got = pick(d, *lab)
            if got != want:
                sub.violation("printed: " + " ".join(lab), "%s: %s is printed as %s, expected %s" % (key, " ".join(lab), got, want), case=key)
        want = {}
        if "--subs" in nets:
            chosen = [n for n, t in NETN.items() if "--%snet" % t in nets] or [0]
            want = {n: sub_table(a, v, n) for n in chosen}
        got = subs_of(out)
        if got != want:
            bad = [(n, k) for n in set(got) | set(want) for k in set(got.get(n, {})) | set(want.get(n, {})) if got.get(n, {}).get(k) != want.get(n, {}).get(k)]
            sub.violation("subaddresses", "%s: subaddress %r of the listing differs" % (key, sorted(bad, key=str)[:3]), case=key)


def refusals(sub, part):
    """conflicting and damaged input: no key is printed"""
    for args in part:
        err, out = cli(pseed.amain, args)
        sub.add(states=1, transitions=1)
        sub.case(" ".join(args)[:80])
        if err is None or secrets(out):
            sub.violation("accepted: " + " ".join(x for x in args if x.startswith("--")), "input %r gives keys" % (args,), case=" ".join(args))


def bad_inputs():
    m = ref.enc_sc(int.from_bytes(ref.keccak(b"bad"), "little") % ref.L)
    ws = MW.enc(m, True)
    b39 = p26.phrase_words(bytes(16))
    kinds = ["--electrum-mnemonics", "--wlist-seed", "--monero-master", "--seed"]
    inputs = {"--electrum-mnemonics": ws, "--wlist-seed": b39, "--monero-master": [m.hex()], "--seed": [m.hex()]}
    out = []
    for n in (2, 3, 4):
        for c in itertools.combinations(kinds, n):
            for k in c:
                out.append(inputs[k] + list(c))
    for i in range(25):
        w = list(ws)
        w[i] = MW.ws[(MW.idx[w[i]] + 1) % len(MW.ws)]
        if MW.dec(w) is None:
            out.append(w + ["--electrum-mnemonics"])
        w = list(ws)
        w[i] = "xxxx"
        out.append(w + ["--electrum-mnemonics"])
        if MW.dec(ws[:i]) is None and i:
            out.append(ws[:i] + ["--electrum-mnemonics"])
    for h in ("", m.hex()[:-1], m.hex()[:-2] + "zz", "0x" + m.hex()):
        for k in ("--monero-master", "--seed"):
            if h or k == "--monero-master":
                out.append([h, k])
    for i in range(12):
        out.append(b39[:i] + ["notaword"] + b39[i + 1:] + ["--wlist-seed"])
    out.append(b39 + ["--wlist-seed", "--passphrase", "x"])
    for p in ("x", "m//", "m/44'/x", "m/2147483648"):
        out.append(b39 + ["--path", p])
    out.append(b39 + ["--slip0010", "--path", "m/44'/128'/0'/0/0"])
    return out


def fresh(sub, item):
    """new wallets: the printed address is the one of the printed keys, on the chosen network, and every run gives other keys"""
    args = item
    seen = set()
    for run_no in range(6):
        err, out = cli(generate_creds.main, list(args))
        sub.add(states=1, transitions=1)
        d = labelled(out)
        if err is not None:
            sub.violation("new wallet: fails", "%s: %r" % (args, err))
            return
        a, v, ad = pick(d, "spend"), pick(d, "view"), pick(d, "address")
        net = 1 if "--testnet" in args else 2 if "--stagenet" in args else 0
        try:
            a, v = (int.from_bytes(bytes.fromhex(x), "little") for x in (a, v))
            want = addr(net, 0, ref.enc(ref.mulG(a)), ref.enc(ref.mulG(v)))
        except Exception as e:
            sub.violation("new wallet: output", "%s: %r" % (args, e))
            return
        if not (0 < a < ref.L and 0 < v < ref.L):
            sub.violation("new wallet: keys", "%s: a printed key is out of range" % (args,))
        if want != ad:
            sub.violation("new wallet: address", "%s: address %s does not belong to the printed keys" % (args, ad))
        if a in seen or v in seen or a == v:
            sub.violation("new wallet: repeated", "%s: a key is used twice" % (args,))
        seen |= {a, v}
    sub.case(" ".join(args))


DEFAULT12 = "alcohol woman abuse must during monitor noble actual mixed trade anger aisle"


def setup(sub, part):
    for opt in part:
        mnem, idx, pin, label, lang, pw, dbg, path, pidx, envp, fail = opt
        args = []
        for o, x in (("--mnemonic", mnem), ("--mnemonic-idx", idx), ("--pin", pin), ("--label", label), ("--language", lang), ("--trezor-path", path), ("--trezor-idx", pidx)):
            if x is not None:
                args += [o, x]
        if pw:
            args.append("--passphrase")
        if dbg:
            args.append("--debug-link")
        log = []

        def ev(what, **kw):
            log.append((what, kw))
            if what == fail:
                raise RuntimeError("stand-in: " + what)

        class Client:
            def __init__(self, link, ui=None):
                self.link = link
                ev("client", link=link)

            def close(self):
                ev("close")

        def load(client, mnemonic, pin, passphrase_protection, label, language="english", **kw):
            ev("load", mnemonic=mnemonic, pin=pin, pw=bool(passphrase_protection), label=label, language=language, link=client.link, rest=kw)

        environ = dict(os.environ)
        environ.pop("TREZOR_PATH", None)
        if envp:
            environ["TREZOR_PATH"] = envp
        # whatever name the tool knows the library by
        ps = [mock.patch.object(trezor_init, "get_transport", lambda p=None, **k: (ev("transport", path=p), "link:%s" % p)[1]),
              mock.patch.object(trezor_init, "TrezorClient", Client), mock.patch.object(trezor_init, "TrezorClientDebugLink", Client),
              mock.patch.object(trezor_init.device, "wipe", lambda c: ev("wipe", link=c.link)),
              mock.patch.object(trezor_init.debuglink, "load_device_by_mnemonic", load), mock.patch.object(trezor_init.debuglink, "load_device", load, create=True),
              mock.patch.object(trezor_init.ui, "ClickUI", lambda *a, **k: "ui"), mock.patch.dict(os.environ, environ, clear=True)]
        with contextlib.ExitStack() as st:
            for p in ps:
                st.enter_context(p)
            err, out = cli(trezor_init.main, args)
        sub.add(states=1, transitions=len(log))
        key = " ".join("%s" % (x,) for x in args) + (" TREZOR_PATH=%s" % envp if envp else "") + (" failing %s" % fail if fail else "")
        sub.case(key)
        kinds = [k for k, _ in log]
        want_path = path or (("bridge:web01" if pidx == "usb" else "udp:127.0.0.1:21324") if pidx else envp or "bridge:web01")
        if any(kw["path"] != want_path for k, kw in log if k == "transport") or any(kw["link"] != "link:" + want_path for k, kw in log if "link" in kw):
            sub.violation("set-up: connection", "%s: connects %r, expected %s" % (key, [kw for k, kw in log if k == "transport"], want_path), case=key)
        order = [k for k in kinds if k in ("wipe", "load")]
        if fail is None:
            if err is not None or order != ["wipe", "load"]:
                sub.violation("set-up: steps", "%s: steps %r, error %r" % (key, kinds, err), case=key)
                continue
        elif err is None or order not in ([], ["wipe"], ["wipe", "load"]) or fail == "wipe" and "load" in order:
            sub.violation("set-up: failure", "%s: steps %r, error %r" % (key, kinds, err), case=key)
        for k, kw in log:
            if k != "load":
                continue
            if mnem:
                if kw["mnemonic"] != mnem:
                    sub.violation("set-up: phrase", "%s: the device is loaded with another phrase: %r" % (key, kw["mnemonic"]), case=key)
            elif (kw["mnemonic"] == DEFAULT12) == (idx == "1") or len(kw["mnemonic"].split()) != (24 if idx == "1" else 12):
                sub.violation("set-up: test phrase", "%s: loaded with %r" % (key, kw["mnemonic"]), case=key)
            if (kw["pin"] or "", kw["label"] or "", kw["language"], kw["pw"]) != (pin or "", label or "", lang or "english", bool(pw)):
                sub.violation("set-up: settings", "%s: loaded with %r" % (key, kw), case=key)


def askaddr(sub, item):
    """the address tool prints what the device answers, on the main network"""
    path, pidx, envp, answer = item
    log = []

    class Proxy:
        def __init__(self, path=None, debug=False, **kw):
            log.append(("proxy", path))

        async def call(self, msg, recode=True):
            log.append(("call", msg))
            return answer

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)

            async def f(msg, *a, **k):
                log.append(("call", msg))
                return answer
            return f

    args = (["--trezor-path", path] if path else []) + (["--trezor-idx", pidx] if pidx else [])
    environ = dict(os.environ)
    environ.pop("TREZOR_PATH", None)
    if envp:
        environ["TREZOR_PATH"] = envp
    cl = types.SimpleNamespace(close=lambda: None)
    with mock.patch.object(trezor_address, "get_transport", lambda p=None, **k: "link"), mock.patch.object(trezor_address, "TrezorClient", lambda *a, **k: cl), \
            mock.patch.object(trezor_address, "TrezorClientDebugLink", lambda *a, **k: cl), mock.patch.object(trezor_address.ui, "ClickUI", lambda *a, **k: "ui"), \
            mock.patch.object(trezor_address.tmanager, "Trezor", Proxy), mock.patch.dict(os.environ, environ, clear=True):
        err, out = cli(trezor_address.amain, args)
    sub.add(states=1, transitions=len(log))
    key = " ".join(args) + " " + answer.__class__.__name__
    sub.case(key)
    want_path = path or (("bridge:web01" if pidx == "usb" else "udp:127.0.0.1:21324") if pidx else envp or "bridge:web01")
    if [x for k, x in log if k == "proxy"] != [want_path]:
        sub.violation("address: connection", "%s: %r" % (key, log), case=key)
    calls = [x for k, x in log if k == "call"]
    if len(calls) != 1 or calls[0].__class__.__name__ != "MoneroGetAddress" or calls[0].network_type != 0:
        sub.violation("address: request", "%s: %r" % (key, calls), case=key)
    if isinstance(answer, Failure):
        if re.search(r"[1-9A-HJ-NP-Za-km-z]{95}", out):
            sub.violation("address: failure", "%s: an address is printed although the device refused" % key, case=key)
    elif err is not None or answer.address.decode() not in out:
        sub.violation("address: printed", "%s: printed %r, error %r" % (key, out, err), case=key)


def work(sub, job):
    globals()[job[0]](sub, job[1])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    cs = cases()
    combos = []
    for i, c in enumerate(cs):
        for typed in TYPED:
            for der in DERIV:
                for j, nets in enumerate(NETARGS):
                    # the full product in depth; quick: every pair of dimensions
                    if deep or (typed == "words" and der == "default" and (i < 4 or c[3] is None)) or (nets == NETARGS[0] and (typed == "words" or der == "default")):
                        combos.append((c, typed, der, nets))
    chk.extra["bounds"] = "%d seeds, %d invocations" % (len(cs), len(combos))
    jobs = [("seeds", c) for c in chunks(combos, 12)]
    jobs += [("refusals", c) for c in chunks(bad_inputs(), 12)]
    jobs += [("fresh", a) for a in ((), ("--testnet",), ("--stagenet",))]
    m = "legal winner thank year wave sausage worth useful legal winner thank yellow"
    paths = [(None, None, None), ("udp:10.0.0.1:9", None, None), (None, "usb", None), (None, "0", None), (None, None, "webusb:1"), ("a:b", "usb", "c:d"), (None, "0", "c:d")]
    opts = [(mn, ix, pin, lab, lang, pw, dbg, None, None, None, None) for mn in (None, m, "zoo " * 23 + "vote") for ix in (None, "0", "1") for pin in (None, "1234") for lab in (None, "my device")
            for lang in (None, "french") for pw in (False, True) for dbg in (False, True)]
    opts += [(mn, None, None, None, None, False, dbg) + p + (f,) for mn in (None, m) for dbg in (False, True) for p in paths for f in (None, "transport", "client", "wipe", "load", "close")]
    jobs += [("setup", c) for c in chunks(opts, 60)]
    A, V = ref.enc(ref.mulG(5)), ref.enc(ref.mulG(6))
    jobs += [("askaddr", p + (a,)) for p in paths for a in (MoneroAddress(address=addr(0, 0, A, V).encode()), Failure(message="no"))]
    pmap(chk, work, jobs, limit=300)
    chk.traces = chk.transitions
