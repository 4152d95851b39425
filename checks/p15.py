"""P15: the key image export protocol.

(a) explicit-state search, to a fixpoint, of every sequence of messages over an alphabet (initialisations of several
    lists, confirmed / rejected / interrupted; steps with the right, swapped, altered, foreign, extra, empty item lists;
    final; a message of another protocol) against the real device, in lockstep with an oracle automaton: the key comes
    out exactly when everything announced and confirmed was processed in order, and then the session is over;
(b) all interleavings of concurrent requests at the user-interface suspension points: a released key opens exactly the
    images of one confirmed list, in its order."""
import copy
import itertools

from mc import env, ref, world, csched as sched
from mc.check import pmap
from mc.explore import *
from checks.p02 import Boom, failed

M = world.M


def td(i, **kw):
    d = dict(out_key=i.P, tx_pub_key=i.tx_key, additional_tx_pub_keys=list(i.add_keys), internal_output_index=i.oidx)
    d.update(kw)
    return M.MoneroTransferDetails(**d)


def td_hash(t):
    b = bytes(t.out_key) + bytes(t.tx_pub_key) + b"".join(bytes(x) for x in t.additional_tx_pub_keys)
    return ref.keccak(b + ref.varint(t.internal_output_index))


def list_hash(tds):
    return ref.keccak(b"".join(td_hash(t) for t in tds))


def subs_of(inps):
    acc = {}
    for i in inps:
        acc.setdefault(i.major, set()).add(i.minor)
    return [M.MoneroSubAddressIndicesList(account=k, minor_indices=sorted(v)) for k, v in sorted(acc.items())]


def init_msg(tds, inps, num=None, h=None):
    return M.MoneroKeyImageExportInitRequest(num=len(tds) if num is None else num, hash=list_hash(tds) if h is None else h,
                                             address_n=[2147483692, 2147483776, 2147483648], network_type=world.NET,
                                             subs=subs_of(inps))


def ki_send(dev, msg, answer=True, step=None):
    """(reply | None when refused by an exception)"""
    if step is not None:
        dev.nstep = step
    dev.iface.ki_answer = True
    fn = type(dev.iface).confirm_ki_sync
    if isinstance(answer, BaseException):
        async def bad(init_msg, ctx=None):
            dev.iface.log.append(("confirm_ki", world.pb_dump(init_msg)))
            raise answer
        dev.iface.confirm_ki_sync = bad
    else:
        dev.iface.ki_answer = answer
    try:
        return dev.ki(msg)
    except Exception:
        return None
    finally:
        dev.iface.__dict__.pop("confirm_ki_sync", None)


def wallet_items():
    o = SENDER
    own = [Inp("k0", o, 100), Inp("k1", o, 101, 0, 2), Inp("k2", o, 102, 1, 3, additional=True), Inp("k3", o, 103, additional=True)]
    foreign = Inp("kf", OTHER, 5)
    return own, foreign


class Model:
    """What the property says about a session."""

    def __init__(self):
        self.cur = None         # [announced list (labels), announced num, hash ok, processed labels]

    def key(self):
        return repr(self.cur)


def altered(own):
    a = own[0]
    return {"idx": td(a, internal_output_index=a.oidx + 1),
            "noidx": td(a, internal_output_index=None),
            "R": td(a, tx_pub_key=own[1].tx_key), "P": td(a, out_key=own[1].P),
            "Pbad": td(a, out_key=b"\xff" * 32), "Pshort": td(a, out_key=a.P[:31])}


def search(sub_, item):
    name, lists, maxstates, thorough = item
    own, foreign = wallet_items()
    items = {"a%d" % i: td(x) for i, x in enumerate(own)}
    # an owned output presented with an extra (useless) additional key: owned, but not what was announced
    items["a0x"] = td(own[0], additional_tx_pub_keys=[own[2].add_keys[0]])
    bad = altered(own)
    bad["foreign"] = td(foreign)
    anns = {l: [items[x] for x in lst] for l, lst in lists.items()}
    events = []
    for l, lst in sorted(lists.items()):
        events.append(("init", l, True, 0, None))
        for ans in (False, None, 0, Boom("x")):
            events.append(("init", l, ans, 0, None))
    l0 = sorted(lists)[0]
    for d in (-1, 1):
        events.append(("init", l0, True, d, None))
    flip = bytearray(list_hash(anns[l0]))
    flip[-1] ^= 1
    events += [("init", l0, True, 0, bytes(flip)), ("init", l0, True, 0, b""), ("init", l0, True, 0, list_hash(anns[l0])[:31])]
    steps = [["a0"], ["a1"], ["a0", "a1"], ["a1", "a0"], ["a2"], ["a3", "a2"], ["a0", "a0"], ["a0x"], []]
    if thorough:
        steps += [["a3"], ["a2", "a3"], ["a0", "a1", "a2"], ["a1", "a2"], ["a0x", "a1"]]
    events += [("step", s) for s in steps]
    events += [("step", ["!" + b]) for b in sorted(bad)] + [("step", ["a0", "!foreign"]), ("step", ["!foreign", "a0"])]
    events += [("final",), ("other",)]
    all_items = dict(items, **{"!" + k: v for k, v in bad.items()})

    def message(ev):
        if ev[0] == "init":
            tds = anns[ev[1]]
            return init_msg(tds, own, num=len(tds) + ev[3], h=ev[4])
        if ev[0] == "step":
            return M.MoneroKeyImageSyncStepRequest(tdis=[all_items[x] for x in ev[1]])
        if ev[0] == "final":
            return M.MoneroKeyImageSyncFinalRequest()
        return M.MoneroTransactionFinalRequest()

    dev0 = Dev(SENDER, tag="p15")
    start = (dev0, None, ())
    seen = {}

    def skey(dev, cur):
        return (full_ki(dev), repr(cur))

    def full_ki(dev):
        d = {k: v for k, v in dev.tok.__dict__.items() if k not in ("iface", "creds", "ctx", "debug", "err_ctr")}
        import hashlib
        return hashlib.sha256(canon(d)).hexdigest()

    seen[skey(dev0, None)] = ()
    queue = [start]
    released = 0
    while queue:
        dev, cur, path = queue.pop()
        sub_.add(states=1)
        for ev in events:
            d = dev.clone()
            r = ki_send(d, message(ev), answer=ev[2] if ev[0] == "init" else True, step=0)
            sub_.add(transitions=1)
            p = path + (ev,)
            key = "-".join(evname(e) for e in p)
            ok = r is not None and not failed(r)
            nxt = None
            if ev[0] == "init":
                shown = [x for x in d.iface.log if x[0] == "confirm_ki"]
                if len(shown) != 1 or shown[0][1] != world.pb_dump(message(ev)):
                    sub_.violation("shown:" + key, "the export request was shown %d times / altered" % len(shown))
                want = ev[2] is True
                exact = want and ev[3] == 0 and ev[4] is None
                if want:
                    nxt = [ev[1], len(anns[ev[1]]) + ev[3], exact, []]
                if exact:
                    expect(sub_, ok, "init-refused:" + key, "a confirmed export is refused: %r" % (getattr(r, "message", r),))
                if not want and ok:
                    sub_.violation("init-unconfirmed:" + key, "an export answered %r is acknowledged" % (ev[2],))
                if want and not ok:
                    nxt = None
            elif ev[0] == "step":
                good = cur is not None and ev[1] and not any(x[0] == "!" for x in ev[1]) and len(cur[3]) + len(ev[1]) <= cur[1]
                if good:
                    nxt = cur[:3] + [cur[3] + ev[1]]
                    if not ok:
                        onlist = cur[2] and lists[cur[0]][:len(nxt[3])] == nxt[3]
                        if onlist:
                            sub_.violation("step-refused:" + key, "an announced output in order is refused: %s" % getattr(r, "message", r))
                        nxt = None
                    elif len(r.kis) != len(ev[1]):
                        sub_.violation("step-count:" + key, "%d records for %d outputs" % (len(r.kis), len(ev[1])))
                elif ok:
                    sub_.violation("step-accepted:" + key, "step %s accepted in state %s" % (ev[1], cur))
            elif ev[0] == "final":
                complete = cur is not None and cur[2] and cur[3] == lists[cur[0]]
                has = ok and bool(getattr(r, "enc_key", None))
                if complete:
                    released += 1
                    sub_.expect(has and len(r.enc_key) == 32, "not-released:" + key, "complete export: no key (%s)" % getattr(r, "message", r))
                elif has or ok:
                    sub_.violation("released:" + key, "final accepted in state %s" % (cur,), {"path": key})
            else:
                sub_.expect(not ok, "foreign:" + key, "a message of another protocol is accepted")
            if ok and ev[0] != "final" and getattr(r, "enc_key", None):
                sub_.violation("leak:" + key, "key released by %s" % ev[0])
            sub_.case("%s|%s|%s" % (cur, evname(ev), ok))
            k = skey(d, nxt)
            if k not in seen:
                if len(seen) >= maxstates:
                    raise AssertionError("state space larger than %d" % maxstates)
                seen[k] = p
                queue.append((d, nxt, p))
    sub_.count("release_paths", released)
    sub_.sample({"lists": lists, "states": len(seen), "events": len(events)})


def expect(s, c, k, w):
    return s.expect(c, k, w)


def evname(e):
    if e[0] == "init":
        return "init%s%+d%s:%s" % (e[1], e[3], "h" if e[4] is not None else "", "exc" if isinstance(e[2], BaseException) else e[2])
    if e[0] == "step":
        return "step(" + ",".join(e[1]) + ")"
    return e[0]


class KIface(world.Iface):
    """Suspends at every call."""

    def __init__(self, answers):
        super().__init__()
        self.answers = answers

    async def confirm_ki_sync(self, init_msg, ctx=None):
        await sched.point("confirm")
        a = self.answers[bytes(init_msg.hash)]
        if a == "exc":
            raise Boom("no")
        return a

    async def ki_error(self, *a, **k):
        await sched.point("ki_error")

    async def transaction_error(self, *a, **k):
        await sched.point("error")


def opened(key, recs):
    """key images readable with the key"""
    out = []
    for rec in recs:
        p = chapoly_open(key, bytes(rec.iv), bytes(rec.blob))
        if p is not None:
            out.append(p)
    return out


def chapoly_open(key, iv, blob):
    from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
    from cryptography.exceptions import InvalidTag
    try:
        return ChaCha20Poly1305(key).decrypt(iv, blob, None)
    except (InvalidTag, ValueError):
        return None


def concurrent(sub_, item):
    name, reqs, ans = item
    own, foreign = wallet_items()
    items = [td(x) for x in own]
    kis = {x.ki: "a%d" % i for i, x in enumerate(own)}
    lists = {"A": [0, 1], "B": [2]}
    inits = {l: init_msg([items[i] for i in v], own) for l, v in lists.items()}
    answers = {bytes(inits[l].hash): ans[l] for l in lists}

    def msg(r):
        if r in lists:
            return world.wire(inits[r])
        if r == "F":
            return M.MoneroKeyImageSyncFinalRequest()
        return world.wire(M.MoneroKeyImageSyncStepRequest(tdis=[items[int(c)] for c in r]))

    def make():
        dev = Dev(SENDER)
        dev.tok.iface = dev.iface = KIface(answers)
        env.RNG.reset("p15c")
        return dev, [sched.Task("%d:%s" % (i, r), dev.tok.key_image_sync(msg(r))) for i, r in enumerate(reqs)]

    outcomes, visited = set(), set()

    def check(dev, tasks, sch):
        recs, keys = [], []
        for t in tasks:
            r = t.result
            if t.exc is not None or r is None or failed(r):
                continue
            recs += list(getattr(r, "kis", []) or [])
            if getattr(r, "enc_key", None):
                keys.append(bytes(r.enc_key))
        # afterwards: every continuation of a single-threaded host (once per distinct state)
        st = (full_digest(dev), tuple(bytes(r.blob) for r in recs), tuple(keys))
        if st in visited:
            return
        visited.add(st)
        conts = [[]] + [list(c) for n in (1, 2, 3) for c in itertools.permutations(["0", "1", "01", "2", "F"], n) if "F" in c]
        dev.tok.iface = dev.iface = world.Iface()
        for c in conts:
            d = dev.clone()
            rc, kc = list(recs), list(keys)
            for r in c:
                x = ki_send(d, msg(r))
                if x is not None and not failed(x):
                    rc += list(getattr(x, "kis", []) or [])
                    if getattr(x, "enc_key", None):
                        kc.append(bytes(x.enc_key))
            for k in kc:
                got = [kis.get(p[:32], "?") for p in opened(k, rc)]
                fit = [l for l in lists if ["a%d" % i for i in lists[l]] == got and ans[l] is True]
                if not fit:
                    sub_.violation("conc:%s:%s:%s" % (name, sch, c), "key released opens %s; answers %s" % (got, ans),
                                   {"schedule": sch, "requests": reqs})
                outcomes.add((tuple(c), tuple(got)))
            sub_.add(transitions=len(c))
        sub_.case("%s:%d:%d" % (name, len(keys), len(recs)))

    n, steps = sched.explore(make, check, preempt=None)
    sub_.add(states=n, transitions=steps, traces=n)
    sub_.sample({"requests": reqs, "answers": str(ans), "schedules": n, "releases": len(outcomes)})


def fresh(sub_, item):
    """keys and nonces of separate sessions never repeat; the key is not visible before the end"""
    own, _ = wallet_items()
    items = [td(x) for x in own]
    for w in (world.SENDER,):
        seen = {}
        dev = Dev(w, tag="fresh")
        for s in range(8):
            lst = items[: 1 + s % 4]
            replies = []
            for m in [init_msg(lst, own)] + [M.MoneroKeyImageSyncStepRequest(tdis=[t]) for t in lst] + [M.MoneroKeyImageSyncFinalRequest()]:
                r = ki_send(dev, m)
                replies.append(world.pb_dump(r))
                for rec in getattr(r, "kis", []) or []:
                    seen.setdefault(("iv", bytes(rec.iv)), []).append(s)
                if getattr(r, "enc_key", None):
                    k = bytes(r.enc_key)
            seen.setdefault(("key", k), []).append(s)
            if any(k in x for x in replies[:-1]):
                sub_.violation("early:%d" % s, "the key is part of an earlier reply")
            sub_.add(traces=1, transitions=len(replies), states=1)
            sub_.case("fresh%d" % s)
        for (what, v), l in seen.items():
            if len(l) > 1:
                sub_.violation("repeat:" + what, "%s used in sessions %s" % (what, l))
        # the key depends on fresh randomness: two runs differ
        a, b = Dev(w, tag="r1"), Dev(w, tag="r2")
        ks = []
        for d in (a, b):
            for m in [init_msg(items[:1], own), M.MoneroKeyImageSyncStepRequest(tdis=items[:1]), M.MoneroKeyImageSyncFinalRequest()]:
                r = ki_send(d, m)
            ks.append(bytes(r.enc_key))
        same = sum(x == y for x, y in zip(*ks))
        sub_.expect(same < 8, "predictable", "%d bytes of the keys of two runs are equal" % same)


def run(chk):
    chk.rule = ("the key is released exactly when the automaton (announced list confirmed, processed list equal) says so; "
                "distinct = (automaton state, event, accepted)")
    t = chk.thorough
    jobs = [("search:A2B1", {"A": ["a0", "a1"], "B": ["a2"]}, 4000, t),
            ("search:A1", {"A": ["a0"], "Z": []}, 4000, t),
            ("search:dup", {"A": ["a0", "a0"], "B": ["a1", "a0"]}, 4000, t)]
    if t:
        jobs += [("search:A3", {"A": ["a0", "a1", "a2"], "B": ["a3", "a2"]}, 20000, t)]
    pmap(chk, search, jobs, limit=800)
    c = []
    for ra in (True, False, "exc"):
        for rb in (True, False):
            for reqs in (["A", "B"], ["A", "01", "F"], ["A", "B", "F"], ["A", "B", "2"], ["A", "0", "F"],
                         ["A", "A", "01"], ["A", "F", "F"], ["A", "2", "01"]):
                c.append(("%s:%s%s" % ("".join(reqs), ra, rb), reqs, {"A": ra, "B": rb}))
    c.append(("A01F", ["A", "0", "1", "F"], {"A": True, "B": False}))
    if t:
        c += [("A01F:%s" % a, ["A", "0", "1", "F"], {"A": a, "B": False}) for a in (False, "exc")]
        c += [("AB01:%s" % a, ["A", "B", "01", "F"], {"A": a, "B": True}) for a in (True, False)]
    pmap(chk, concurrent, c, limit=800)
    pmap(chk, fresh, [("fresh",)])
    chk.extra["bounds"] = ("message sequences to a fixpoint of (device state, automaton state); up to 4 concurrent requests, "
                           "all schedules, then every continuation of up to 3 messages")
    chk.assumptions = ["The decryption key of an export is opened with the cryptography package's ChaCha20-Poly1305."]
