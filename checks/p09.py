"""P09: suspending the device between messages changes nothing; devices are independent.

(a) at every message boundary the saved state is moved to a fresh process and a new device object, which finishes the session;
    at every pair of boundaries and at all of them it is moved to new objects; all replies are compared byte for byte;
(b) all interleavings (bounded number of context switches) of the sessions of two devices;
(c) sessions after sessions (complete or aborted at every point) on the same device."""
import itertools

from mc import env, world, persist
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed


def transplant(dev):
    """new device object carrying on from the saved state of dev"""
    import copy
    d = Dev(dev.w, tag=dev.rng_tag)
    d.nstep = dev.nstep
    d.tok.tsx_state = copy.deepcopy(dev.tok.tsx_state)
    return d


def base(spec, tag="dev"):
    """reference run: [(message bytes, reply bytes)]"""
    dev, h = Dev(spec.owner, tag=tag), Host(spec)
    out = []
    while not h.done:
        m = h.build()
        r = dev.send(m)
        out.append(world.pb_dump(r) if not is_fail(r) else b"FAIL" + str(r.message).encode()[-300:])
        if is_fail(r):
            break
        h.feed(r)
    return out, h


def fork_first(spec, k):
    """run k messages, return the pickled saved state and the host's knowledge"""
    dev, h = Dev(spec.owner), Host(spec)
    for _ in range(k):
        r = dev.send(h.build())
        h.feed(r)
    return (persist.dumps(dev.tok.tsx_state), dev.nstep,
            [(st, type(a), world.pb_dump(a)) for st, a in h.acks.items()], h.pos, h.perm)


def fork_second(spec, st):
    import pickle
    blob, nstep, acks, pos, perm = st
    dev, h = Dev(spec.owner), Host(spec)
    dev.tok.tsx_state = pickle.loads(blob)
    dev.nstep = nstep
    h.acks = {s: world.pb_load(c, b) for s, c, b in acks}
    h.pos, h.perm = pos, perm
    out = []
    while not h.done:
        r = dev.send(h.build())
        out.append(world.pb_dump(r) if not is_fail(r) else b"FAIL" + str(r.message).encode()[-300:])
        if is_fail(r):
            break
        h.feed(r)
    return out


def suspend(sub_, item):
    name, mk, mode, thorough = item
    spec = mk()
    ref_out, h = persist.fork_call(lambda: (base(spec)[0], None))
    n = len(Host(spec).script)
    if len(ref_out) != n or ref_out[-1].startswith(b"FAIL"):
        sub_.violation("honest:" + name, "honest session does not complete: %r" % ref_out[-1][-200:])
        return
    if mode == "process":
        for k in range(1, n):
            try:
                st = persist.fork_call(fork_first, spec, k)
                out = persist.fork_call(fork_second, spec, st)
            except RuntimeError as e:
                sub_.violation("resume:%s:%d" % (name, k), "state after %d messages cannot be resumed: %s" % (k, e))
                continue
            sub_.add(states=1, transitions=n - k, traces=1)
            sub_.case("%s:process:%d" % (name, k))
            compare(sub_, "process:%s:%d" % (name, k), out, ref_out[k:], Host(spec).script[k:])
    else:
        sets = [(k,) for k in range(1, n)] + [tuple(range(1, n))]
        if thorough:
            sets += list(itertools.combinations(range(1, n), 2))
        for ks in sets:
            dev, h = Dev(spec.owner), Host(spec)
            out = []
            for i in range(n):
                if i in ks:
                    dev = transplant(dev)
                r = dev.send(h.build())
                out.append(world.pb_dump(r))
                if is_fail(r):
                    break
                h.feed(r)
            sub_.add(states=1, transitions=n, traces=1)
            sub_.case("%s:%s" % (name, ks))
            compare(sub_, "object:%s:%s" % (name, "-".join(map(str, ks)) if len(ks) < 3 else "all"), out, ref_out,
                    Host(spec).script)


def compare(sub_, key, out, want, script):
    for i, w in enumerate(want):
        if i >= len(out) or out[i] != w:
            sub_.violation(key, "reply to %s differs from the uninterrupted session" % (script[i],))
            return


def interleave(sub_, item):
    """two devices, at most `sw` context switches; the schedule is the list of switch positions"""
    name, mka, mkb, schedules = item
    sa, sb = mka(), mkb()
    refs = persist.fork_call(lambda: (base(sa, "A")[0], base(sb, "B")[0]))
    for sch in schedules:
        devs = [Dev(sa.owner, tag="A"), Dev(sb.owner, tag="B")]
        hosts = [Host(sa), Host(sb)]
        ok = True
        for who, cnt in sch:
            for _ in range(cnt):
                h = hosts[who]
                if h.done:
                    break
                i = h.pos
                r = devs[who].send(h.build())
                sub_.add(transitions=1)
                if world.pb_dump(r) != refs[who][i]:
                    sub_.violation("inter:%s:%s" % (name, sch), "device %d answers %s differently when interleaved: %s" % (
                        who, h.cur(), str(getattr(r, "message", ""))[-200:]), {"schedule": sch})
                    ok = False
                    break
                h.feed(r)
            if not ok:
                break
        if ok and not all(h.done for h in hosts):
            raise AssertionError("incomplete schedule %s" % (sch,))
        sub_.add(states=1, traces=1)
        sub_.case("%s:%s" % (name, sch))


def schedules(na, nb, sw):
    """all alternations with at most sw switches that complete both sessions"""
    res = []

    def rec(first, left, who, acc, k):
        if k == 0 or left[1 - who] == 0:
            if left[1 - who] == 0 or k >= 1:
                res.append(acc + [(who, left[who])] + ([(1 - who, left[1 - who])] if left[1 - who] else []))
            elif k == 0:
                pass
            if k == 0 or left[1 - who] == 0:
                return
        # run this one to its end, then the other
        res.append(acc + [(who, left[who]), (1 - who, left[1 - who])])
        if k < 2:
            return
        for c in range(1, left[who]):
            l2 = list(left)
            l2[who] -= c
            rec(first, l2, 1 - who, acc + [(who, c)], k - 1)

    for w in (0, 1):
        rec(w, [na, nb], w, [], sw)
    uniq = []
    seen = set()
    for s in res:
        t = tuple(x for x in s if x[1])
        if sum(c for w, c in t if w == 0) == na and sum(c for w, c in t if w == 1) == nb and t not in seen:
            seen.add(t)
            uniq.append(t)
    return uniq


def sequential(sub_, item):
    """a session after another one (complete, or abandoned after k messages) on one device"""
    name, mka, mkb = item
    sa, sb = mka(), mkb()
    refb = persist.fork_call(lambda: base(sb, "B")[0])
    n = len(Host(sa).script)
    for k in range(0, n + 1):
        dev, h = Dev(sa.owner, tag="A"), Host(sa)
        h.run(dev, upto=k)
        dev.rng_tag, dev.nstep = "B", 0
        hb, out = Host(sb), []
        while not hb.done:
            r = dev.send(hb.build())
            out.append(world.pb_dump(r))
            if is_fail(r):
                break
            hb.feed(r)
        sub_.add(states=1, transitions=len(out) + k, traces=1)
        sub_.case("%s:%d" % (name, k))
        compare(sub_, "after:%s:%d" % (name, k), out, refb, hb.script)


def run(chk):
    chk.rule = "every suspension point/pair; every interleaving within the switch bound; every abandonment point"
    chk.assumptions = ["randomness is deterministic per message", "a device serves one message at a time here (P03 has "
                       "concurrent requests)"]
    items = []
    for i, mk in enumerate(core_specs(chk.thorough)):
        for mode in ("process", "object"):
            items.append(("%s-s%d" % (mode, i), ("s%d" % i, mk, mode, chk.thorough), suspend))
    B = lambda: Spec("b", [inp("iB", 9000, owner=OTHER)], [std(50), sub(60, 2), Out("chg", 9000 - 110 - 33, owner=OTHER)],
                     change=2, owner=OTHER)
    B9 = lambda: Spec("b9", [inp("iB", 9000, owner=OTHER)], [std(50), Out("chg", 9000 - 50 - 33, owner=OTHER)],
                      change=1, owner=OTHER, hf=9, cv=0)
    A = lambda: simple_spec(1, 2)
    A2 = lambda: simple_spec(2, 3, 9, 0)
    A3 = lambda: simple_spec(1, 4, rsig_type=2, grouping=[2, 2], seed="g22")
    for nm, a, b in (("AB", A, B), ("A2B9", A2, B9), ("A3B", A3, B)):
        sch = schedules(len(Host(a()).script), len(Host(b()).script), 3 if (nm == "AB" or chk.thorough) else 2)
        chk.extra["schedules_" + nm] = len(sch)
        for j, c in enumerate(chunks(sch, 16)):
            items.append(("i-%s.%d" % (nm, j), (nm, a, b, c), interleave))
        items.append(("seq-" + nm, ("seq-" + nm, a, (lambda x=nm: simple_spec(2, 2, seed="sq" + x))), sequential))
    pmap(chk, lambda s, it: it[2](s, it[1]), items, limit=800)
