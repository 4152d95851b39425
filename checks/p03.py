"""P03: nothing is signed without the user's approval of exactly this transaction.

(a) every answer (yes, falsy values, exception, cancellation) to the confirmation, on transactions of several shapes:
    shown exactly once, before anything else, with exactly the data sent; without approval nothing continues;
(b) all sequences of three initialisations (two transactions x answers) over a live session: only the last one, if
    approved, can be completed and what is completed is that transaction;
(c) all interleavings of two concurrent requests at the user-interface suspension points: a session that can be
    completed afterwards is one whose initialisation was approved."""
import asyncio
import itertools

from mc import env, world, csched as sched, mutate
from mc.check import pmap
from mc.explore import *
from checks.p02 import Boom, send_guard, failed


class PIface(world.Iface):
    """Interface that suspends at every call."""

    def __init__(self, answers=None):
        super().__init__()
        self.answers = answers or {}

    async def confirm_transaction(self, tsx_data, creds=None, ctx=None):
        d = world.pb_dump(tsx_data)
        self.log.append(("confirm", d))
        await sched.point("confirm")
        a = self.answers.get(d, False)
        if a == "exc":
            raise Boom("no")
        return a

    async def transaction_step(self, step, sub_step=None, sub_step_total=None):
        await sched.point("step")


def shapes(thorough):
    mk = [lambda: simple_spec(1, 2), lambda: simple_spec(2, 2, pid=b"12345678"),
          lambda: simple_spec(1, 3, 9, 0, pid=bytes(range(32)), unlock=77),
          lambda: Spec("selfx", [inp("sx", 9000)], [sub(1000), chg(3000)], change=1, unlock=5),
          lambda: Spec("nochg", [inp("nc", 9000), inp("nc2", 800)], [sub(1000, 1), std(3000, 2), sub(4000, 3)])]
    return mk


def answers(sub_, item):
    name, mk = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, dev0, snaps = rec
    sent = world.pb_dump(steps[0][1].tsx_data)
    for ans in (True, False, None, 0, "", Boom("x"), asyncio.CancelledError()):
        dev = Dev(spec.owner)
        log = dev.iface.log
        dev.iface.answer = ans if not isinstance(ans, BaseException) else True
        if isinstance(ans, BaseException):
            async def bad(tsx_data, creds=None, ctx=None, _e=ans):
                log.append(("confirm", world.pb_dump(tsx_data)))
                raise _e
            dev.iface.confirm_transaction = bad
        r = send_guard(dev, steps[0][1])
        conf = [e for e in log if e[0] == "confirm"]
        what = "%s:%r" % (name, ans)
        sub_.case(what)
        sub_.add(states=1, transitions=1)
        sub_.expect(len(conf) == 1, "asked:%s" % what, "user asked %d times" % len(conf))
        sub_.expect(all(c[1] == sent for c in conf), "shown:%s" % what, "the user is shown other data than the "
                    "transaction received: %s vs %s" % ([c[1].hex() for c in conf], sent.hex()))
        sub_.expect(log and log[0][0] == "confirm", "first:%s" % what, "something happens before the confirmation: %s" % log[:1])
        sub_.expect(failed(r) == (ans is not True), "answer:%s" % what, "answer %r gives reply %s" % (ans, type(r).__name__))
        if ans is True:
            h = Host(spec)
            h.feed(r)
            logs = []
            while not h.done:
                r = dev.send(h.build())
                logs += dev.iface.log
                if is_fail(r):
                    sub_.violation("stuck:" + what, "approved transaction refused at %s" % (h.cur(),))
                    break
                h.feed(r)
            else:
                sub_.expect(not any(l[0].startswith("confirm") for l in logs), "again:" + what, "asked again later")
                sub_.add(traces=1, transitions=len(h.script))
                bad = world.verify_tx(world.TxResult(h))
                sub_.expect(not bad, "bound:" + what, "the completed transaction is not the approved one: %s" % bad)
            continue
        for st, m, _ in steps[1:]:
            d2 = dev.clone()
            sub_.add(transitions=1)
            if not failed(send_guard(d2, m)):
                sub_.violation("unapproved:%s:%s%d" % ((what,) + st), "message %s accepted without approval" % (st,))


def shown(sub_, item):
    """Every single-field change of the initialisation: the user sees exactly what was received."""
    name, mk = item
    spec = mk()
    m0 = Host(spec).build(("init", 0))
    for lab, m in mutate.all_mutations(m0):
        try:
            sent = world.pb_dump(m)
        except Exception:
            continue
        dev = Dev(spec.owner)
        r = send_guard(dev, m)
        conf = [e for e in dev.iface.log if e[0] == "confirm"]
        sub_.add(states=1, transitions=1)
        sub_.case("%s:%s" % (name, lab))
        want = world.pb_dump(world.pb_load(type(m), sent).tsx_data) if m.tsx_data is not None else None
        if failed(r) and not conf:
            continue
        sub_.expect(len(conf) == 1 and conf[0][1] == want, "shown:%s:%s" % (name, lab),
                    "the user is shown other data than received")


def sequences(sub_, item):
    """three initialisations in a row, at a point inside a live session"""
    name, start, seq = item
    specs = {"A": simple_spec(1, 2), "B": simple_spec(1, 2, seed="B", unlock=9)}
    recs = {}
    for s in "AB":
        rec = honest_ok(sub_, specs[s], tag=s)
        if rec is None:
            return
        recs[s] = rec
    dev = recs["A"][3][start][0].clone()
    last = None
    for s, ans in seq:
        dev.rng_tag, dev.nstep = s, 0
        dev.iface.answer = ans
        r = send_guard(dev, recs[s][1][0][1])
        sub_.add(transitions=1)
        if failed(r) == bool(ans):
            sub_.violation("seq:%s" % name, "initialisation %s with answer %r gives %s" % (s, ans, type(r).__name__))
            return
        last = s if ans else None
    sub_.add(states=1)
    sub_.case(name)
    for s in "AB":
        for k, (st, m, _) in enumerate(recs[s][1]):
            if k == 0:
                continue
            d2 = dev.clone()
            r = send_guard(d2, m)
            sub_.add(transitions=1)
            legal = last is not None and st[0] == "inp"
            if not failed(r) and not legal:
                sub_.violation("seq:%s:%s:%s%d" % ((name, s) + st), "message accepted although the last "
                               "initialisation was %r" % (seq[-1],))
    if last:
        h = Host(specs[last])
        h.feed(r2(recs[last]))
        out = outcome(dev, h)
        sub_.expect(out == ("done", []), "seqdone:%s" % name, "approved transaction does not complete: %s" % (out,))
        sub_.add(traces=1)


def r2(rec):
    return rec[1][0][2]


def concurrent(sub_, item):
    """two requests in flight on one device"""
    name, reqs, ans = item
    specs = {"A": simple_spec(1, 2), "B": simple_spec(1, 2, seed="B", unlock=9)}
    recs = {s: record(specs[s], s) for s in "AB"}
    init = {s: world.wire(recs[s][1][0][1]) for s in "AB"}
    okdata = {world.pb_dump(init[s].tsx_data): ans[s] for s in "AB"}
    seen_out = set()

    def make():
        dev = Dev(specs["A"].owner)
        ifc = PIface({k: v for k, v in okdata.items()})
        dev.tok.iface = dev.iface = ifc
        env.RNG.reset("conc")
        tasks = []
        for r in reqs:
            s, k = r
            if k == 0:
                m = world.wire(recs[s][1][0][1])
            else:
                m = world.wire(recs[s][1][k][1])
            tasks.append(sched.Task("%s%d" % r, dev.tok.tsx_sign(m)))
        return dev, tasks

    def check(dev, tasks, sch):
        acks = {}
        for t in tasks:
            if t.name[1:] == "0" and t.exc is None and not failed(t.result):
                acks[t.name[0]] = t.result
        for s in "AB":
            if s in acks and not ans[s] is True:
                sub_.violation("conc:%s:%s" % (name, sch), "rejected initialisation %s acknowledged" % s)
        dev.tok.iface = dev.iface = world.Iface()
        done = set()
        for s in "AB":
            d2 = dev.clone()
            # any session that accepts an input from here must be an approved one, with its own data
            h = Host(specs[s])
            h.feed(world.wire(acks[s]) if s in acks else recs[s][1][0][2])
            if ("%s1" % s) in [t.name for t in tasks if t.exc is None and not failed(t.result)]:
                h.feed(world.wire([t for t in tasks if t.name == "%s1" % s][0].result))
            try:
                res = outcome(d2, h, deep_bp=False)
            except Exception:
                continue
            if res[0] == "done":
                done.add(s)
                if ans[s] is not True or res[1]:
                    sub_.violation("conc:%s:%s:%s" % (name, s, sch), "transaction %s completed, user answered %r, problems %s"
                                   % (s, ans[s], res[1]), {"schedule": sch})
        if dev.tok.tsx_state is not None and not any(v is True for v in ans.values()):
            for s in "AB":
                d2 = dev.clone()
                if not failed(send_guard(d2, recs[s][1][1][1])):
                    sub_.violation("conc:%s:open:%s" % (name, sch), "nothing approved but a session is open")
        seen_out.add((tuple(sorted(acks)), tuple(sorted(done))))
        sub_.case("%s:%s" % (name, sorted(done)))

    n, steps = sched.explore(make, check, preempt=None)
    sub_.add(states=n, transitions=steps, traces=n)
    sub_.sample({"requests": reqs, "answers": str(ans), "schedules": n, "outcomes": len(seen_out)})


def run(chk):
    chk.rule = "all answers x shapes; all init sequences; all interleavings of concurrent requests"
    items = [("answers-%d" % i, ("answers-%d" % i, mk), answers) for i, mk in enumerate(shapes(chk.thorough))]
    items += [("shown-%d" % i, ("shown-%d" % i, mk), shown) for i, mk in enumerate(shapes(chk.thorough))]
    choices = [("A", True), ("A", False), ("B", True), ("B", False)]
    starts = [0, 1, 4, 7, 9] if not chk.thorough else list(range(11))
    for n in (1, 2, 3):
        for seq in itertools.product(choices, repeat=n):
            for st in (starts if n < 3 else starts[:1] if not chk.thorough else starts):
                nm = "%d-%s" % (st, "".join(s + ("y" if a else "n") for s, a in seq))
                items.append((nm, (nm, st, seq), sequences))
    reqsets = [[("A", 0), ("B", 0)], [("A", 0), ("A", 0)], [("A", 0), ("B", 0), ("A", 1)], [("A", 0), ("A", 1), ("B", 0)]]
    if chk.thorough:
        reqsets.append([("A", 0), ("B", 0), ("A", 1), ("B", 1)])
    for rs in reqsets:
        for a, b in itertools.product((True, False, "exc"), repeat=2):
            nm = "c-%s-%s%s" % ("".join("%s%d" % r for r in rs), a, b)
            items.append((nm, (nm, rs, {"A": a, "B": b}), concurrent))
    pmap(chk, lambda s, it: it[2](s, it[1]), items)
