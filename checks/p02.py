"""P02: a refused or failed step ends the signing session.

For every step of recorded honest sessions every fault of a menu is injected into the real device:
each field of the message changed, every other message of the session in place of the expected one,
an exception (ordinary, cancellation) at each user-interface call, a failing random generator.
Whenever the step fails, the resulting device state (deduplicated by digest) is confronted with every message of the
session: all must be refused except an initialisation, after which a complete session must work."""
import asyncio

from mc import env, world, mutate
from mc.check import pmap
from mc.explore import *
from monero_glue import messages as M


class Boom(Exception):
    pass


IFACE_CALLS = ["confirm_transaction", "transaction_step", "transaction_signed", "transaction_finished",
               "transaction_error"]


def send_guard(dev, msg):
    """reply, or the exception that left the device object"""
    try:
        world.pb_dump(msg)
    except Exception:
        return None  # cannot be sent at all
    try:
        return dev.send(msg)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, world.check_timeout())):
            raise
        return e


def failed(r):
    return isinstance(r, BaseException) or is_fail(r)


def explore(sub_, item):
    name, mk, part, nparts = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, snaps = rec
    msgs = [(st, m) for st, m, _ in steps]
    seen, restarted = {}, set()
    jobs = []
    for k, (st, m, r) in enumerate(steps):
        for lab, mm in mutate.all_mutations(m):
            jobs.append((k, "field:" + lab, mm, None))
        for st2, m2 in msgs:
            jobs.append((k, "msg:%s%d" % st2, m2, None))
        for call in IFACE_CALLS:
            for exc in (Boom("x"), asyncio.CancelledError()):
                jobs.append((k, "iface:%s:%s" % (call, type(exc).__name__), m, (call, exc)))
        if k:
            im = steps[0][1]
            jobs.append((k, "init:iface", im, ("confirm_transaction", Boom("x"))))
            jobs.append((k, "init:nodata", mutate.with_value(im, ("tsx_data",), None), None))
            jobs.append((k, "init:change", mutate.with_value(
                im, ("tsx_data", "change_dts", "addr", "view_public_key"), spec.outputs[0].V), None))
            jobs.append((k, "init:pid", mutate.with_value(im, ("tsx_data", "payment_id"), b"abc"), None))
            jobs.append((k, "foreign", M.MoneroGetAddress(account=0), None))
            jobs.append((k, "init:rng", im, ("rng", 1)))
        for n in range(3):
            jobs.append((k, "rng:%d" % n, m, ("rng", n)))
    for ji, (k, lab, mm, fault) in enumerate(jobs):
        if ji % nparts != part:
            continue
        dev = snaps[k][0].clone()
        undo = None
        if fault and fault[0] == "rng":
            env.RNG.fail_at = fault[1]
        elif fault:
            async def bad(*a, _e=fault[1], **kw):
                raise _e
            setattr(dev.iface, fault[0], bad)
            if fault[0] == "transaction_error":
                # reporting the error fails as well: needs an error to report
                async def bad2(*a, **kw):
                    raise Boom("step")
                dev.iface.transaction_step = dev.iface.confirm_transaction = bad2
        try:
            r = send_guard(dev, mm)
        finally:
            env.RNG.fail_at = None
        if fault and fault[0] != "rng":
            for c in IFACE_CALLS:
                dev.iface.__dict__.pop(c, None)
        sub_.add(transitions=1)
        if r is None or not failed(r):
            continue
        sub_.count("faults_refused")
        key = full_digest(dev)
        sub_.sample({"step": steps[k][0], "fault": lab}, 1)
        first = key not in seen
        seen.setdefault(key, lab)
        if not first:
            continue
        sub_.case("%s:%s:%d" % (name, key, k))
        sub_.add(states=1)
        for st2, m2 in msgs:
            if st2[0] == "init":
                continue
            d2 = dev.clone()
            r2 = send_guard(d2, m2)
            sub_.add(transitions=1)
            if not failed(r2):
                sub_.violation("continued:%s:%s%d:%s" % (name, st2[0], st2[1], lab.split(".")[-1]),
                               "after the failed step %s (fault %s) the device accepts %s%d" % (
                                   steps[k][0], lab, st2[0], st2[1]), {"step": steps[k][0], "fault": lab})
        d2 = dev.clone()
        d2.rng_tag, d2.nstep = "dev", 0
        h2 = Host(spec)
        res = h2.run(d2)
        if res is not None:
            sub_.violation("restart:%s:%s%d" % (name, steps[k][0][0], steps[k][0][1]),
                           "after the failed step %s (fault %s) a new session fails at %s" % (steps[k][0], lab, res[0]),
                           {"fault": lab})
        else:
            sub_.add(traces=1)
    # globals of the code under test must not have been poisoned by all the failures either
    d2 = Dev(spec.owner)
    if Host(spec).run(d2) is not None:
        sub_.violation("poisoned:" + name, "after a series of failures a fresh device cannot sign any more")


def run(chk):
    chk.rule = "every (step, fault) of recorded sessions; non-trivial = distinct device states after a failure"
    chk.assumptions = ["one fault per session", "device randomness replaced by a deterministic stream"]
    items = []
    for i, mk in enumerate(core_specs(chk.thorough)):
        for p in range(4 if not chk.thorough else 8):
            items.append(("s%d.%d" % (i, p), mk, p, 4 if not chk.thorough else 8))
    pmap(chk, explore, items)
