"""P01: signing messages are accepted only in the one legal order.

Explicit-state search over the real device object: from the idle state, every message of the
alphabet (all messages of a recorded honest session, malformed-phase variants, and the messages of
a second session) is delivered in every reachable state; acceptance is compared with a boring
reference automaton.  States are deduplicated by a digest of the saved device state."""
import collections
import copy

from mc import env, world
from mc.check import pmap
from mc.explore import *
from monero_glue import messages as M


def automaton(script, n_in):
    """expected next step kinds by number of accepted messages"""
    return script


def explore(sub_, item):
    name, mk, tier = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, _ = rec
    script = host.script
    sub_.add(traces=1)
    spec2 = simple_spec(1, 2, seed="second")
    rec2 = honest_ok(sub_, spec2, tag="dev2")
    # alphabet: (label, step or None, msg, session)
    alpha = [("A:%s%d" % st, st, m, "A") for st, m, r in steps]
    if rec2:
        seen = set()
        for st, m, r in rec2[1]:
            if st[0] not in seen:
                seen.add(st[0])
                alpha.append(("B:%s%d" % st, st, m, "B"))
    alpha.append(("bare-bp", ("bp", -1), M.MoneroTransactionSetOutputRequest(is_offloaded_bp=True), "A"))
    alpha.append(("empty-bp", ("bp", -1), M.MoneroTransactionSetOutputRequest(
        rsig_data=M.MoneroTransactionRsigData(), is_offloaded_bp=True), "A"))
    alpha.append(("foreign", ("foreign", 0), M.MoneroGetAddress(account=0), "A"))

    ser = {l: (type(m).__name__, world.pb_dump(m)) for l, _, m, _ in alpha}
    optional = set()  # (labels of announcements of other sessions: either way)

    def expected(state):
        """state: None or (session, k) -> (labels that must be accepted, labels that may be)"""
        acc = {"A:init0", "B:init0"}
        if state is None:
            return acc, set()
        sess, k = state
        scr = script if sess == "A" else rec2[0].script
        may = set()
        if k < len(scr):
            nxt = scr[k]
            if nxt[0] == "inp":
                # sources may be announced in any order; the announced source becomes input number k-1
                acc |= {l for l, st, _, s in alpha if st and st[0] == "inp" and s == sess}
                may |= {l for l, st, _, s in alpha if st and st[0] == "inp"}
            else:
                lab = "%s:%s%d" % (sess, nxt[0], nxt[1])
                acc |= {l for l in ser if ser[l] == ser.get(lab, 0)}
        return acc, may

    # BFS.  A node: device, model state.  Non-canonical input orders leave the recorded session,
    # only their acceptance is checked (their continuations are the same protocol with other data).
    start = Dev(spec.owner)
    seen = {(digest(start), None)}
    q = collections.deque([(start, None, [])])
    ntr = 0
    while q:
        dev, st, hist = q.popleft()
        exp, may = expected(st)
        for label, step, msg, sess in alpha:
            d2 = dev.clone()
            # the continuation of a recorded session must see the recorded randomness
            if step[0] == "init":
                d2.rng_tag, d2.nstep = ("dev" if sess == "A" else "dev2"), 0
            r = d2.send(msg)
            ntr += 1
            ok = not is_fail(r)
            h2 = hist + [label]
            if label in may and label not in exp:
                continue
            if ok != (label in exp):
                sub_.violation("order:%s:%s@%s" % (name, label, "idle" if st is None else "%s%d" % st),
                               "%s message %s in state %s after %s (reply: %s)" % (
                                   "accepted" if ok else "refused", label, st, hist,
                                   str(getattr(r, "message", type(r).__name__))[-300:]), {"spec": spec.name, "history": h2})
                continue
            if ok and r.__class__.__name__ != world.ACK.get(step[0]):
                sub_.violation("reply:%s:%s" % (name, label), "reply type %s to %s" % (type(r).__name__, label), h2)
                continue
            if not ok:
                nst = None
            elif step[0] == "init":
                nst = (sess, 1)
            else:
                scr = script if sess == "A" else rec2[0].script
                if step[0] == "inp" and (sess != st[0] or scr[st[1]] != step):
                    continue  # other session data, acceptance was the point
                nst = (st[0], st[1] + 1)
            full = nst is not None and nst[1] == len(script if nst[0] == "A" else rec2[0].script)
            key = (digest(d2), None if full else nst)
            if key not in seen:
                seen.add(key)
                q.append((d2, None if full else nst, h2))
                sub_.case(name + str(key))
    sub_.add(states=len(seen), transitions=ntr)
    sub_.sample({"spec": spec.name, "alphabet": [a[0] for a in alpha], "states": len(seen), "transitions": ntr})


def run(chk):
    chk.rule = ("every (reachable device state, message) pair; non-trivial = distinct saved-state digests")
    chk.assumptions = ["device randomness replaced by a deterministic stream", "alphabet: all messages of two honest "
                       "sessions plus range-proof messages without content and an unrelated request"]
    items = [("s%d" % i, mk, chk.tier) for i, mk in enumerate(core_specs(chk.thorough))]
    pmap(chk, explore, items)
