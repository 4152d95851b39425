"""P05: inputs cannot be changed, reordered or mixed after they were announced.

(a) all permutation vectors; (b) every single-field change of every prefix-input and signature message, codes bit by
bit; (c) every mix of the fields of these messages from own / other input / other session; (d) moving bytes
across the boundary of source entry and prefix input.  Each change must be refused, or have no effect: the session
continued honestly either fails or completes with a transaction that verifies for the announced inputs."""
import itertools

from mc import env, world, mutate
from mc.check import pmap
from mc.explore import *
from checks.p02 import send_guard, failed
from checks.p04 import send_ok
from monero_glue import messages as M


def specs(thorough):
    r = [lambda: simple_spec(2, 2), lambda: simple_spec(2, 2, 9, 0), lambda: simple_spec(1, 2)]
    if thorough:
        r += [lambda: simple_spec(3, 2), lambda: simple_spec(3, 3, 9, 1), lambda: simple_spec(3, 3, 9, 0)]
    return r


def judge(sub_, name, lab, spec, snap, k, msg, must_refuse=False):
    """deliver msg in place of step k; the outcome must be a refusal or an unchanged, valid transaction"""
    dev, h = resume(spec, snap[1], snap[0])
    r = send_guard(dev, msg)
    if r is None:
        return
    sub_.add(states=1, transitions=1)
    sub_.case("%s:%s" % (name, lab))
    if failed(r):
        return
    sub_.count("accepted")
    if must_refuse:
        sub_.violation("accepted:%s:%s" % (name, lab), "accepted: %s" % lab, {"spec": spec.name})
        return
    h.feed(r)
    out = outcome(dev, h, deep_bp=False)
    if out[0] == "done":
        sub_.count("accepted_without_effect")
        if out[1]:
            sub_.violation("effect:%s:%s" % (name, lab), "the change %s is accepted and the completed transaction "
                           "is not the announced one: %s" % (lab, out[1]), {"spec": spec.name})


def perms(sub_, item):
    name, mk, start = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, snaps = rec
    n = len(spec.inputs)
    k = [i for i, s in enumerate(steps) if s[0][0] == "perm"][0]
    for ln in range(0, n + 2):
        for vec in itertools.product(range(n + 1), repeat=ln):
            dev, h = resume(spec, snaps[k][1], snaps[k][0])
            r = send_guard(dev, M.MoneroTransactionInputsPermutationRequest(perm=list(vec)))
            ok = sorted(vec) == list(range(n))
            sub_.add(states=1, transitions=1)
            sub_.case("%s:%s" % (name, vec))
            if failed(r) == ok:
                sub_.violation("perm:%s:%s" % (name, vec), "permutation %s %s" % (vec, "refused" if ok else "accepted"))
                continue
            if ok:
                h.perm = list(vec)
                h.feed(r)
                out = outcome(dev, h, deep_bp=False)
                sub_.expect(out == ("done", []), "permdone:%s:%s" % (name, vec), "permutation %s: %s" % (vec, out))
                sub_.add(traces=1)
    # the code of each announced input is different
    macs = [bytes(host.acks[("inp", i)].vini_hmac) for i in range(n)]
    sub_.expect(len(set(macs)) == n, "macs:" + name, "two inputs share an authentication code")


def fieldwise(sub_, item):
    name, mk, part, nparts = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, snaps = rec
    jobs = []
    for k, (st, m, r) in enumerate(steps):
        if st[0] not in ("vini", "sign"):
            continue
        for lab, mm in mutate.all_mutations(m):
            jobs.append((k, lab, mm))
        for f in ("vini_hmac", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key", "vini", "pseudo_out"):
            if hasattr(m, f) and getattr(m, f) is not None:
                b = bytes(getattr(m, f))
                for i in range(len(b) * 8):
                    x = bytearray(b)
                    x[i // 8] ^= 1 << (i % 8)
                    jobs.append((k, "%s:bit%d" % (f, i), mutate.with_value(m, (f,), bytes(x))))
        # move bytes between the source entry and the prefix input
        src, vini = world.pb_dump(m.src_entr), bytes(m.vini)
        for j in range(1, min(len(src), 100)):
            for s2, v2 in ((src[:-j], src[-j:] + vini), (src + vini[:j], vini[j:])):
                try:
                    e = world.pb_load(type(m.src_entr), s2)
                    if world.pb_dump(e) != s2 or s2 == src:
                        continue
                except Exception:
                    continue
                jobs.append((k, "shift%d:%d" % (j, len(s2) > len(src)), mutate.with_value(
                    mutate.with_value(m, ("src_entr",), e), ("vini",), v2)))
        # drop trailing optional fields of the entry into the prefix input
        for fld, val in mutate.fields(m.src_entr):
            if val is None or fld == "outputs":
                continue
            e = mutate.with_value(m.src_entr, (fld,), None)
            try:
                s2 = world.pb_dump(e)
            except Exception:
                continue
            if src.startswith(s2) and s2 != src:
                jobs.append((k, "drop-%s" % fld, mutate.with_value(mutate.with_value(m, ("src_entr",), e), ("vini",),
                                                                  src[len(s2):] + vini)))
    for i, (k, lab, mm) in enumerate(jobs):
        if i % nparts != part or not send_ok(mm) or world.pb_dump(mm) == world.pb_dump(steps[k][1]):
            continue
        judge(sub_, name, "%s%d:%s" % (steps[k][0] + (lab,)), spec, snaps[k], k, mm)
    sub_.add(traces=1)


def mixes(sub_, item):
    """all mixes of fields from three origins: own input, another input, the same input of another session"""
    name, mk, step, part, nparts = item
    spec = mk()
    rec = honest_ok(sub_, spec)
    if rec is None:
        return
    host, steps, _, snaps = rec
    rec2 = record(spec, "other-session")
    k = [i for i, s in enumerate(steps) if s[0] == step]
    k = k[0]
    m = steps[k][1]
    pos = step[1]
    own = host.get_perm()[pos]
    other = [i for i in range(len(spec.inputs)) if i != own]
    origins = [(host, own)] + [(host, o) for o in other[:1]] + [(rec2[0], own)]
    flds = ["src_entr", "vini", "vini_hmac"]
    if step[0] == "sign":
        flds += ["pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha", "spend_key"]

    def val(org, f):
        h, i = org
        return spec.inputs[i].pb() if f == "src_entr" else getattr(h.acks[("inp", i)], f)

    combos = list(itertools.product(range(len(origins)), repeat=len(flds)))
    for ci, c in enumerate(combos):
        if ci % nparts != part or not any(c):
            continue
        mm = m
        for f, o in zip(flds, c):
            if o:
                mm = mutate.with_value(mm, (f,), val(origins[o], f))
        judge(sub_, name, "mix-%s%d-%s" % (step + ("".join(map(str, c)),)), spec, snaps[k], k, mm)


BIG = {}


def big_session(n):
    """A long session: positions beyond one byte of a variable-length index."""
    if n in BIG:
        return BIG[n]
    spec = Spec("big%d" % n, [inp("hk%d" % i, 10 ** 10 + i, ring=2) for i in range(n)],
                [std(10 ** 11), chg(10 ** 11)], change=1, ring=2)
    BIG[n] = (spec, record(spec, "big", perm=list(range(n))))
    return BIG[n]


def big(sub_, item):
    """every (position, other input) pair of a long session: whole messages and the parts of a signature request"""
    n, kind, variant, ks = item
    spec, rec = big_session(n)
    if honest_ok(sub_, spec, rec=rec) is None:
        return
    host, steps, _, snaps = rec
    idx = {s[0]: i for i, s in enumerate(steps)}
    parts = {"whole": None, "pseudo": ("pseudo_out", "pseudo_out_hmac", "pseudo_out_alpha"), "key": ("spend_key",)}[variant]
    for k in ks:
        at = idx[(kind, k)]
        dev = snaps[at][0]
        own = steps[at][1]
        for j in range(n):
            if j == k:
                continue
            m = steps[idx[(kind, j)]][1]
            if parts:
                o, m = m, own
                vals = [getattr(o, f) for f in parts]
                if vals[0] is None:
                    continue
                for f, v in zip(parts, vals):
                    m = mutate.with_value(m, (f,), v)
            r = send_guard(dev.clone(), m)
            sub_.add(states=1, transitions=1)
            sub_.case("big:%s:%s:%d:%d" % (kind, variant, k, j))
            if not failed(r):
                sub_.violation("big:%s:%s:%d:%d" % (kind, variant, k, j), "at %s %d of %d the %s of input %d is accepted" % (
                    kind, k, n, "message" if variant == "whole" else variant, j), {"inputs": n})


def run(chk):
    chk.rule = "every permutation vector; every single change; every mix of fields; distinct by label"
    chk.assumptions = ["MAC/AEAD forgery is outside; codes are changed bit by bit", "device randomness fixed per session"]
    items = []
    n = 260
    big_session(n)          # recorded once, inherited by the workers
    edge = [k for k in range(n) if k < 2 or 127 <= k < 130 or 255 <= k < 258]
    for kind, variant in (("vini", "whole"), ("sign", "whole"), ("sign", "pseudo"), ("sign", "key")):
        ks = range(n) if chk.thorough else edge
        for p, c in enumerate(chunks(ks, 8 if len(ks) == n else 2)):
            items.append(("big-%s-%s.%d" % (kind, variant, p), (n, kind, variant, c), big))
    for i, mk in enumerate(specs(chk.thorough)):
        items.append(("perm-s%d" % i, ("perm-s%d" % i, mk, 0), perms))
        for p in range(4):
            items.append(("f-s%d.%d" % (i, p), ("f-s%d" % i, mk, p, 4), fieldwise))
        n = len(mk().inputs)
        for pos in range(n):
            for kind, parts in (("vini", 1), ("sign", 4)):
                for p in range(parts):
                    items.append(("m-s%d-%s%d.%d" % (i, kind, pos, p), ("m-s%d" % i, mk, (kind, pos), p, parts), mixes))
    pmap(chk, lambda s, it: it[2](s, it[1]), items, limit=800 if chk.thorough else 300)
