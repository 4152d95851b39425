"""P18: tampered replies.

An honest run of the real agent against the real device is recorded with a snapshot of the device before every message.
Then, for every message, every field of the reply (nested and repeated ones included) and every alteration of a menu (bit of
every 32-byte unit, truncation, extension, emptying, zeroing, absence, replacement by the same field of another reply,
integer and list changes) the run is repeated: the agent gets the recorded replies, the altered one, and then the live
device restored from the snapshot.  The agent must fail, or the transaction it returns must verify independently
(parsing, hashes, ring signatures, balance, range proofs, recipients) against what was to be signed."""
import copy

from mc import env, ref, world, hostagent
from mc.check import pmap
from checks.p17 import spec_of

M = world.M
L = ref.L


def get(m, path):
    for p in path:
        m = m[p] if isinstance(p, int) else getattr(m, p)
    return m


def put(m, path, v):
    m = get(m, path[:-1])
    p = path[-1]
    if isinstance(p, int):
        m[p] = v
    else:
        setattr(m, p, v)


def leaves(m, path=()):
    for num, (name, typ, flags) in sorted(m.get_fields().items()) if not isinstance(m.get_fields(), (list, tuple)) else m.get_fields():
        v = getattr(m, name, None)
        yield path + (name,), v
        if v is not None and hasattr(v, "get_fields"):
            yield from leaves(v, path + (name,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if hasattr(x, "get_fields"):
                    yield from leaves(x, path + (name, i))
                else:
                    yield path + (name, i), x


def menu(v, others, deep, scalars=()):
    out = []
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        for i in range(0, len(v), 32):
            n = min(32, len(v) - i)
            for pos, bit in (((i, 1), (i + n - 1, 0x80)) if not deep else ((i, 1), (i, 0x80), (i + n // 2, 4), (i + n - 1, 1), (i + n - 1, 0x10), (i + n - 1, 0x80))):
                out.append(("bit%d.%02x" % (pos, bit), v[:pos] + bytes([v[pos] ^ bit]) + v[pos + 1:]))
            if n == 32 and deep:
                out.append(("zero%d" % i, v[:i] + bytes(32) + v[i + 32:]))
                out.append(("ident%d" % i, v[:i] + b"\x01" + bytes(31) + v[i + 32:]))
        for i in sorted(set(range(0, len(v) - 31, 32)) | set(scalars)):
            if i + 32 <= len(v):
                # the same scalar / another encoding of it; the neutral point
                s = int.from_bytes(v[i:i + 32], "little")
                if s + L < 2 ** 256:
                    out.append(("plusL%d" % i, v[:i] + (s + L).to_bytes(32, "little") + v[i + 32:]))
        out += [("cut", v[:-1]), ("empty", b""), ("zeros", bytes(len(v))), ("ext", v + b"\x00"), ("half", v[:len(v) // 2]), ("twice", v + v)]
        for k, o in enumerate(others):
            if isinstance(o, (bytes, bytearray)) and bytes(o) != v:
                out.append(("other%d" % k, bytes(o)))
    elif isinstance(v, bool) or isinstance(v, int):
        out += [("i%d" % x, x) for x in sorted({0, 1, 2, 3, 4, 5, v + 1, v - 1, 2 ** 32, 2 ** 63} - {v}) if x >= 0]
    elif isinstance(v, list):
        if v:
            out += [("drop", v[:-1]), ("none", []), ("dup", v + v[-1:]), ("dropfirst", v[1:])]
            if len(v) > 1:
                out += [("swap", [v[1], v[0]] + v[2:]), ("same", [v[0]] * len(v))]
    elif v is None:
        for k, o in enumerate(others):
            if o is not None:
                out.append(("other%d" % k, o))
    out.append(("absent", None)) if v is not None else None
    return out


def scalar_pos(path, v, ring):
    """offsets of the scalars of a signature or a range proof"""
    if not isinstance(v, (bytes, bytearray)) or len(v) < 97:
        return ()
    if path[-1] == "signature":
        return hostagent._sc_pos(ring)
    if path[-1] == "rsig":
        return (128, 160, len(v) - 96, len(v) - 64, len(v) - 32)
    return ()


def cases(replies, n, deep, ring):
    r = replies[n]
    for path, v in leaves(r):
        others, seen = [], []
        for k, o in enumerate(replies):
            if k != n and o.__class__ is r.__class__:
                try:
                    x = get(o, path)
                except (AttributeError, IndexError, TypeError):
                    continue
                if repr(x) not in seen:
                    seen.append(repr(x))
                    others.append(x)
        for name, nv in menu(v, others[:3 if not deep else 8], deep, scalar_pos(path, v, ring)):
            yield path, name, nv
    # whole reply replaced by another of the same type
    for k, o in enumerate(replies):
        if k != n and o.__class__ is r.__class__:
            yield (), "reply%d" % k, o


def tamper(sub_, item):
    spec, part, nparts, deep = item
    link, ag, blob, e = hostagent.sign(spec, keep=True)
    if blob is None:
        sub_.violation("honest:" + spec.name, "an honest run fails: %r" % e)
        return
    i = -1
    for n in range(len(link.replies)):
        for path, name, nv in cases(link.replies, n, deep, len(spec.inputs[0].ring)):
            i += 1
            if i % nparts != part:
                continue
            hit = []

            def alter(k, r):
                if k != n:
                    return r
                hit.append(1)
                if not path:
                    return copy.deepcopy(nv)
                r = copy.deepcopy(r)
                put(r, path, copy.deepcopy(nv))
                return r
            dev = link.snaps[n].clone()
            l2, ag2, blob2, e2 = hostagent.sign(spec, dev, link.replies[:n], alter)
            key = "%s:%d:%s:%s:%s" % (spec.name, n, link.replies[n].__class__.__name__.replace("MoneroTransaction", ""), ".".join(map(str, path)), name)
            sub_.add(states=1, transitions=len(l2.sent), traces=1)
            if not hit:
                sub_.violation("harness:" + key, "message not reached")
            if blob2 is None:
                sub_.count("refused")
                continue
            sub_.count("returned")
            if blob2 == blob:
                continue
            pr = hostagent.problems(blob2, spec)
            if pr:
                sub_.violation("tamper:" + key, "the agent returns a transaction although %s" % "; ".join(pr[:3]))
    sub_.case(spec.name)


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    S = [spec_of(2, 2, "s", b"", 10, 1, ring=2), spec_of(1, 3, "s", b"", 10, 1, ring=2)]
    if deep:
        S += [spec_of(2, 2, "s", b"", 9, 0), spec_of(2, 2, "b", b"", 9, 1), spec_of(2, 3, "sb", b"", 9, 0), spec_of(3, 5, "sb", b"", 10, 1, ring=3)]
    P = 24
    pmap(chk, tamper, [(s, k, P, deep) for s in S for k in range(P)], limit=1500)
    chk.case("tamper")
