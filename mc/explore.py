"""Shared pieces of the device explorations: honest recordings, canonical state digests, and the
specs every signing check starts from."""
import copy
import ctypes
import hashlib

from mc import env, ref, world
from mc.world import Inp, SENDER, RCPT, OTHER, Dev, Host, Spec, is_fail, simple_spec, chg, std, sub, inp, Out

env.install_rng()


def canon(o, depth=0):
    """Canonical bytes of a saved device state (value based, no addresses)."""
    if depth > 12:
        return b"?"
    if o is None or isinstance(o, (bool, int, str)):
        return repr(o).encode()
    if isinstance(o, (bytes, bytearray, memoryview)):
        return b"b" + bytes(o)
    if isinstance(o, (list, tuple)):
        return b"[" + b",".join(canon(x, depth + 1) for x in o) + b"]"
    if isinstance(o, dict):
        return b"{" + b",".join(sorted(canon(k, depth + 1) + b":" + canon(v, depth + 1) for k, v in o.items())) + b"}"
    if isinstance(o, (set, frozenset)):
        return b"<" + b",".join(sorted(canon(x, depth + 1) for x in o)) + b">"
    if isinstance(o, (ctypes.Structure, ctypes.Array)):
        return b"c" + bytes(o)
    if hasattr(o, "digest") and hasattr(o, "update") and hasattr(o, "copy"):
        try:        # a running hash: its value identifies it
            return b"H" + bytes(o.copy().digest())
        except Exception:
            pass
    d = getattr(o, "__dict__", None)
    if d is None:
        slots = getattr(type(o), "__slots__", ())
        d = {k: getattr(o, k) for k in slots if hasattr(o, k)}
    name = type(o).__name__.encode()
    skip = ("iface", "trezor") if name == b"HashWrapper" else ("ctx", "iface", "trezor")
    return name + canon({k: v for k, v in d.items() if k not in skip}, depth + 1)


def digest(dev):
    return hashlib.sha256(canon(dev.tok.tsx_state)).hexdigest()[:24]


def full_digest(dev):
    """Everything the device object holds besides its interface and credentials."""
    d = {k: v for k, v in dev.tok.__dict__.items() if k not in ("iface", "creds", "ctx", "debug")}
    return hashlib.sha256(canon(d)).hexdigest()[:24]


def record(spec, tag="dev", perm=None, dev=None):
    """Honest run; returns (host, [(step, msg, resp)], dev, snapshots before each step)."""
    dev = dev or Dev(spec.owner, tag=tag)
    host = Host(spec, perm)
    steps, snaps = [], []
    while not host.done:
        st = host.cur()
        m = host.build()
        snaps.append((dev.clone(), copy.deepcopy((host.pos, host.acks, host.perm))))
        r = dev.send(m)
        steps.append((st, m, r))
        if r.__class__.__name__ != world.ACK[st[0]]:
            return host, steps, dev, snaps
        host.feed(r)
    return host, steps, dev, snaps


def honest_ok(sub_, spec, tag="dev", rec=None):
    """Record an honest run and complain when it does not complete. Returns the record or None."""
    rec = rec or record(spec, tag)
    host, steps, dev, snaps = rec
    if not host.done:
        st, m, r = steps[-1]
        sub_.violation("honest-refused:%s:%s%d" % (spec.name, st[0], st[1]),
                       "a well-formed transaction is refused at %s: %s" % (st, getattr(r, "message", r)),
                       {"spec": spec.name})
        return None
    return rec


def fresh_host(spec, saved):
    h = Host(spec)
    h.pos, h.acks, h.perm = copy.deepcopy(saved)
    return h


def core_specs(thorough=False):
    """Transactions covering the protocol shapes: in-device proofs, host proofs (both client
    generations), one and several inputs, and the old hard fork."""
    r = [lambda: simple_spec(1, 2), lambda: simple_spec(2, 2), lambda: simple_spec(2, 3),
         lambda: simple_spec(1, 3, 9, 0), lambda: simple_spec(2, 2, 9, 0),
         lambda: simple_spec(2, 4, rsig_type=2, grouping=[2, 2], seed="g22")]
    if thorough:
        r += [lambda: simple_spec(3, 2), lambda: simple_spec(3, 3), lambda: simple_spec(1, 3, 9, 1),
              lambda: simple_spec(2, 5, rsig_type=2, grouping=[4, 1], seed="g41"),
              lambda: simple_spec(2, 4, 9, 0, rsig_type=2, grouping=[2, 2], seed="g22"),
              lambda: simple_spec(2, 3, 9, 1, rsig_type=2, grouping=[1, 2], seed="g12")]
    return r


def resume(spec, saved, dev):
    """(clone of dev, host positioned as saved)"""
    return dev.clone(), fresh_host(spec, saved)


def finish(dev, host):
    """Drive honestly to the end. None if completed, else (step, reply)."""
    return host.run(dev)


def outcome(dev, host, deep_bp=True):
    """('refused', step) or ('done', problems)"""
    r = finish(dev, host)
    if r is not None:
        return "refused", r
    return "done", world.verify_tx(world.TxResult(host), deep_bp)


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]
