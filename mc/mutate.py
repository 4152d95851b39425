"""Enumerates single-field changes of protocol messages."""
import copy

from mc import env
from monero_glue import protobuf


def fields(msg):
    """[(name, value)] of the message's declared fields"""
    out = []
    for k, v in type(msg).get_fields().items():
        name = v[0]
        out.append((name, getattr(msg, name, None)))
    return out


def leaves(msg, path=()):
    """every leaf field: (path, value). path elements are names or list indices"""
    for name, val in fields(msg):
        yield from _val(val, path + (name,))


def _val(val, path):
    if isinstance(val, protobuf.MessageType):
        yield path, val
        yield from leaves(val, path)
    elif isinstance(val, (list, tuple)):
        yield path, val
        for i, x in enumerate(val):
            yield from _val(x, path + (i,))
    else:
        yield path, val


def get(msg, path):
    for p in path:
        msg = msg[p] if isinstance(p, int) else getattr(msg, p)
    return msg


def with_value(msg, path, value):
    m = copy.deepcopy(msg)
    o = get(m, path[:-1])
    if isinstance(path[-1], int):
        o[path[-1]] = value
    else:
        setattr(o, path[-1], value)
    return m


def variants(val, bits=(0, -1), full_bits=False):
    """labelled wrong values for one leaf"""
    if isinstance(val, (bytes, bytearray, memoryview)):
        b = bytes(val)
        if b:
            rng = range(len(b) * 8) if full_bits else sorted({0, 7, 8 * (len(b) // 2) + 3, len(b) * 8 - 1})
            for i in rng:
                x = bytearray(b)
                x[i // 8] ^= 1 << (i % 8)
                yield "bit%d" % i, bytes(x)
            yield "cut", b[:-1]
            yield "zero", bytes(len(b))
        yield "ext", b + b"\x00"
        if b:
            yield "empty", b""
    elif isinstance(val, bool):
        yield "flip", not val
    elif isinstance(val, int):
        yield "+1", val + 1
        if val > 0:
            yield "-1", val - 1
            yield "=0", 0
        yield "+2^32", val + (1 << 32)
    elif isinstance(val, (list, tuple)):
        v = list(val)
        if v:
            yield "droplast", v[:-1]
            yield "dropfirst", v[1:]
            yield "duplast", v + [v[-1]]
            if len(v) > 1 and v[0] != v[1]:
                yield "swap", [v[1], v[0]] + v[2:]
        # an absent list stays absent
    elif val is None:
        return
    elif isinstance(val, protobuf.MessageType):
        yield "none", None
    if val is not None and not isinstance(val, (list, tuple, protobuf.MessageType)):
        yield "none", None


def all_mutations(msg, full_bits=False):
    """(label, mutated message) for every field of the message"""
    for path, val in list(leaves(msg)):
        for lab, nv in variants(val, full_bits=full_bits):
            yield "%s:%s" % (".".join(map(str, path)), lab), with_value(msg, path, nv)
