"""P27: the wire format of the device protocol.

For every message type of the package: every field absent / each value of a boundary menu / repeated 0..3 times / all fields at once, nested messages to
depth 2. The bytes are compared with an independent protobuf encoder and decoder written here; reading them back - in the order written, in reverse
order, with unknown fields inserted at every position and inside nested messages - must give an equal message. Every truncation point, every wrong wire
type, over-long nested lengths, over-long varints, invalid enum values and text must raise (a truncation at a field boundary is a shorter valid message).
The same messages go through dictionaries, comparison, copying, description and the adding of items to repeated fields."""
import importlib
import inspect
import io
import json
import os
import sys
import types

from mc import env
from mc.check import pmap

env.install_rng()

from monero_glue import messages, protobuf as pb
from monero_glue.hwtoken import misc
from monero_glue.protocol_base import messages as pm
from monero_serialize import xmrserialize
from checks.p31 import attempt

U = 2 ** 64
KIND = {pb.UVarintType: "u", pb.SVarintType: "s", pb.BoolType: "b", pb.BytesType: "y", pb.UnicodeType: "t"}
TYPES = {n: c for n, c in vars(messages).items() if inspect.isclass(c) and issubclass(c, pb.MessageType)}


def kind(t):
    k = KIND.get(t)
    return k if k else "e" if isinstance(t, pb.EnumType) else "m"


MENU = {"u": [0, 1, 127, 128, 2 ** 14 - 1, 2 ** 14, 2 ** 21, 2 ** 28 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 35, 2 ** 56, 2 ** 63 - 1, 2 ** 63, U - 1],
        "s": [0, -1, 1, 63, -64, 64, -65, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, -2 ** 63, 8191, -8193],
        "b": [False, True],
        "y": [b"", b"\x00", b"\xff" * 127, bytes(range(128)), b"\x80" * 16384],
        "t": ["", "a", "\u00e9\u20ac\U0001F600", "x" * 127, "\u00e9" * 64, "\x00y"]}


def menu(t, depth=0):
    k = kind(t)
    if k == "e":
        return list(t.enum_values)
    if k == "m":
        r = [t()]
        if depth < 2:
            r.append(fill(t, depth + 1))
            r.append(fill(t, depth + 1, -1))
        return r
    return MENU[k]


def fill(cls, depth=0, pick=1):
    m = cls()
    for tag, (nm, t, fl) in cls.get_fields().items():
        v = menu(t, depth)
        v = v[pick % len(v)] if not (pick < 0 and kind(t) == "y") else v[3]
        setattr(m, nm, [v, v] if fl & pb.FLAG_REPEATED else v)
    return m


# ---- independent codec ----------------------------------------------------------------
def vint(n):
    o = b""
    while True:
        o += bytes([n & 127 | (128 if n > 127 else 0)])
        n >>= 7
        if not n:
            return o


def enc1(tag, t, v):
    k = kind(t)
    if k in "ube":
        return vint(tag * 8) + vint(int(v))
    if k == "s":
        return vint(tag * 8) + vint(2 * v if v >= 0 else -2 * v - 1)
    body = v if k == "y" else v.encode() if k == "t" else b"".join(enc(v))
    return vint(tag * 8 + 2) + vint(len(body)) + body


def enc(m):
    """list of encoded fields, in tag order"""
    r = []
    for tag, (nm, t, fl) in sorted(type(m).get_fields().items()):
        v = getattr(m, nm, None)
        if fl & pb.FLAG_REPEATED:
            r += [enc1(tag, t, x) for x in v or []]
        elif v is not None:
            r.append(enc1(tag, t, v))
    return r


def split(b):
    """top-level fields of an encoding"""
    r, p = [], 0

    def rd(p):
        n = s = 0
        while True:
            n |= (b[p] & 127) << s
            s += 7
            p += 1
            if b[p - 1] < 128:
                return n, p
    while p < len(b):
        q = p
        key, p = rd(p)
        v, p = rd(p)
        if key & 7 == 2:
            p += v
        elif key & 7:
            raise ValueError("wire type")
        if p > len(b):
            raise ValueError("length")
        r.append(b[q:p])
    return r


def dump(m):
    return env.run(misc.dump_pb_msg(m))


def load(b, cls):
    return env.run(misc.parse_pb_msg(b, cls))


def load2(b, cls):
    return env.run(pb.load_message(io.BytesIO(b), cls))


def same(a, b):
    """equal in every field (types included)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, pb.MessageType):
        return all(same(getattr(a, f[0], None), getattr(b, f[0], None)) for f in type(a).get_fields().values())
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def instances(cls):
    """messages to test: (label, message)"""
    out = [("empty", cls()), ("full", fill(cls)), ("full2", fill(cls, 0, -1))]
    for tag, (nm, t, fl) in cls.get_fields().items():
        for i, v in enumerate(menu(t)):
            m = cls()
            setattr(m, nm, [v] if fl & pb.FLAG_REPEATED else v)
            out.append(("%s#%d" % (nm, i), m))
        if fl & pb.FLAG_REPEATED:
            v = menu(t)
            for k in (2, 3):
                m = cls()
                setattr(m, nm, [v[(i * 2) % len(v)] for i in range(k)])
                out.append(("%s*%d" % (nm, k), m))
            m = cls()
            setattr(m, nm, list(v))
            out.append((nm + "*all", m))
        m = fill(cls)
        setattr(m, nm, [] if fl & pb.FLAG_REPEATED else None)
        out.append(("without-" + nm, m))
    return out


UNKNOWN = [vint(1000 * 8) + b"\x00", vint(1001 * 8) + vint(U - 1), vint(1002 * 8 + 2) + b"\x00", vint(1003 * 8 + 2) + b"\x05hello",
           vint((2 ** 28) * 8 + 2) + vint(200) + b"\x80" * 200]


def roundtrip(sub_, item):
    _, name = item
    cls = TYPES[name]
    for lab, m in instances(cls):
        key = "%s:%s" % (name, lab)
        sub_.add(states=1, transitions=1)
        b = attempt(lambda: dump(m))
        if isinstance(b, Exception):
            sub_.violation("dump:" + key, "message cannot be encoded: %r" % b)
            continue
        want = enc(m)
        got = attempt(lambda: split(b))
        sub_.expect(not isinstance(got, Exception) and sorted(deep(got, cls)) == sorted(deep(want, cls)), "enc:" + key, "not the standard encoding: %s" % b[:60].hex())
        for w, f in (("parse_pb_msg", load), ("load_message", load2)):
            r = attempt(lambda: f(b, cls))
            sub_.expect(not isinstance(r, Exception) and same(r, m), "rt:%s:%s" % (w, key), "decoding the encoded message gives %.200r" % (r,))
            r = attempt(lambda: f(b"".join(want), cls))
            sub_.expect(not isinstance(r, Exception) and same(r, m), "std:%s:%s" % (w, key), "decoding the standard encoding gives %.200r" % (r,))
        sub_.expect(attempt(m.ByteSize) == len(b), "size:" + key, "ByteSize() is %r for %d bytes" % (attempt(m.ByteSize), len(b)))
        if len(b) <= 2000:
            # other field order (repeated values keep theirs)
            rev = [x for _, x in sorted(enumerate(want), key=lambda ix: (-key_of(ix[1]), ix[0]))]
            r = attempt(lambda: load(b"".join(rev), cls))
            sub_.expect(not isinstance(r, Exception) and same(r, m), "rev:" + key, "fields in another order give %.200r" % (r,))
            for i in range(len(want) + 1):
                for j, u in enumerate(UNKNOWN):
                    r = attempt(lambda: load(b"".join(want[:i] + [u] + want[i:]), cls))
                    sub_.expect(not isinstance(r, Exception) and same(r, m), "unk:%s:%d:%d" % (key, i, j), "an unknown field changes the message: %.200r" % (r,))
                    sub_.add(states=1)
            n = nested_unknown(m)
            if n != want:
                r = attempt(lambda: load(b"".join(n), cls))
                sub_.expect(not isinstance(r, Exception) and same(r, m), "unkn:" + key, "unknown fields in nested messages change the message: %.200r" % (r,))
    # bytes given in parts
    for tag, (nm, t, fl) in cls.get_fields().items():
        if t is pb.BytesType and not fl:
            for parts in ([b"ab", b"", b"c"], [b""], [], [b"\x80" * 100, bytearray(b"\x01" * 100)]):
                m, w = cls(), cls()
                setattr(m, nm, parts)
                setattr(w, nm, b"".join(bytes(x) for x in parts))
                r = attempt(lambda: dump(m) == dump(w))
                sub_.expect(r is True, "parts:%s:%s:%d" % (name, nm, len(parts)), "bytes given in parts are encoded differently from the whole: %r" % (r,))
                sub_.add(states=1)
    sub_.case(name)


def todict(v, text):
    if isinstance(v, pb.MessageType):
        return {f[0]: todict(getattr(v, f[0]), text) for f in type(v).get_fields().values() if getattr(v, f[0], None) is not None}
    if isinstance(v, list):
        return [todict(x, text) for x in v]
    return bytes(v).hex() if text and isinstance(v, (bytes, bytearray)) else v


def plain(sub_, item):
    """dictionaries <-> messages, equality, the description, adding to repeated fields"""
    name = item[1]
    cls = TYPES[name]
    inst = instances(cls)
    for n, (lab, m) in enumerate(inst):
        key = "%s:%s" % (name, lab)
        b = dump(m)
        for text in (True, False):
            r = attempt(lambda: pb.dict_to_proto(cls, todict(m, text)))
            sub_.expect(not isinstance(r, Exception) and same(r, m), "dict:%s:%s" % (key, text), "message made from its fields is %.200r" % (r,))
        sub_.expect(not isinstance(r, Exception) and (r == m) is True and not (r != m), "eq:" + key, "equal messages differ")
        for l2, m2 in inst[max(0, n - 3):n]:
            e = same(m, m2)
            sub_.expect((m == m2) is e and (m != m2) is not e, "eq:%s:%s" % (key, l2), "comparison of %s messages is wrong" % ("equal" if e else "different"))
        t = attempt(lambda: pb.format_message(m))
        sub_.expect(isinstance(t, str) and t.startswith("%s (%d bytes)" % (name.split(":")[-1] if ":" in name else cls.__name__, len(b))), "fmt:" + key, "description is %.200r" % (t,))
        q = attempt(lambda: repr(m))
        for f in cls.get_fields().values():
            v = getattr(m, f[0])
            if v is not None and v != [] and isinstance(t, str):
                sub_.expect("%s: " % f[0] in t and "%r: " % f[0] in str(q), "fmt:%s:%s" % (key, f[0]), "the description leaves %s out" % f[0])
        sub_.expect(dump(m) == b, "fmt2:" + key, "describing the message changes it")
        c = cls()
        attempt(lambda: c.CopyFrom(m))
        sub_.expect(same(c, m), "copy:" + key, "copy differs")
        sub_.add(states=1, transitions=4)
    other = [c for c in TYPES.values() if c is not cls][0]
    sub_.expect(not (cls() == other()) and not (cls() == None) and not (cls() == 5), "eq:%s:types" % name, "messages of different types are equal")     # noqa
    for tag, (nm, t, fl) in cls.get_fields().items():
        for have in (False, True):
            m = cls()
            if not have:
                m.__dict__.pop(nm, None)
            if fl & pb.FLAG_REPEATED:
                v = menu(t)[:3]
                attempt(lambda: getattr(m, "_extend_" + nm)(list(v[:2])))
                attempt(lambda: getattr(m, "_extend_" + nm)(list(v[2:])))
                sub_.expect(same(getattr(m, nm, None), v), "ext:%s:%s" % (name, nm), "extended by values: %.200r" % (getattr(m, nm, None),))
                if isinstance(t, type) and issubclass(t, pb.MessageType):
                    m = cls()
                    if not have:
                        m.__dict__.pop(nm, None)
                    i1, i2 = attempt(lambda: getattr(m, "_add_" + nm)()), attempt(lambda: getattr(m, "_add_" + nm)())
                    got = getattr(m, nm, None)
                    sub_.expect(isinstance(got, list) and len(got) == 2 and got[0] is i1 and got[1] is i2 and type(i1) is t, "add:%s:%s" % (name, nm), "added items: %.200r" % (got,))
            else:
                sub_.expect(isinstance(attempt(lambda: getattr(m, "_add_" + nm)), AttributeError), "add:%s:%s" % (name, nm), "item added to a field which is not repeated")
            sub_.add(states=1)


def key_of(f):
    n = s = 0
    for c in f:
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n


def deep(fields_, cls):
    """fields, with nested messages in canonical (sorted) order"""
    out = []
    for f in fields_:
        k = key_of(f)
        d = cls.get_fields().get(k >> 3)
        if d and kind(d[1]) == "m":
            body = f[len(vint(k)):]
            n = key_of(body)
            body = body[len(vint(n)):]
            out.append((k, tuple(sorted(deep(split(body), d[1])))))
        else:
            out.append((k, (f,)))
    return [repr(x) for x in out]


def nested_unknown(m):
    r = []
    for tag, (nm, t, fl) in sorted(type(m).get_fields().items()):
        v = getattr(m, nm, None)
        for x in (v or []) if fl & pb.FLAG_REPEATED else [] if v is None else [v]:
            if kind(t) == "m":
                body = UNKNOWN[3] + UNKNOWN[1].join(nested_unknown(x)) + UNKNOWN[0]
                r.append(vint(tag * 8 + 2) + vint(len(body)) + body)
            else:
                r.append(enc1(tag, t, x))
    return r


def damage(sub_, item):
    _, name = item
    cls = TYPES[name]
    flds = cls.get_fields()

    def refused(b, key, what):
        for w, f in (("parse_pb_msg", load), ("load_message", load2)):
            r = attempt(lambda: f(b, cls))
            sub_.expect(isinstance(r, Exception), "%s:%s:%s" % (key, w, name), "%s is decoded to %.200r" % (what, r))
        sub_.add(states=1, transitions=1)
    # truncation
    for lab, m in [("full", fill(cls)), ("full2", fill(cls, 0, -1))]:
        want = enc(m)
        b = b"".join(want)
        ends = {0}
        p = 0
        for f in want:
            p += len(f)
            ends.add(p)
        cuts = range(len(b)) if len(b) < 3000 else list(range(300)) + list(range(300, len(b), 37)) + sorted(ends)
        for i in cuts:
            if i not in ends:
                refused(b[:i], "cut:%s:%d" % (lab, i), "a message cut after byte %d" % i)
            elif i < len(b):
                r = attempt(lambda: load(b[:i], cls))
                k = [f for f in want]
                q, n = 0, 0
                while q < i:
                    q += len(want[n])
                    n += 1
                sub_.expect(not isinstance(r, Exception) and enc(r) == k[:n], "prefix:%s:%s:%d" % (name, lab, i), "the first %d fields are decoded to %.200r" % (n, r))
    for tag, (nm, t, fl) in flds.items():
        k = kind(t)
        good = enc1(tag, t, menu(t)[0] if k != "m" else menu(t)[1])
        wt = 0 if k in "usbe" else 2
        for w in range(8):
            if w == wt:
                continue
            for body in (b"\x00", b"\x01\x01", b"\x00" * 8, b"\x02\x00\x00"):
                refused(vint(tag * 8 + w) + body, "wt:%s:%d:%d" % (nm, w, len(body)), "field %s of wire type %d" % (nm, w))
        if wt == 0:
            for over in (b"\xff" * 9 + b"\x02", b"\xff" * 9 + b"\x7f", b"\xff" * 10 + b"\x01", b"\x80" * 10 + b"\x01", b"\xff" * 30 + b"\x01"):
                refused(vint(tag * 8) + over, "over:%s:%d" % (nm, len(over)), "a number over 64 bits in %s" % nm)
        else:
            for more in (1, 5, 2 ** 20):
                body = good[len(vint(tag * 8 + 2)):]
                n = key_of(body)
                body = body[len(vint(n)):]
                refused(vint(tag * 8 + 2) + vint(n + more) + body, "len:%s:%d" % (nm, more), "field %s shorter than its length" % nm)
        if k == "e":
            bad = [x for x in (0, 1, max(t.enum_values) + 1, 127, 128, 2 ** 32) if x not in t.enum_values]
            for x in bad:
                refused(vint(tag * 8) + vint(x), "enum:%s:%d" % (nm, x), "invalid value %d of %s" % (x, nm))
                m = cls()
                setattr(m, nm, [x] if fl & pb.FLAG_REPEATED else x)
                sub_.expect(isinstance(attempt(lambda: dump(m)), Exception), "enumd:%s:%s:%d" % (name, nm, x), "invalid value of %s is encoded" % nm)
        if k == "t":
            for x in (b"\xff", b"\xc3", b"\xed\xa0\x80", b"ok\xfe"):
                refused(vint(tag * 8 + 2) + vint(len(x)) + x, "utf:%s:%s" % (nm, x.hex()), "invalid text in %s" % nm)
        if k == "u":
            m = cls()
            setattr(m, nm, [-1] if fl & pb.FLAG_REPEATED else -1)
            sub_.expect(isinstance(attempt(lambda: dump(m)), Exception), "neg:%s:%s" % (name, nm), "a negative number is encoded")
        if k == "m":
            # nested message ends inside a field / swallows the next field
            inner = b"".join(enc(menu(t)[1]))
            ends, q = {0}, 0
            for f in enc(menu(t)[1]):
                q += len(f)
                ends.add(q)
            for i in range(1, min(len(inner), 400)):
                if i not in ends:
                    refused(vint(tag * 8 + 2) + vint(i) + inner, "nest:%s:%d" % (nm, i), "nested message %s ending inside a field" % nm)
    for w in (1, 3, 4, 5, 6, 7):
        refused(vint(1000 * 8 + w) + b"\x00" * 8, "unkwt:%d" % w, "an unknown field of wire type %d" % w)
    refused(UNKNOWN[3][:-1], "unkcut", "a truncated unknown field")
    refused(vint(1000 * 8) + b"\xff", "unkcut2", "a truncated unknown number")
    refused(vint(1000 * 8), "unkcut3", "an unknown field without value")
    sub_.case("damage:" + name)


# ---- type numbers, schema, converter ---------------------------------------------------
def registry(sub_, item):
    ids = {k: v for k, v in vars(messages.MessageType).items() if isinstance(v, int) and not k.startswith("_")}
    sub_.expect(len(set(ids.values())) == len(ids), "ids", "two messages share a type number")
    for k, v in ids.items():
        c = getattr(messages, k)
        sub_.expect(attempt(lambda: pm.get_message_from_type(v)) is c, "id:" + k, "type number %d is not that of %s" % (v, k))
        sub_.expect(attempt(lambda: pm.get_message_type(c())) == v and attempt(lambda: pm.get_message_type(cls=c)) == v, "idr:" + k, "wrong type number of %s" % k)
        sub_.add(states=1, transitions=1)
    for v in set(range(0, 800)) - set(ids.values()):
        sub_.expect(isinstance(attempt(lambda: pm.get_message_from_type(v)), Exception), "noid:%d" % v, "unassigned type number %d gives a message" % v)
        sub_.add(states=1)
    gold = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p27_schema.json")))
    for n, v in gold["ids"].items():
        sub_.expect(ids.get(n) == v, "gid:" + n, "type number of %s is not that of the device protocol" % n)
    for n, rows in gold["fields"].items():
        c = TYPES.get(n)
        got = [] if c is None else ["%d %s %s%s" % (t, f, KIND.get(ty) or ("e:" + ty.name if isinstance(ty, pb.EnumType) else ty.__name__), "*" if fl else "")
                                    for t, (f, ty, fl) in sorted(c.get_fields().items())]
        miss = [r for r in rows if r not in got]
        sub_.expect(not miss, "schema:" + n, "fields of the device protocol missing or changed: %s" % miss)
        sub_.add(states=1)
    sub_.case("registry")


def converter(sub_, item):
    """MessageConverter against a second copy of the message package standing in for trezorlib"""
    _, names = item
    ensure_tlib()
    import trezorlib
    for name in names:
        cls = TYPES[name]
        for fix in (False, True):
            cv = pm.MessageConverter(fix)
            for lab, mk in (("empty", cls), ("full", lambda: fill(cls)), ("full2", lambda: fill(cls, 0, -1))):
                key = "conv:%s:%s:%s" % (name, lab, fix)
                m = mk()
                t = attempt(lambda: cv.to_trezorlib(mk()))
                if isinstance(t, Exception):
                    sub_.violation(key, "conversion fails: %r" % t)
                    continue
                sub_.expect(in_pkg(t, trezorlib.protobuf.MessageType), key + ":t", "converted message contains objects of the other package")
                sub_.expect(tdump(trezorlib.protobuf, t) == dump(m), key + ":b", "converted message encodes differently")
                r = attempt(lambda: cv.to_phlib(t))
                sub_.expect(not isinstance(r, Exception) and same(r, m), key + ":r", "conversion there and back gives %.200r" % (r,))
                sub_.add(states=1, transitions=2)
        # bytes_fix
        m = fill(cls)
        for f in cls.get_fields().values():
            v = getattr(m, f[0])
            if f[1] is pb.BytesType:
                setattr(m, f[0], [bytearray(x) for x in v] if isinstance(v, list) else bytearray(v))
        r = attempt(lambda: pm.bytes_fix(m))
        sub_.expect(not isinstance(r, Exception) and same(r, fill(cls)), "fix:" + name, "bytes_fix gives %.200r" % (r,))
    sub_.case("converter:" + names[0])


def tdump(p, m):
    w = xmrserialize.MemoryReaderWriter()
    env.run(p.dump_message(w, m))
    return bytes(w.get_buffer())


def in_pkg(m, base):
    if isinstance(m, list):
        return all(in_pkg(x, base) for x in m)
    if isinstance(m, pb.MessageType) or hasattr(type(m), "get_fields"):
        return isinstance(m, base) and all(in_pkg(getattr(m, f[0], None), base) for f in type(m).get_fields().values())
    return True


def ensure_tlib():
    if "trezorlib" in sys.modules:
        return
    root = os.path.join(env.REPO, "monero_glue")
    pk = types.ModuleType("trezorlib")
    pk.__path__ = [root]
    sys.modules["trezorlib"] = pk
    for n in ("protobuf", "messages"):
        setattr(pk, n, importlib.import_module("trezorlib." + n))


def run(chk):
    chk.rule = "decode(encode(m)) == m, encode(m) is standard protobuf, unknown fields are skipped, damaged encodings raise - for every message type and field"
    chk.assumptions = ["field values from a boundary menu; the schema of the device protocol recorded in p27_schema.json", "trezorlib is stood in for by a second copy of the message package"]
    names = sorted(TYPES)
    items = [(roundtrip, n) for n in names] + [(damage, n) for n in names] + [(plain, n) for n in names] + [(registry,)]
    items += [(converter, names[i::8]) for i in range(8)]
    pmap(chk, lambda s, it: it[0](s, it), items, limit=600)
    chk.extra["message_types"] = len(names)
