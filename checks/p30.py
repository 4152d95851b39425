"""P30: elliptic-curve operations against the curve's definition, on both backends.

A register machine: scalars and points are registers holding objects of the code under test next to their mathematical
value (integers mod L; points of the full group, torsion included, computed by mc/ref.py).  All programs of bounded depth
over a pool of boundary operands are executed: level 1 applies every operation to every tuple of pool operands, level 2
applies every operation to all distinct *results* (with their internal, possibly unreduced / unnormalised representation)
and the pool.  After every step the result and the operands (which must not change, in-place forms with every aliasing
included) are compared with the model.  Encodings: boundary field elements with both signs, all lengths."""
import itertools
import json
import os
import subprocess
import sys
import tempfile

from mc import env, ref
from mc.check import pmap, HarnessError
from mc.explore import chunks

env.install_rng()

from monero_glue.xmr import crypto as C
from monero_serialize import xmrserialize

L = ref.L
P = ref.P
B = env.BACKEND


def E(i):
    return ref.enc_sc(i)


S_RAW = [0, 1, 2, 3, 8, 9, 255, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 127, 2 ** 252 - 1, 2 ** 252, L - 1, L, L + 1,
         2 * L - 1, 2 * L, 2 ** 253 - 1, 2 ** 254 + 7, 7 * L + 5, 8 * L - 1, 2 ** 255 - 19, 2 ** 255 - 1, 2 ** 255, 15 * L, 2 ** 256 - 1,
         (L - 1) // 2, pow(8, L - 2, L), ref.hs(b"p30a"), ref.hs(b"p30b"), L - ref.hs(b"p30a")]


def torsion():
    """a generator of the small subgroup"""
    n = 2
    while True:
        try:
            t = ref.mul(ref.dec(n.to_bytes(32, "little")), L)
        except ValueError:
            n += 1
            continue
        if not ref.eq(ref.dbl(ref.dbl(t)), ref.ID):
            return t
        n += 1


T8 = torsion()


def pools(deep):
    sc = [(C.decodeint(x.to_bytes(32, "little")), x % L) for x in S_RAW]
    pts = []
    mults = [0, 1, 2, L - 1, ref.hs(b"p30x")] + ([3, (L - 1) // 2] if deep else [])
    tors = range(8)
    for m in mults:
        for t in tors:
            if m > 3 and t not in (0, 1, 4, 7) and not deep:
                continue
            v = ref.add(ref.mulG(m) if m else ref.ID, ref.mul(T8, t) if t else ref.ID)
            pts.append((C.decodepoint(ref.enc(v)), v))
    pts.append((C.xmr_H(), ref.H))
    pts.append((C.identity(), ref.ID))
    return sc, pts


def sval(o):
    return int.from_bytes(bytes(C.encodeint(o)), "little")


class T:
    """shorthand for expectations"""

    def __init__(self, sub_):
        self.s = sub_

    def sc(self, key, o, want, args=()):
        got = sval(o)
        self.s.add(transitions=1)
        if got != want % L:
            self.s.violation("%s:b%s" % (key, B), "%s gives %x, the definition %x (operands %s)" % (key, got, want % L, ["%x" % a if isinstance(a, int) else a for a in args]))
            return False
        return True

    def pt(self, key, o, want, args=()):
        got = bytes(C.encodepoint(o))
        self.s.add(transitions=1)
        w = ref.enc(want)
        if got != w:
            self.s.violation("%s:b%s" % (key, B), "%s gives %s, the definition %s (operands %s)" % (key, got.hex(), w.hex(), args))
            return False
        return True

    def true(self, key, c, what):
        self.s.add(transitions=1)
        if not c:
            self.s.violation("%s:b%s" % (key, B), what)
        return c

    def raises(self, key, fn, what):
        self.s.add(transitions=1)
        try:
            r = fn()
        except Exception:
            return
        self.s.violation("%s:b%s" % (key, B), "%s is accepted (result %r)" % (what, r))


SC2 = [("sc_add", lambda a, b: a + b), ("sc_sub", lambda a, b: a - b), ("sc_mul", lambda a, b: a * b)]
SC3 = [("sc_mulsub", lambda a, b, c: c - a * b), ("sc_muladd", lambda a, b, c: c + a * b)]


def scalars(sub_, item):
    name, lo, hi, deep = item
    t = T(sub_)
    sc, _ = pools(False)
    part = sc[lo:hi]

    def unchanged(key, regs):
        for i, (o, v) in enumerate(regs):
            t.sc("%s:operand%d" % (key, i), o, v)

    lvl = []
    for (a, va) in part:
        t.sc("decodeint", a, va)
        t.sc("sc_copy", C.sc_copy(None, a), va)
        t.true("sc_isnonzero", bool(C.sc_isnonzero(a)) == (va != 0), "sc_isnonzero(%x)" % va)
        t.true("sc_check", (C.sc_check(a) == 0) == (va != 0), "sc_check(%x) = %r" % (va, C.sc_check(a)))
        if va:
            t.sc("sc_inv", C.sc_inv(a), pow(va, L - 2, L), (va,))
            t.sc("sc_inv_into", C.sc_inv_into(C.new_scalar(), a), pow(va, L - 2, L))
            x = C.decodeint(E(va))
            t.sc("sc_inv_into-alias", C.sc_inv_into(x, x), pow(va, L - 2, L))
        if va < 2 ** 64:
            t.true("sc_get64", C.sc_get64(a) == va, "sc_get64(%x) = %x" % (va, C.sc_get64(a)))
        else:
            t.raises("sc_get64", lambda: C.sc_get64(a), "sc_get64 of a value over 64 bits")
        buf = bytearray(b"\xaa" * 40)
        C.encodeint_into(buf, a, 4)
        t.true("encodeint_into", bytes(buf) == b"\xaa" * 4 + E(va) + b"\xaa" * 4, "encodeint_into at offset writes %s" % buf.hex())
        buf = bytearray(b"\x55" * 7) + E(va) + b"\x55"
        t.sc("decodeint_into", C.decodeint_into(C.new_scalar(), bytes(E(va))), va)
        t.sc("decodeint_into-none", C.decodeint_into_noreduce(None, bytes(E(va))), va)
        lvl.append((a, va))
        for (b, vb) in sc:
            t.true("sc_eq", bool(C.sc_eq(a, b)) == (va == vb), "sc_eq(%x, %x)" % (va, vb))
            for nm, f in SC2:
                r = getattr(C, nm)(a, b)
                if t.sc(nm, r, f(va, vb), (va, vb)):
                    lvl.append((r, f(va, vb) % L))
                t.sc(nm + "_into", getattr(C, nm + "_into")(C.new_scalar(), a, b), f(va, vb), (va, vb))
                t.sc(nm + "_into-none", getattr(C, nm + "_into")(None, a, b), f(va, vb), (va, vb))
                x, y = C.sc_copy(None, a), C.sc_copy(None, b)
                t.sc(nm + "_into-alias1", getattr(C, nm + "_into")(x, x, b), f(va, vb), (va, vb))
                t.sc(nm + "_into-alias2", getattr(C, nm + "_into")(y, a, y), f(va, vb), (va, vb))
                x = C.sc_copy(None, a)
                t.sc(nm + "_into-alias3", getattr(C, nm + "_into")(x, x, x), f(va, va), (va, va))
                unchanged(nm, [(a, va), (b, vb)])
            if not deep and vb in (3, 9, 255, 2 ** 127):
                continue
            for (c, vc) in sc[::1 if deep else 3]:
                for nm, f in SC3:
                    r = getattr(C, nm)(a, b, c)
                    if t.sc(nm, r, f(va, vb, vc), (va, vb, vc)) and vc in (0, 1, L - 1):
                        lvl.append((r, f(va, vb, vc) % L))
                    x = C.sc_copy(None, c)
                    t.sc(nm + "_into-alias", getattr(C, nm + "_into")(x, a, b, x), f(va, vb, vc), (va, vb, vc))
                    x = C.sc_copy(None, a)
                    t.sc(nm + "_into-alias1", getattr(C, nm + "_into")(x, x, b, c), f(va, vb, vc), (va, vb, vc))
                    t.sc(nm + "_into", getattr(C, nm + "_into")(None, a, b, c), f(va, vb, vc), (va, vb, vc))
                unchanged("sc3", [(a, va), (b, vb), (c, vc)])
    # level 2: operations on results (distinct internal representation)
    seen, uniq = set(), []
    for o, v in lvl:
        k = (v, bytes(o) if not hasattr(o, "v") else o.v)
        if k not in seen:
            seen.add(k)
            uniq.append((o, v))
    sub_.add(states=len(uniq))
    pool2 = [x for x in sc if x[1] in (0, 1, 8, L - 1, 2 ** 252, (L - 1) // 2, ref.hs(b"p30a"))]
    for (a, va) in uniq:
        t.true("sc_isnonzero2", bool(C.sc_isnonzero(a)) == (va != 0), "sc_isnonzero of a computed %x" % va)
        if va < 2 ** 64:
            t.true("sc_get64-2", C.sc_get64(a) == va, "sc_get64 of a computed %x" % va)
        t.sc("encode-decode", C.decodeint(C.encodeint(a)), va)
        for (b, vb) in pool2:
            for nm, f in SC2:
                t.sc(nm + "-2", getattr(C, nm)(a, b), f(va, vb), (va, vb))
                t.sc(nm + "-2r", getattr(C, nm)(b, a), f(vb, va), (vb, va))
            t.sc("sc_mulsub-2", C.sc_mulsub(a, b, a), va - va * vb, (va, vb))
            t.sc("sc_muladd-2", C.sc_muladd(b, a, a), va + va * vb, (va, vb))
            t.true("sc_eq-2", bool(C.sc_eq(a, b)) == (va == vb), "sc_eq of computed values %x %x" % (va, vb))
    sub_.case("%s:%d" % (name, len(uniq)))
    sub_.sample({"scalars": ["%x" % v for _, v in part][:3], "level2_registers": len(uniq)})


def encodings(sub_, item):
    t = T(sub_)
    for x in S_RAW + [2 ** i for i in range(0, 256, 5)] + [k * L + d for k in range(16) for d in (-1, 0, 1) if 0 <= k * L + d < 2 ** 256]:
        raw = x.to_bytes(32, "little")
        t.sc("decodeint", C.decodeint(raw), x, (x,))
        t.sc("decodeint-bytearray", C.decodeint(bytearray(raw)), x, (x,))
        t.sc("decodeint_into", C.decodeint_into(None, raw) if B == "0" else C.decodeint_into(C.new_scalar(), raw), x, (x,))
        if x < L:
            t.sc("decodeint_into_noreduce", C.decodeint_into_noreduce(None, raw), x, (x,))
            t.sc("decodeint-offset", C.decodeint(b"\x07" * 5 + raw, 5), x)
            t.sc("decodeint_into-offset", C.decodeint_into(C.new_scalar(), b"\x07" * 5 + raw, 5), x)
            t.true("encodeint", bytes(C.encodeint(C.decodeint(raw))) == raw, "encodeint(decodeint(%x))" % x)
    for n in list(range(0, 32)):
        t.raises("decodeint-len%d" % n, lambda: C.decodeint(b"\x01" * n), "a scalar encoded with %d bytes" % n)
        t.raises("decodepoint-len%d" % n, lambda: C.decodepoint(ref.enc(ref.mulG(5))[:n]), "a point encoded with %d bytes" % n)
        t.raises("decodepoint-zero-len%d" % n, lambda: C.decodepoint(bytes(n)), "a point encoded with %d bytes" % n)
    for x in [0, 1, 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1]:
        t.sc("sc_init", C.sc_init(x), x, (x,))
        t.sc("sc_init_into", C.sc_init_into(None, x), x, (x,))
        t.pt("scalarmult_h", C.scalarmult_h(x), ref.mulH(x), (x,))
        for m in (0, 1, L - 1, ref.hs(b"p30m")):
            t.pt("gen_c", C.gen_c(C.decodeint(E(m)), x), ref.commit(m, x), (m, x))
    for x in (-1, 2 ** 64, 2 ** 64 + 1, 2 ** 70, L):
        t.raises("sc_init:%d" % x, lambda: C.sc_init(x), "sc_init(%d)" % x)
        t.raises("sc_init_into:%d" % x, lambda: C.sc_init_into(None, x), "sc_init_into(%d)" % x)
        t.raises("gen_c:%d" % x, lambda: C.gen_c(C.sc_init(1), x), "a commitment to the amount %d" % x)
    t.sc("sc_0", C.sc_0(), 0)
    t.sc("sc_0_into", C.sc_0_into(C.sc_init(7)), 0)
    t.sc("sc_inv_eight", C.sc_inv_eight(), pow(8, L - 2, L))
    t.pt("identity", C.identity(), ref.ID)
    t.pt("identity_into", C.identity_into(C.xmr_H()), ref.ID)
    t.true("identity-enc", bytes(C.identity(True)) == ref.enc(ref.ID), "encoded identity")
    t.pt("xmr_H", C.xmr_H(), ref.H)
    # points: boundary y with both signs
    ys = list(range(0, 300 if item[1] else 90)) + [P - i for i in range(1, 60)] + [P + i for i in range(0, 19)] + [2 ** 254 + i for i in range(20)] + [2 ** i for i in range(8, 255, 7)]
    ok = bad = 0
    for y in ys:
        for s in (0, 1):
            raw = (y | s << 255).to_bytes(32, "little")
            try:
                v = ref.dec(raw)
            except ValueError:
                v = None
            if v is None:
                bad += 1
                t.raises("decodepoint:%s" % raw.hex(), lambda: C.decodepoint(raw), "the invalid point encoding %s" % raw.hex())
                t.raises("decodepoint_into:%s" % raw.hex(), lambda: C.decodepoint_into(C.new_point(), raw), "the invalid point encoding %s" % raw.hex())
            else:
                ok += 1
                p = C.decodepoint(raw)
                t.pt("decodepoint", p, v, raw.hex())
                t.pt("decodepoint-offset", C.decodepoint(b"\x01\x02" + raw, 2), v, raw.hex())
                t.pt("decodepoint_into", C.decodepoint_into(C.new_point(), raw), v, raw.hex())
                buf = bytearray(b"\xaa" * 36)
                C.encodepoint_into(buf, p, 2)
                t.true("encodepoint_into", bytes(buf) == b"\xaa\xaa" + raw + b"\xaa\xaa", "encodepoint_into at offset")
                C.check_ed25519point(p)
                t.true("frombytes", C.ge_frombytes_vartime_check(p) == 0, "valid point fails the check")
    sub_.case("encodings:%d:%d" % (ok, bad))
    sub_.add(states=ok + bad)


def points(sub_, item):
    name, lo, hi, deep = item
    t = T(sub_)
    sc, pts = pools(deep)
    lvl = []
    spool = [x for x in sc if x[1] in (0, 1, 2, 8, 2 ** 252, L - 1, (L - 1) // 2, ref.hs(b"p30a"), 2 ** 64 - 1)] if not deep else sc
    for i, (p, v) in enumerate(pts):
        if not lo <= i < hi:
            continue
        eh = ref.enc(v).hex()
        t.pt("decode", p, v)
        lvl.append((p, v))
        for nm, w in (("point_double", ref.dbl(v)), ("point_mul8", ref.mul8(v)), ("point_norm", v)):
            r = getattr(C, nm)(p)
            if t.pt(nm, r, w, eh):
                lvl.append((r, w))
        t.pt("point_double_into", C.point_double_into(None, p), ref.dbl(v), eh)
        t.pt("point_mul8_into", C.point_mul8_into(None, p), ref.mul8(v), eh)
        x = C.decodepoint(ref.enc(v))
        t.pt("point_double_into-alias", C.point_double_into(x, x), ref.dbl(v), eh)
        x = C.decodepoint(ref.enc(v))
        t.pt("point_mul8_into-alias", C.point_mul8_into(x, x), ref.mul8(v), eh)
        t.pt("point_mulinv8", C.point_mulinv8(p), ref.mul(v, pow(8, L - 2, L)), eh)
        for (a, va) in spool:
            w = ref.mul(v, va)
            r = C.scalarmult(p, a)
            if t.pt("scalarmult", r, w, (eh, va)):
                lvl.append((r, w))
            t.pt("scalarmult_into", C.scalarmult_into(None, p, a), w, (eh, va))
            x = C.decodepoint(ref.enc(v))
            t.pt("scalarmult_into-alias", C.scalarmult_into(x, x, a), w, (eh, va))
            t.sc("scalarmult:operand", a, va)
            t.pt("scalarmult:operand-point", p, v)
            for (b, vb) in spool[::2]:
                w2 = ref.add(ref.mulG(va) if va else ref.ID, ref.mul(v, vb))
                t.pt("add_keys2", C.add_keys2(a, b, p), w2, (va, vb, eh))
                t.pt("add_keys2_into", C.add_keys2_into(C.new_point(), a, b, p), w2, (va, vb, eh))
                w3 = ref.add(ref.mul(v, va), ref.mulG(vb) if vb else ref.ID)
                t.pt("double_scalarmult", C.ge_double_scalarmult_base_vartime(a, p, b), w3, (va, vb, eh))
                w4 = ref.add(ref.mul(v, va), ref.mulH(vb) if vb else ref.ID)
                t.pt("add_keys3", C.add_keys3(a, p, b, C.xmr_H()), w4, (va, vb, eh))
                t.pt("add_keys3_into", C.add_keys3_into(C.new_point(), a, p, b, C.xmr_H()), w4, (va, vb, eh))
                t.pt("double_scalarmult2", C.ge_double_scalarmult_base_vartime2(a, p, b, C.xmr_H()), w4, (va, vb, eh))
        for (q, u) in pts:
            uh = ref.enc(u).hex()
            r = C.point_add(p, q)
            if t.pt("point_add", r, ref.add(v, u), (eh, uh)):
                lvl.append((r, ref.add(v, u)))
            r = C.point_sub(p, q)
            if t.pt("point_sub", r, ref.sub(v, u), (eh, uh)):
                lvl.append((r, ref.sub(v, u)))
            for nm, w in (("point_add", ref.add(v, u)), ("point_sub", ref.sub(v, u))):
                f = getattr(C, nm + "_into")
                t.pt(nm + "_into", f(None, p, q), w, (eh, uh))
                x, y = C.decodepoint(ref.enc(v)), C.decodepoint(ref.enc(u))
                t.pt(nm + "_into-alias1", f(x, x, q), w, (eh, uh))
                t.pt(nm + "_into-alias2", f(y, p, y), w, (eh, uh))
            x = C.decodepoint(ref.enc(v))
            t.pt("point_add_into-alias3", C.point_add_into(x, x, x), ref.dbl(v), eh)
            t.true("point_eq", bool(C.point_eq(p, q)) == ref.eq(v, u), "point_eq(%s, %s)" % (eh, uh))
            t.pt("operand", p, v)
            t.pt("operand", q, u)
    # level 2: on results, with their internal representation
    seen, uniq = set(), []
    for o, v in lvl:
        k = bytes(o) if not hasattr(o, "v") else repr(o.v)
        if k not in seen:
            seen.add(k)
            uniq.append((o, v))
    sub_.add(states=len(uniq))
    small = [pts[0], pts[1], pts[8], pts[9], pts[-2]]
    for (o, v) in uniq:
        C.check_ed25519point(o)
        t.pt("norm-2", C.point_norm(o), v)
        t.pt("double-2", C.point_double(o), ref.dbl(v))
        t.pt("mul-2", C.scalarmult(o, sc[-2][0]), ref.mul(v, sc[-2][1]))
        t.pt("copy-2", C.decodepoint(C.encodepoint(o)), v)
        for (q, u) in small:
            t.pt("add-2", C.point_add(o, q), ref.add(v, u))
            t.pt("sub-2", C.point_sub(q, o), ref.sub(u, v))
            t.true("eq-2", bool(C.point_eq(o, q)) == ref.eq(v, u), "point_eq of a computed point")
        w = C.decodepoint(ref.enc(v))
        t.true("eq-self", bool(C.point_eq(o, w)) and bool(C.point_eq(w, o)), "a computed point differs from its own encoding")
    sub_.case("%s:%d" % (name, len(uniq)))
    sub_.sample({"points": hi - lo, "level2_registers": len(uniq)})


def base(sub_, item):
    t = T(sub_)
    sc, _ = pools(False)
    for x in S_RAW + [2 ** i for i in range(0, 253, 3)] + [2 ** i - 1 for i in range(1, 253, 7)]:
        a = C.decodeint(x.to_bytes(32, "little"))
        w = ref.mulG(x % L) if x % L else ref.ID
        t.pt("scalarmult_base", C.scalarmult_base(a), w, (x,))
        t.pt("scalarmult_base_into", C.scalarmult_base_into(None, a), w, (x,))
        t.true("public_key", bytes(C.public_key(a)) == ref.enc(w), "public_key(%x)" % x)
        t.pt("scalarmult_h", C.scalarmult_h(a), ref.mulH(x % L) if x % L else ref.ID, (x,))
        t.sc("operand", a, x)
    hp = C.gen_Hpow(64)
    for i in range(64):
        t.pt("gen_Hpow", hp[i], ref.mulH(2 ** i), (i,))
    for n in list(range(0, 301)) + [1000, 4096]:
        d = bytes((i * 7 + n) & 255 for i in range(n))
        t.sc("hash_to_scalar", C.hash_to_scalar(d), ref.hs(d), (n,))
        t.sc("hash_to_scalar_into", C.hash_to_scalar_into(C.new_scalar(), d), ref.hs(d), (n,))
        t.true("cn_fast_hash", bytes(C.cn_fast_hash(d)) == ref.keccak(d), "hash of %d bytes" % n)
    for n in range(40 if not item[1] else 400):
        d = ref.keccak(b"hp%d" % n) if n > 3 else [bytes(32), b"\xff" * 32, ref.enc(ref.ID), ref.enc(ref.G)][n]
        t.pt("hash_to_point", C.hash_to_point(d), ref.hash_to_point(d), d.hex())
        t.pt("hash_to_point_into", C.hash_to_point_into(C.new_point(), d), ref.hash_to_point(d), d.hex())
    sub_.case("base")
    sub_.add(states=1)


def derive(sub_, item):
    t = T(sub_)
    idxs = [0, 1, 2, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21, 2 ** 31, 2 ** 32 - 1]
    secs = [1, 8, L - 1, ref.hs(b"d1"), ref.hs(b"d2")]
    pubs = [ref.mulG(1), ref.mulG(ref.hs(b"d3")), ref.H, ref.add(ref.mulG(ref.hs(b"d4")), T8), ref.mul(T8, 1), ref.ID]
    for s in secs:
        so = C.decodeint(E(s))
        for v in pubs:
            po = C.decodepoint(ref.enc(v))
            d = ref.derivation(v, s)
            do = C.generate_key_derivation(po, so)
            t.pt("generate_key_derivation", do, ref.dec(d), (s, ref.enc(v).hex()))
            for i in idxs:
                hsx = ref.deriv_scalar(d, i)
                t.sc("derivation_to_scalar", C.derivation_to_scalar(do, i), hsx, (i,))
                t.sc("derive_secret_key", C.derive_secret_key(do, i, so), hsx + s, (i,))
                t.pt("derive_public_key", C.derive_public_key(do, i, po), ref.add(ref.mulG(hsx), v), (i,))
            for i in (-1, 2 ** 32, 2 ** 32 + 1, 2 ** 64):
                # an index the encoding cannot carry is refused or used in full, never cut to a different one
                for nm, fn in (("derivation_to_scalar", lambda: C.derivation_to_scalar(do, i)),
                               ("derive_secret_key", lambda: C.derive_secret_key(do, i, so)),
                               ("derive_public_key", lambda: C.derive_public_key(do, i, po))):
                    try:
                        r = fn()
                    except Exception:
                        t.s.add(transitions=1)
                        continue
                    if i < 0:
                        t.true("%s-index%d" % (nm, i), False, "%s accepts the index %d" % (nm, i))
                        continue
                    hsx = ref.deriv_scalar(d, i)
                    if nm == "derivation_to_scalar":
                        t.sc("%s-index%d" % (nm, i), r, hsx, (i,))
                    elif nm == "derive_secret_key":
                        t.sc("%s-index%d" % (nm, i), r, hsx + s, (i,))
                    else:
                        t.pt("%s-index%d" % (nm, i), r, ref.add(ref.mulG(hsx), v), (i,))
        for ma in (0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1):
            for mi in (0, 1, 255, 256, 2 ** 31, 2 ** 32 - 1):
                t.sc("get_subaddress_secret_key", C.get_subaddress_secret_key(so, ma, mi), ref.subaddr_m(s, ma, mi), (ma, mi))
        for ma, mi in ((2 ** 32, 1), (1, 2 ** 32), (2 ** 32 + 1, 0), (-1, 0), (0, -1)):
            t.raises("subaddr:%d.%d" % (ma, mi), lambda: C.get_subaddress_secret_key(so, ma, mi), "the subaddress index (%d, %d)" % (ma, mi))
    z = C.sc_0()
    t.raises("derivation-zero", lambda: C.generate_key_derivation(C.xmr_H(), z), "a zero secret key in a derivation")
    for data in (b"", b"x", bytes(100)):
        for s in secs:
            so = C.decodeint(E(s))
            c, r, pub = C.generate_signature(data, so)
            t.true("signature", C.check_signature(data, c, r, pub), "an honest signature does not verify")
            vc, vr = sval(c), sval(r)
            good = ref.hs(data + ref.enc(ref.mulG(s)) + ref.enc(ref.add(ref.mulG(s * vc), ref.mulG(vr)))) == vc
            t.true("signature-ref", good, "signature does not satisfy its equation")
            for nm, fn in (("c", lambda: C.check_signature(data, C.sc_add(c, C.sc_init(1)), r, pub)), ("r", lambda: C.check_signature(data, c, C.sc_add(r, C.sc_init(1)), pub)),
                           ("data", lambda: C.check_signature(data + b"y", c, r, pub)), ("pub", lambda: C.check_signature(data, c, r, C.point_add(pub, C.xmr_H())))):
                t.true("signature-" + nm, not fn(), "a signature with a changed %s verifies" % nm)
    sub_.case("derive")
    sub_.add(states=1, traces=len(secs) * len(pubs))


def run(chk):
    chk.rule = "every result equals the definition for every operand tuple; distinct = operand groups and register counts"
    deep = chk.thorough
    native = B == "1"
    if native:
        jobs = [("sc%d" % i, i, i + 2, deep) for i in range(0, len(S_RAW), 2)]
    else:
        jobs = [("sc%d" % i, i, i + 2, deep) for i in range(0, len(S_RAW), 2)]
    pmap(chk, scalars, jobs, limit=800)
    n = len(pools(deep)[1])
    pmap(chk, points, [("pt%d" % i, i, i + 1, deep) for i in range(n)], limit=800)
    pmap(chk, _one, [("encodings", deep), ("base", deep), ("derive", deep)], limit=800)
    chk.traces += chk.transitions
    chk.extra["bounds"] = "programs of depth 2 over %d scalars and %d points (torsion included), every aliasing of in-place forms; both backends" % (len(S_RAW), n)
    chk.assumptions = ["mc/ref.py's curve arithmetic (affine definition, self-tested against published vectors)."]
    from mc import both
    both.other_backend(chk, "P30")


def _one(sub_, item):
    {"encodings": encodings, "base": base, "derive": derive}[item[0]](sub_, item)
