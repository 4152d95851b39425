"""P37: vectors of the range-proof code.

Lazily evaluated vectors (powers, seeded masks, r0, two-powers table) are explored as state machines: every sequence of reads (and rewind / reset / state
dump) up to a depth must yield exactly element i or be refused, also after a refusal. Storage vectors (plain and chunked): every sequence of writes, resizes,
re-initialisation and slices against a plain list. Vector arithmetic: every function on all sizes up to a bound, both representations, in place and into another
vector at every offset, against integer arithmetic and an independent curve implementation."""
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C
from monero_glue.xmr import bulletproof as bp
from checks.p36 import attempt, Gen, SEED

L = ref.L
SC = [0, 1, 2, L - 1] + [int.from_bytes(ref.keccak(b"sc%d" % i), "little") % L for i in range(40)]


def b32(n):
    return (n % L).to_bytes(32, "little")


def kv(vals, chunk=False):
    if chunk:
        # a chunked vector; only multiples of the chunk size exist
        v = bp.KeyV(len(vals))
        assert v.chunked
    else:
        v = bp.KeyV(buffer=bytearray(b"".join(vals)), elems=len(vals)) if vals else bp.KeyV(0)
    for i, x in enumerate(vals):
        v.read(i, x)
    return v


def val(v, raw):
    return bytes(C.encodeint(v)) if raw else bytes(v)


# ---- lazily evaluated vectors -------------------------------------------------------------
def make(kind, raw, size):
    """constructor, expected elements, allowed(last, i)"""
    x, y, z = SC[7], SC[8], SC[9]
    if kind.startswith("pow"):
        x = {"pow": x, "pow0": 0, "pow1": 1, "powm": L - 1}[kind]
        return (lambda: bp.KeyVPowers(size, b32(x), raw=raw)), [b32(pow(x, i, L)) for i in range(size)], lambda last, i: i in (0, 1, last, last + 1)
    if kind in ("mask", "maskn"):
        g = Gen(SEED)
        e = [b32(int.from_bytes(g.take(32), "little")) for _ in range(size)]
        return (lambda: bp.KeyVPrngMask(size, SEED, raw=raw, allow_nonlinear=kind == "maskn")), e, \
            lambda last, i: kind == "maskn" or i in (0, last, last + 1)
    if kind.startswith("r0"):
        N = int(kind[2:])
        ar = [SC[1], 0, L - 1, SC[10], SC[11], SC[12], 5][:size]
        e = [b32((ar[i] + z) * pow(y, i, L) + pow(z, 2 + i // N, L) * pow(2, i % N, L)) for i in range(size)]
        return (lambda: bp.KeyR0(size, N, kv([b32(a) for a in ar]), b32(y), b32(z), raw=raw)), e, lambda last, i: i in (0, last, last + 1)
    if kind == "ztwo":
        zp, tw = [b32(pow(z, i, L)) for i in range(6)], [b32(2 ** i) for i in range(2)]
        e = [b32(pow(z, 2 + i // 2, L) * pow(2, i % 2, L)) for i in range(6)]
        return (lambda: bp.KeyVZtwo(2, 1, 3, kv(zp), kv(tw), raw=raw)), e, lambda last, i: True
    if kind == "eval":
        e = [b32(SC[i + 3]) for i in range(size)]
        if raw:
            return (lambda: bp.KeyVEval(size, lambda i, d: C.decodeint_into(d, e[i]), raw=True)), e, lambda last, i: True
        return (lambda: bp.KeyVEval(size, lambda i, d: bp.memcpy(d, 0, e[i], 0, 32))), e, lambda last, i: True
    if kind == "precomp":
        e = [b32(SC[i + 3]) for i in range(size)]
        return (lambda: bp.KeyVPrecomp(size, kv(e[:2]), lambda i, d: bp.memcpy(d, 0, e[i], 0, 32))), e, lambda last, i: True
    if kind == "slice":
        e = [b32(SC[i + 3]) for i in range(size + 3)]
        return (lambda: bp.KeyVSliced(kv(e), 2, 2 + size)), e[2:2 + size], lambda last, i: True
    if kind == "const":
        return (lambda: bp.KeyVConst(size, b32(SC[8]))), [b32(SC[8])] * size, lambda last, i: True
    raise KeyError(kind)


RAW = ["pow", "pow0", "mask", "maskn", "r02", "r01", "r03", "eval"]
PLAIN = RAW + ["pow1", "powm", "ztwo", "precomp", "slice", "const"]


def lazy(sub, job):
    kind, raw, depth, first = job
    size = 5 if kind != "ztwo" else 6
    mk, exp, allowed = make(kind, raw, size)
    known = kind in ("maskn", "ztwo", "eval", "precomp", "slice", "const")
    reads = [("g", i) for i in range(size)] + [("g", -1), ("g", size), ("g", -size - 1)]
    if not raw and kind != "eval":
        reads += [("t", 2), ("to", 3)]
    extra = []
    if kind.startswith("pow"):
        extra = [("rew", 1), ("rew", 2), ("dump",)]
    if kind.startswith(("mask", "r0", "pow")):
        extra.append(("reset",))
    ops = reads + extra
    for tail in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + tail
        v = mk()
        last, started = 0, False
        for n, op in enumerate(seq, 1):
            k = op[0]
            if k == "rew":
                if last + op[1] >= size or not started:
                    break     # beyond the end / before the first read: no meaning
                v.rewind(op[1])
                last += op[1]
                # a following read of the same index returns the current element
                continue
            if k == "reset":
                v.reset()
                started = True
                if kind.startswith("pow"):
                    last = 0
                elif kind.startswith("mask"):
                    v[0]
                    last = 0
                else:
                    v[0]
                    last = 0
                continue
            if k == "dump":
                st = attempt(lambda: v.sdump())
                if st[0]:
                    sub.violation("dump:%s" % kind, "%r" % (st[1],))
                    break
                cur, idx = st[1]
                v2 = mk()
                v2.sload((C.sc_copy(None, cur) if raw else bytearray(cur), idx))
                v = v2
                continue
            i = op[1]
            bf = bytearray(b"\x77" * 36)
            if k == "g":
                r = attempt(lambda: val(v[i], raw))
            elif k == "t":
                r = attempt(lambda: bytes(v.to(i)))
            else:
                r = attempt(lambda: (v.to(i, bf, 2), bytes(bf))[1])
            sub.add(states=1, transitions=1)
            j = i + size if i < 0 else i
            key = "%s:%d:%s" % (kind, raw, seq[:n])
            if r[0]:
                if not isinstance(r[1], IndexError):
                    sub.violation(key, "read raised %r" % (r[1],))
                    break
                if 0 <= j < size and (known or allowed(last, j) and kind != "none"):
                    sub.violation(key, "element %d refused after %s" % (i, seq[:n - 1]))
                    break
                continue
            if not 0 <= j < size:
                if kind == "const" :
                    continue        # a constant has the same value everywhere
                sub.violation(key, "index %d out of range was answered" % i)
                break
            e = exp[j] if k != "to" else b"\x77" * 2 + exp[j] + b"\x77" * 2
            if r[1] != e:
                sub.violation(key, "element %d is wrong after %s" % (i, seq[:n - 1]))
                break
            last, started = j, True
    sub.case((kind, raw, repr(first)))


# ---- storage -------------------------------------------------------------------------------
def storage(sub, job):
    size, depth, first = job
    CH = bp.KeyV.chunk_size()
    sizes = [1, 4, CH - 1, CH, CH + 1, 2 * CH, 3 * CH]
    ops = [("set", 0), ("set", -1), ("read", 1), ("shrink", 1), ("shrink", CH), ("shrink", 2 * CH), ("chop", 2), ("grow", 3 * CH), ("realloc", 5),
           ("realloc", 2 * CH), ("from", 3, 0), ("from", 3, CH - 1), ("from", CH, 1), ("from", 2 * CH, 0), ("dump",), ("slice",)]
    src_vals = [ref.keccak(b"src%d" % i) for i in range(4 * CH)]
    for tail in itertools.product(ops, repeat=depth - 1):
        seq = (first,) + tail
        m = [ref.keccak(b"v%d" % i) for i in range(size)]
        v = bp.KeyV(size)
        for i, x in enumerate(m):
            if i % 2:
                v.read(i, x)
            else:
                v[i] = x
        for n, op in enumerate(seq, 1):
            k = op[0]
            r = (False, None)
            if k == "set":
                x = ref.keccak(b"set%d" % n)
                r = attempt(lambda: v.__setitem__(op[1], x))
                m[op[1]] = x
            elif k == "read":
                x = ref.keccak(b"read%d" % n)
                if len(m) < 2:
                    break
                r = attempt(lambda: v.read(1, b"zzz" + x, 3))
                m[1] = x
            elif k in ("shrink", "chop", "grow"):
                t = op[1]
                if (k == "grow") != (t > len(m)) or t == len(m):
                    break
                r = attempt(lambda: v.resize(t, chop=k == "chop"))
                if r[0] and isinstance(r[1], ValueError):
                    break
                # what was added, or kept over a discarding resize, is not specified
                m = m[:t] if k == "shrink" else [None] * t
            elif k == "realloc":
                r = attempt(lambda: v.realloc(op[1]))
                m = [None] * op[1]
            elif k == "from":
                for chunked in (True, False):
                    s = bp.KeyV(4 * CH) if chunked else bp.KeyV(4 * CH + 1)
                    for i, x in enumerate(src_vals):
                        s.read(i, x)
                    r = attempt(lambda: v.realloc_init_from(op[1], s, op[2]))
                    m = src_vals[op[2]:op[2] + op[1]]
                    if r[0] or [bytes(v.to(i)) for i in range(len(m))] != m:
                        sub.violation("store:%d:%s:%s" % (size, seq[:n], chunked), "initialisation from another vector: %r" % (r[1],))
                        return
            elif k == "dump":
                st = v.sdump()
                v = bp.KeyV(1, no_init=True)
                r = attempt(lambda: v.sload(st))
            elif k == "slice":
                h = len(m) // 2
                s = v.slice_view(h, len(m))
                r = attempt(lambda: ([bytes(s.to(i)) for i in range(len(s))], len(s)))
                sub.add(states=1, transitions=1)
                if not r[0] and (r[1][1] != len(m) - h or any(a is not None and a != b for a, b in zip(m[h:], r[1][0]))):
                    sub.violation("slice:%d:%s" % (size, seq[:n]), "slice differs")
                    break
                if len(s):
                    x = ref.keccak(b"sl%d" % n)
                    s.read(0, x)
                    m[h] = x
            key = "store:%d:%s" % (size, seq[:n])
            sub.add(states=1, transitions=1)
            if r[0]:
                sub.violation(key, "raised %r" % (r[1],))
                break
            if len(v) != len(m):
                sub.violation(key, "length %d instead of %d" % (len(v), len(m)))
                break
            bad = None
            for i in range(len(m)):
                bf = bytearray(34)
                a = attempt(lambda: (bytes(v[i]), bytes(v.to(i)), bytes(v.to(i, bf, 1)[1:33])))
                if a[0] or m[i] is not None and set(a[1]) != {m[i]}:
                    bad = i, a[1]
                    break
            if bad:
                sub.violation(key, "element %r: %r" % bad)
                break
            oob = attempt(lambda: v[len(m)]), attempt(lambda: v.to(-len(m) - 1))
            if not (oob[0][0] and oob[1][0]):
                sub.violation(key, "index out of range answered")
                break
            it = attempt(lambda: [bytes(x) for x in v])
            if it[0] or len(it[1]) != len(m) or any(a is not None and a != b for a, b in zip(m, it[1])):
                sub.violation(key, "iteration differs %r" % (it[0],))
                break
    sub.case(("storage", size, repr(first)))


# ---- arithmetic ------------------------------------------------------------------------------
def ints(n, off=0, stride=1):
    return [SC[(off + i * stride) % len(SC)] for i in range(n)]


def out(v):
    return [bytes(v.to(i)) for i in range(len(v))]


def chk_eq(sub, key, fn, exp):
    r = attempt(fn)
    sub.add(states=1, transitions=1)
    if r[0]:
        sub.violation(key, "raised %r" % (r[1],))
    elif r[1] != exp:
        sub.violation(key, "wrong result")


def arith(sub, job):
    n, off = job
    a, b, c, d = (ints(n, off + k) for k in (0, 5, 11, 17))
    A, B, Cc, D = ([b32(x) for x in v] for v in (a, b, c, d))
    ch = n > bp.KeyV.chunk_size() and n % bp.KeyV.chunk_size() == 0
    V = lambda x: kv(x, ch)
    k = "%d:%d" % (n, off)
    x, y = SC[(off + 3) % len(SC)], SC[(off + 9) % len(SC)]
    dirty = lambda m: V([b"\xfe" * 32] * m) if m == n or not ch else kv([b"\xfe" * 32] * m)
    for dst in (None, 1):
        D_ = (lambda m: dirty(m)) if dst else (lambda m: None)
        dk = (lambda: bytearray(b"\xaa" * 32)) if dst else (lambda: None)
        for fn, e in (("_vector_add", [b32(p + q) for p, q in zip(a, b)]), ("_vector_subtract", [b32(p - q) for p, q in zip(a, b)])):
            chk_eq(sub, "%s:%s:%s" % (fn, k, dst), lambda: out(getattr(bp, fn)(V(A), V(B), D_(n))), e)
            chk_eq(sub, "%s:alias:%s" % (fn, k), lambda: (lambda v: out(getattr(bp, fn)(v, V(B), v)))(V(A)), e)
        if not ch:
            chk_eq(sub, "vscalar:%s:%s" % (k, dst), lambda: out(bp._vector_scalar(V(A), b32(x), D_(n))), [b32(p * x) for p in a])
        chk_eq(sub, "powers:%s:%s" % (k, dst), lambda: out(bp._vector_powers(b32(x), n, D_(n))), [b32(pow(x, i, L)) for i in range(n)])
        chk_eq(sub, "powersum:%s:%s" % (k, dst), lambda: bytes(bp._vector_power_sum(b32(x), n, dk())), b32(sum(pow(x, i, L) for i in range(n))))
        chk_eq(sub, "inner:%s:%s" % (k, dst), lambda: bytes(bp._inner_product(V(A), V(B), dk())), b32(sum(p * q for p, q in zip(a, b))))
        chk_eq(sub, "vsum:%s:%s" % (k, dst), lambda: bytes(bp._vector_sum(V(A), dk())), b32(sum(a)))
        chk_eq(sub, "dup:%s:%s" % (k, dst), lambda: out(bp._vector_dup(b32(x), n, D_(n))), [b32(x)] * n)
    chk_eq(sub, "innerself:%s" % k, lambda: bytes((lambda v: bp._inner_product(v, v))(V(A))), b32(sum(p * p for p in a)))
    chk_eq(sub, "inner-sizes:%s" % k, lambda: attempt(lambda: bp._inner_product(V(A), kv(B + [b32(1)])))[0], True)
    chk_eq(sub, "cross:%s" % k, lambda: tuple(bytes(t) for t in bp._cross_inner_product(V(A), V(B), V(Cc), V(D))),
           (b32(sum(p * s + r * q for p, q, r, s in zip(a, b, c, d))), b32(sum(r * s for r, s in zip(c, d)))))
    chk_eq(sub, "powers-dyn:%s" % k, lambda: [bytes(t) for t in bp._vector_powers(b32(x), n, dynamic=True)], [b32(pow(x, i, L)) for i in range(n)])
    # folding: in place, into the beginning, into an offset, with a separate right half
    if n % 2 == 0 and n:
        h = n // 2
        e = [b32(x * a[i] + y * a[h + i]) for i in range(h)]
        chk_eq(sub, "fold:%s" % k, lambda: out(bp._scalar_fold(V(A), b32(x), b32(y)))[:h], e)
        chk_eq(sub, "fold-rest:%s" % k, lambda: out(bp._scalar_fold(V(A), b32(x), b32(y)))[h:], A[h:])
        for o in range(0, 3):
            chk_eq(sub, "fold-into:%s:%d" % (k, o), lambda: out(bp._scalar_fold(V(A), b32(x), b32(y), into=kv([b"\xfe" * 32] * (h + 3)), into_offset=o)),
                   [b"\xfe" * 32] * o + e + [b"\xfe" * 32] * (3 - o))
            if o + h <= n:
                chk_eq(sub, "fold-vR:%s:%d" % (k, o), lambda: out(bp._scalar_fold(V(A), b32(x), b32(y), vR=V(B), vRoff=o))[:h],
                       [b32(x * a[i] + y * b[i + o]) for i in range(h)])
        chk_eq(sub, "fold-full:%s" % k, lambda: out(bp._scalar_fold(kv(A[:h]), b32(x), b32(y), vR=kv(A[h:]), full_v=True)), e)
    # scalar primitives
    for i, (p, q, r) in enumerate(zip(a, b, c)):
        for alias in (False, True):
            kk = "%s:%d:%s" % (k, i, alias)
            for nm, f, e in (("_sc_add", lambda dd, P, Q: bp._sc_add(dd, P, Q), p + q), ("_sc_sub", lambda dd, P, Q: bp._sc_sub(dd, P, Q), p - q),
                             ("_sc_mul", lambda dd, P, Q: bp._sc_mul(dd, P, Q), p * q),
                             ("_sc_muladd", lambda dd, P, Q: bp._sc_muladd(dd, P, Q, b32(r)), p * q + r),
                             ("_sc_mulsub", lambda dd, P, Q: bp._sc_mulsub(dd, P, Q, b32(r)), r - p * q)):
                def go():
                    P = bytearray(b32(p))
                    return bytes(f(P if alias else bytearray(b"\x99" * 32), P, b32(q)))
                chk_eq(sub, nm + ":" + kk, go, b32(e))
        if p:
            chk_eq(sub, "invert:%s:%d" % (k, i), lambda: bytes(bp._invert(None, b32(p))), b32(pow(p, -1, L)))
    sub.case(("arith", n, off))


def zt(sub, _=None):
    z, t = [b32(pow(SC[8], i, L)) for i in range(12)], [b32(2 ** i) for i in range(8)]
    for logN in range(0, 4):
        N = 1 << logN
        for M in range(1, 5):
            e = [b32(pow(SC[8], 2 + i // N, L) * 2 ** (i % N)) for i in range(N * M)]
            if N * M <= 16:
                chk_eq(sub, "ztwo:%d:%d" % (logN, M), lambda: out(bp._vector_z_two(N, logN, M, kv(z), kv(t))), e)
            chk_eq(sub, "ztwo-dyn:%d:%d" % (logN, M), lambda: [bytes(q) for q in bp._vector_z_two(N, logN, M, kv(z), kv(t), dynamic=True)], e)
    for v in [0, 1, L - 1, L, L + 1, 2 * L, 2 ** 252, 2 ** 255 - 1, 2 ** 256 - 1]:
        chk_eq(sub, "reduced:%x" % v, lambda: bool(bp._is_reduced(v.to_bytes(32, "little"))), v < L)
    sub.case("zt")


def pts(n, off):
    return [ref.mulG(3 + off + 7 * i) if (i + off) % 5 else ref.ID for i in range(n)]


def points(sub, job):
    n, off = job
    a, b = ints(n, off), ints(n, off + 5)
    P, Q = pts(n, off), pts(n, off + 1)
    A, B = [b32(v) for v in a], [b32(v) for v in b]
    EP, EQ = [ref.enc(p) for p in P], [ref.enc(p) for p in Q]
    x, y = SC[(off + 3) % len(SC)], SC[(off + 9) % len(SC)]
    k = "%d:%d" % (n, off)

    def msum(*ts):
        s = ref.ID
        for cs, ps in ts:
            for c, p in zip(cs, ps):
                s = ref.add(s, ref.mul(p, c))
        return ref.enc(s)
    for dst in (None, bytearray(b"\xaa" * 32)):
        chk_eq(sub, "sum_aA:%s" % k, lambda: bytes(bp._vector_sum_aA(dst, kv(A), kv(EP))), msum((a, P)))
        chk_eq(sub, "custom:%s" % k, lambda: bytes(bp._vector_exponent_custom(kv(EP), kv(EQ), kv(A), kv(B), dst)), msum((a, P), (b, Q)))
    raws = lambda E: bp.KeyVEval(n, lambda i, d: C.decodeint_into(d, E[i]), raw=True)
    chk_eq(sub, "custom-raw:%s" % k, lambda: bytes(bp._vector_exponent_custom(kv(EP), kv(EQ), kv(A), None, None, None, raws(B))), msum((a, P), (b, Q)))
    chk_eq(sub, "custom-raw2:%s" % k, lambda: bytes(bp._vector_exponent_custom(kv(EP), kv(EQ), None, kv(B), None, raws(A), None)), msum((a, P), (b, Q)))
    chk_eq(sub, "vscalar2:%s" % k, lambda: out(bp._vector_scalar2(kv(EP), b32(x))), [ref.enc(ref.mul(p, x)) for p in P])
    if n % 2 == 0 and n:
        h = n // 2
        e = [ref.enc(ref.add(ref.mul(P[i], x), ref.mul(P[h + i], y))) for i in range(h)]
        for nm in ("_hadamard_fold", "_hadamard_fold_linear"):
            f = getattr(bp, nm)
            chk_eq(sub, "%s:%s" % (nm, k), lambda: out(f(kv(EP), b32(x), b32(y))), e + EP[h:])
            for o in (0, 2):
                chk_eq(sub, "%s-into:%s:%d" % (nm, k, o), lambda: out(f(kv(EP), b32(x), b32(y), into=kv([b"\xfe" * 32] * (h + 2)), into_offset=o)),
                       [b"\xfe" * 32] * o + e + [b"\xfe" * 32] * (2 - o))
        for o in range(0, n - h + 1):
            chk_eq(sub, "fold-vR:%s:%d" % (k, o), lambda: out(bp._hadamard_fold(kv(EP), b32(x), b32(y), vR=kv(EQ), vRoff=o))[:h],
                   [ref.enc(ref.add(ref.mul(P[i], x), ref.mul(Q[i + o], y))) for i in range(h)])
        chk_eq(sub, "fold-full:%s" % k, lambda: out(bp._hadamard_fold(kv(EP[:h]), b32(x), b32(y), vR=kv(EP[h:]), full_v=True)), e)
    for i in range(n):
        for nm, f, e in (("_add_keys", lambda dd: bp._add_keys(dd, EP[i], EQ[i]), ref.add(P[i], Q[i])),
                         ("_sub_keys", lambda dd: bp._sub_keys(dd, EP[i], EQ[i]), ref.add(P[i], ref.neg(Q[i]))),
                         ("_add_keys2", lambda dd: bp._add_keys2(dd, A[i], B[i], EP[i]), ref.add(ref.mulG(a[i]), ref.mul(P[i], b[i]))),
                         ("_add_keys3", lambda dd: bp._add_keys3(dd, A[i], EP[i], B[i], EQ[i]), ref.add(ref.mul(P[i], a[i]), ref.mul(Q[i], b[i]))),
                         ("_scalarmult_key", lambda dd: bp._scalarmult_key(dd, EP[i], A[i]), ref.mul(P[i], a[i])),
                         ("_scalarmultH", lambda dd: bp._scalarmultH(dd, A[i]), ref.mulH(a[i])),
                         ("_scalarmult_base", lambda dd: bp._scalarmult_base(dd, A[i]), ref.mulG(a[i]))):
            for dd in (None, bytearray(b"\x31" * 32)):
                chk_eq(sub, "%s:%s:%d:%s" % (nm, k, i, dd is None), lambda: bytes(f(dd)), ref.enc(e))
    sub.case(("points", n, off))


def work(sub, job):
    globals()[job[0]](sub, job[1])


def firsts(kind, raw):
    size = 5 if kind != "ztwo" else 6
    o = [("g", i) for i in range(size)] + [("g", -1), ("g", size)]
    return o + ([("t", 2)] if not raw and kind != "eval" else [])


def run(chk):
    chk.rule = __doc__
    deep = chk.thorough
    py = env.BACKEND == "0"
    jobs = []
    for kinds, raw in ((RAW, 1), (PLAIN, 0)):
        for k in kinds:
            d = 2 if k in ("ztwo", "eval", "precomp", "slice", "const") else 3 if py else 5 if deep else 4
            jobs += [("lazy", (k, raw, d, f)) for f in firsts(k, raw)]
    CH = bp.KeyV.chunk_size()
    ops = [("set", 0), ("set", -1), ("read", 1), ("shrink", 1), ("shrink", CH), ("shrink", 2 * CH), ("chop", 2), ("grow", 3 * CH), ("realloc", 5),
           ("realloc", 2 * CH), ("from", 3, 0), ("from", 3, CH - 1), ("from", CH, 1), ("from", 2 * CH, 0), ("dump",), ("slice",)]
    for n in [1, 4, CH - 1, CH, CH + 1, 2 * CH, 3 * CH]:
        jobs += [("storage", (n, (1 if py else 3 if deep else 2), f)) for f in ops]
    lim = 5 if py and not deep else 9
    jobs += [("arith", (n, o)) for n in list(range(0, lim)) + [16, 2 * CH] for o in range(0, len(SC), 11 if py else 4 if not deep else 1)]
    jobs += [("points", (n, o)) for n in range(1, 4 if py else 7) for o in range(0, len(SC), 22 if py else 11 if not deep else 3)]
    jobs.append(("zt", None))
    pmap(chk, work, jobs, 300)
    both.other_backend(chk, "P37", "quick")
