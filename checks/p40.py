"""P40: helpers that reshape data between host, protocol and device.

All permutations and all vectors over a small alphabet up to length 6 (non-permutations have to be refused without a single swap), all lengths x sizes of
chunking, all multisets of ring indices (relative offsets decode back to the sorted indices), all output counts x proof kinds for the batch plan, range
signature flattening and the hand-written Bulletproof serializer against the generic one for every vector length, translation of
source and destination entries over a field menu (all fields kept, source untouched, repeatable), recoding of signatures both ways, look-up helpers."""
import asyncio
import copy
import itertools

from mc import env, ref
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import common, crypto as C
from monero_glue.xmr.sub import tsx_helper, recode, recode_ext
from monero_glue.hwtoken import misc
from monero_glue.agent import agent_lite
from monero_serialize import xmrtypes, xmrserialize
from checks.p36 import attempt

L = ref.L
K = [ref.keccak(b"k%d" % i) for i in range(400)]
PT = [ref.enc(ref.mulG(3 + i)) for i in range(70)]


def run_(co):
    return asyncio.new_event_loop().run_until_complete(co)


def perms(sub, n):
    items = ["e%d" % i for i in range(n)]
    vals = list(range(-1, n + 1)) if n <= 5 else list(range(n))
    for p in itertools.product(vals, repeat=n):
        is_perm = sorted(p) == list(range(n))
        for t in (list, tuple) + ((bytes,) if is_perm else ()):
            arg = t(p)
            before = t(p)
            lst, swaps = list(items), []

            def sw(a, b):
                swaps.append((a, b))
                if len(swaps) > 100:
                    raise RuntimeError("swaps without end")
                lst[a], lst[b] = lst[b], lst[a]
            r = attempt(lambda: common.apply_permutation(arg, sw))
            c = attempt(lambda: common.check_permutation(arg))
            sub.add(states=1, transitions=len(swaps))
            key = "perm:%s:%s" % (p, t.__name__)
            if is_perm:
                if r[0] or c[0]:
                    sub.violation(key, "permutation refused: %r %r" % (r[1], c[1]))
                elif lst != [items[i] for i in p]:
                    sub.violation(key, "gives %s" % lst)
                elif arg != before:
                    sub.violation(key, "permutation argument changed")
            elif not r[0] or not c[0] or len(swaps) > 100:
                sub.violation(key, "not a permutation, but accepted")
            elif swaps:
                sub.violation(key, "swapped before refusing")
    # inverse composition restores the order
    if n <= 5:
        for p in itertools.permutations(range(n)):
            lst = list(items)

            def sw2(a, b):
                lst[a], lst[b] = lst[b], lst[a]
            inv = [p.index(i) for i in range(n)]
            common.apply_permutation(p, sw2)
            common.apply_permutation(inv, sw2)
            sub.add(states=1, transitions=1)
            if lst != items:
                sub.violation("inverse:%s" % (p,), "a permutation followed by its inverse gives %s" % lst)
    sub.case(("perms", n))


def big_perms(sub, _):
    # every cycle structure of larger permutations: one cycle of each length, at each rotation
    for n in range(7, 40):
        for c in range(2, n + 1):
            for s in (1, c - 1, c // 2 or 1):
                p = [(i + s) % c if i < c else i for i in range(n)]
                lst = list(range(n))

                def sw(a, b):
                    lst[a], lst[b] = lst[b], lst[a]
                common.apply_permutation(p, sw)
                sub.add(states=1, transitions=1)
                if lst != p:
                    sub.violation("cycle:%d:%d:%d" % (n, c, s), "wrong result")
                q = list(p)
                q[0] = q[-1] if q[0] != q[-1] else q[0]
                if len(set(q)) != n and not attempt(lambda: common.check_permutation(q))[0]:
                    sub.violation("dup:%d:%d" % (n, c), "duplicate accepted")
    sub.case("big_perms")


def chunks_(sub, _):
    for n in range(0, 60):
        for t in (list(range(n)), tuple(range(n)), bytes(range(n))):
            for size in range(1, 65):
                r = attempt(lambda: common.chunk(t, size))
                sub.add(states=1, transitions=1)
                key = "chunk:%d:%d" % (n, size)
                if r[0]:
                    sub.violation(key, repr(r[1]))
                    continue
                cs = r[1]
                flat = [x for c in cs for x in c]
                if flat != list(t) or any(len(c) != size for c in cs[:-1]) or cs and not 0 < len(cs[-1]) <= size or not cs and n:
                    sub.violation(key, "not a partition into chunks: %s" % (cs,))
                if any(type(c) is not type(t) for c in cs):
                    sub.violation(key + ":type", "type of chunks")
    sub.case("chunks")


def offsets(sub, first):
    menu = [0, 1, 2, 3, 5, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]
    for n in range(0, 5):
        for o in itertools.product(menu, repeat=n):
            if n and o[0] != menu[first] or not n and first:
                continue
            lst = list(o)
            r = attempt(lambda: tsx_helper.absolute_output_offsets_to_relative(lst))
            sub.add(states=1, transitions=1)
            if r[0]:
                sub.violation("off:%s" % (o,), repr(r[1]))
                continue
            back, cur = [], 0
            for x in r[1]:
                cur += x
                back.append(cur)
            if back != sorted(o) or any(x < 0 for x in r[1]):
                sub.violation("off:%s" % (o,), "relative %s decode to %s" % (r[1], back))
            if tuple(lst) != o:
                sub.violation("off-mut:%s" % (o,), "argument changed to %s" % lst)
    sub.case(("offsets", first))


def batches(sub, _):
    for n in range(0, 80):
        for bp in (False, True):
            t = agent_lite.get_rsig_type(bp, n)
            sub.add(states=1, transitions=1)
            if bp != (t != 0):
                sub.violation("kind:%d:%s" % (n, bp), "proof kind %s" % t)
        for t in (0, 1, 2, 3):
            r = attempt(lambda: agent_lite.generate_rsig_batch_sizes(t, n))
            sub.add(states=1, transitions=1)
            key = "batch:%d:%d" % (t, n)
            if t == 3 and n > 16:
                if not r[0]:
                    sub.violation(key, "padded proof of more than 16 outputs: %s" % r[1])
                continue
            if r[0] or sum(r[1]) != n or any(b < 1 or b > 16 for b in r[1]):
                sub.violation(key, "batches %r" % (r[1],))
                continue
            if t < 2 and any(b != 1 for b in r[1]) or t == 3 and len(r[1]) > 1:
                sub.violation(key, "batches %r" % (r[1],))
            if t == 2 and (any(b & (b - 1) for b in r[1]) or any(a < b for a, b in zip(r[1], r[1][1:]))):
                sub.violation(key, "multi-output batches %r are not non-increasing powers of two" % (r[1],))
        if n and not attempt(lambda: agent_lite.generate_rsig_batch_sizes(4, n))[0]:
            sub.violation("batch:kind4:%d" % n, "unknown kind accepted")
    sub.case("batches")


def mkrsig(f, g):
    r = xmrtypes.RangeSig()
    r.Ci = [g(i) for i in range(64)]
    r.asig = xmrtypes.BoroSig()
    r.asig.s0 = [f(64 + i) for i in range(64)]
    r.asig.s1 = [f(128 + i) for i in range(64)]
    r.asig.ee = f(192)
    return r


def plain_rsig(r):
    return [bytes(x) for x in list(r.asig.s0) + list(r.asig.s1) + [r.asig.ee] + list(r.Ci)]


def rsigs(sub, _):
    red = lambda i: (int.from_bytes(K[i], "little") % L).to_bytes(32, "little")
    r = mkrsig(red, lambda i: PT[i])
    flat = recode_ext.flatten_rsig(r)
    exp = b"".join(plain_rsig(r))
    sub.add(states=4, transitions=4)
    if bytes(flat) != exp:
        sub.violation("flatten", "order of elements")
    for dst in (None, mkrsig(lambda i: bytes(32), lambda i: bytes(32))):
        b = recode_ext.inflate_rsig(exp, dst)
        if b"".join(plain_rsig(b)) != exp:
            sub.violation("inflate:%s" % (dst is None), "elements differ")
    for cp in (False, True):
        src = mkrsig(red, lambda i: PT[i])
        d = recode_ext.recode_rangesig(src, encode=False, copy=cp)
        if cp and b"".join(plain_rsig(src)) != exp:
            sub.violation("recode-copy", "original changed")
        if (d is src) == cp:
            sub.violation("recode-copy:identity:%s" % cp, "copy flag ignored")
        nums = [C.encodeint(x) for x in list(d.asig.s0) + list(d.asig.s1) + [d.asig.ee]] + [C.encodepoint(x) for x in d.Ci]
        if b"".join(map(bytes, nums)) != exp:
            sub.violation("recode-decode:%s" % cp, "values differ")
        e = recode_ext.recode_rangesig(d, encode=True, copy=cp)
        if b"".join(plain_rsig(e)) != exp:
            sub.violation("recode-encode:%s" % cp, "values differ")
        sub.add(states=3, transitions=3)
    # one element different -> exactly that position differs
    for i in range(193):
        def f(j, i=i):
            return red(j + 199) if j == i else red(j)
        r2 = mkrsig(f, lambda j: PT[j + 1] if j == i else PT[j])
        fl = recode_ext.flatten_rsig(r2)
        pos = [j for j in range(193) if fl[32 * j:32 * j + 32] != exp[32 * j:32 * j + 32]]
        sub.add(states=1, transitions=1)
        want = [i + 128 + 1] if i < 64 else [i - 64]
        if pos != want:
            sub.violation("flatten-pos:%d" % i, "element shows at %s" % pos)
    for nm in range(1, 4):
        for rows in range(1, 4):
            for cols in (1, 2):
                for II in (None, [], 1, 2):
                    def mg():
                        out = []
                        for m in range(nm):
                            g = xmrtypes.MgSig()
                            g.cc = red(m)
                            g.ss = [[red(10 + m * 9 + a * 3 + b) for b in range(cols)] for a in range(rows)]
                            g.II = None if II is None else [PT[m + q] for q in range(II or 0)] if II != [] else []
                            out.append(g)
                        return out
                    a, b = mg(), mg()
                    d = recode.recode_msg(a, encode=False)
                    e = recode.recode_msg(d, encode=True)
                    sub.add(states=1, transitions=1)
                    ok = all(bytes(x.cc) == bytes(y.cc) and [[bytes(q) for q in w] for w in x.ss] == y.ss and
                             (not y.II or [bytes(q) for q in x.II] == y.II) for x, y in zip(e, b)) and len(e) == len(b)
                    if not ok:
                        sub.violation("recode-mg:%d:%d:%d:%s" % (nm, rows, cols, II), "round trip differs")
    sub.case("rsigs")


def bps(sub, _):
    for n in list(range(0, 20)) + [63, 64, 126, 127]:
        p = xmrtypes.Bulletproof()
        (p.A, p.S, p.T1, p.T2, p.taux, p.mu, p.a, p.b, p.t) = K[:9]
        p.L, p.R = [K[10 + i] for i in range(n)], [K[200 + i] for i in range(n)]
        p.V = [K[5]]
        r = attempt(lambda: bytes(misc.dump_rsig_bp(p)))
        w = xmrserialize.MemoryReaderWriter()
        run_(xmrserialize.Archive(w, True).message(p, xmrtypes.Bulletproof))
        sub.add(states=1, transitions=1)
        if r[0] or r[1] != bytes(w.get_buffer()):
            sub.violation("dump_bp:%d" % n, "differs from the generic serializer: %r" % (r[1] if r[0] else len(r[1]),))
            continue
        q = attempt(lambda: run_(misc.parse_msg(r[1], xmrtypes.Bulletproof())))
        if q[0] or any(bytes(getattr(q[1], f)) != getattr(p, f) for f in ("A", "S", "T1", "T2", "taux", "mu", "a", "b", "t")) or \
                [bytes(x) for x in q[1].L] != p.L or [bytes(x) for x in q[1].R] != p.R:
            sub.violation("parse_bp:%d" % n, "parsed proof differs")
    for n in (128, 129, 300):
        p.L, p.R = [K[0]] * n, [K[0]] * n
        if not attempt(lambda: misc.dump_rsig_bp(p))[0]:
            sub.violation("dump_bp:%d" % n, "accepted although the length does not fit its byte")
    sub.case("bps")


def src_entry(n, real, amount, extra, rct, ms, tx_idx):
    s = xmrtypes.TxSourceEntry()
    s.outputs = [(2 ** 33 + i * 7, xmrtypes.CtKey(dest=K[i], mask=K[50 + i])) for i in range(n)]
    s.real_output, s.real_out_tx_key, s.real_out_additional_tx_keys = real, K[20], [K[30 + i] for i in range(extra)]
    s.real_output_in_tx_index, s.amount, s.rct, s.mask = tx_idx, amount, rct, K[21]
    s.multisig_kLRki = xmrtypes.MultisigKLRki(K=K[40], L=K[41], R=K[42], ki=K[43]) if ms else None
    return s


def flat_src(s):
    m = s.multisig_kLRki
    return (tuple((o[0], o[1].dest, o[1].mask) for o in s.outputs), s.real_output, s.real_out_tx_key, tuple(s.real_out_additional_tx_keys),
            s.real_output_in_tx_index, s.amount, s.rct, s.mask, type(m).__name__, m and (m.K, m.L, m.R, m.ki))


def flat_pb(d):
    m = d.multisig_kLRki
    return (tuple((o.idx, bytes(o.key.dest), bytes(o.key.commitment)) for o in d.outputs), d.real_output, bytes(d.real_out_tx_key),
            tuple(bytes(x) for x in d.real_out_additional_tx_keys), d.real_output_in_tx_index, d.amount, bool(d.rct), bytes(d.mask),
            m and tuple(bytes(x) for x in (m.K, m.L, m.R, m.ki)))


def entries(sub, _):
    from monero_glue.messages import MoneroTransactionSourceEntry, MoneroTransactionDestinationEntry
    for n, real, amount, extra, rct, ms, ti in itertools.product((1, 2, 11), (0, 1, 10), (0, 1, 2 ** 53 + 1, 2 ** 64 - 1), (0, 1, 3), (False, True), (False, True),
                                                                 (0, 200)):
        if real >= n:
            continue
        s = src_entry(n, real, amount, extra, rct, ms, ti)
        before = flat_src(s)
        key = "src:%s" % ((n, real, amount, extra, rct, ms, ti),)
        for rnd in range(2):
            r = attempt(lambda: misc.translate_monero_src_entry_pb(s))
            sub.add(states=1, transitions=1)
            if r[0]:
                sub.violation(key, "translation %d raised %r" % (rnd + 1, r[1]))
                break
            if flat_src(s) != before:
                sub.violation(key, "translation changes the original entry")
                break
            exp = before[:8] + (before[9],)
            if flat_pb(r[1]) != exp:
                sub.violation(key, "translated entry differs")
                break
            w = attempt(lambda: run_(misc.parse_pb_msg(run_(misc.dump_pb_msg(r[1])), MoneroTransactionSourceEntry)))
            if w[0] or flat_pb(w[1]) != exp:
                sub.violation(key, "entry differs after the wire: %r" % (w[1] if w[0] else flat_pb(w[1]),))
                break
            r[1].real_out_additional_tx_keys.append(K[0])
            r[1].outputs.append(None)
            if flat_src(s) != before:
                sub.violation(key, "translated entry shares lists with the original")
                break
    for amount, is_sub in itertools.product((0, 1, 2 ** 53 + 1, 2 ** 64 - 1), (False, True)):
        d = xmrtypes.TxDestinationEntry(amount=amount, is_subaddress=is_sub, addr=xmrtypes.AccountPublicAddress(m_spend_public_key=K[0], m_view_public_key=K[1]))
        r = attempt(lambda: misc.translate_monero_dest_entry_pb(d))
        sub.add(states=1, transitions=1)
        key = "dst:%d:%s" % (amount, is_sub)
        if r[0]:
            sub.violation(key, repr(r[1]))
            continue
        w = attempt(lambda: run_(misc.parse_pb_msg(run_(misc.dump_pb_msg(r[1])), MoneroTransactionDestinationEntry)))
        for o in (r[1], w[1], misc.dst_entry_to_stdobj(r[1])):
            if w[0] or (o.amount, bool(o.is_subaddress), bytes(o.addr.spend_public_key), bytes(o.addr.view_public_key)) != (amount, is_sub, K[0], K[1]):
                sub.violation(key, "translated destination differs %r" % (o,))
    if misc.dst_entry_to_stdobj(None) is not None:
        sub.violation("dst:none", "missing entry")
    sub.case("entries")


def lookups(sub, _):
    js = {"a": {"b": {"c": 1, "n": None}, "l": [5, {"x": 0}]}, "n": None, "z": 0, "e": ""}
    paths = [p for n in range(1, 5) for p in itertools.product(["a", "b", "c", "n", "z", "e", "l", "x", "q"], repeat=n)]

    class Miss(Exception):
        pass

    def walk(p):
        cur = js
        for k in p:
            if not isinstance(cur, dict) or k not in cur:
                raise Miss()
            cur = cur[k]
        return cur
    D = object()
    for p in paths:
        try:
            e = walk(p)
        except Miss:
            e = D
        for arg in (".".join(p), list(p), tuple(p)):
            r = attempt(lambda: common.defvalkeys(js, arg, D))
            sub.add(states=1, transitions=1)
            if r[0] or r[1] is not e:
                sub.violation("defvalkeys:%s" % (p,), repr(r[1]))
    for o in (None, js):
        for k in ("a", "n", "z", "e", "missing"):
            for tn in (True, False):
                has = o is not None and k in o
                e = o[k] if has and (o[k] is not None or tn) else D
                sub.add(states=1, transitions=1)
                if common.defvalkey(o, k, D, tn) is not e:
                    sub.violation("defvalkey:%s:%s:%s" % (o is None, k, tn), "wrong value")

                class O:
                    pass
                ob = None
                if o is not None:
                    ob = O()
                    for kk, vv in o.items():
                        setattr(ob, kk, vv)
                if common.defattr(ob, k, D, tn) is not e:
                    sub.violation("defattr:%s:%s:%s" % (o is None, k, tn), "wrong value")
    for v in (None, "", b"", [], 0, "x", b"\0", [0], (), (None,)):
        empty = v is None or v in ("", b"", [], ())
        sub.add(states=1, transitions=1)
        if (common.defval(v, D) is D) != (v is None):
            sub.violation("defval:%r" % (v,), "wrong")
        if v != 0 or v in (b"\0",):
            if common.is_empty(v) != empty or (common.defval_empty(v, D) is D) != empty:
                sub.violation("is_empty:%r" % (v,), "wrong")
    # comparison of secrets: equality of all short strings and of every single-bit difference
    for n in range(0, 70):
        a = (K[0] + K[1] + K[2])[:n]
        for b in [a, bytearray(a), a + b"\0", a[:-1]] + [bytes(c ^ (1 << (j % 8)) if i == j // 8 else c for i, c in enumerate(a)) for j in range(8 * n)]:
            sub.add(states=1, transitions=1)
            if bool(common.ct_equal(a, b)) != (bytes(a) == bytes(b)):
                sub.violation("ct_equal:%d" % n, "wrong answer for %r" % (b,))
    sub.case("lookups")


def work(sub, job):
    globals()[job[0]](sub, job[1])


def run(chk):
    chk.rule = __doc__
    jobs = [("perms", n) for n in range(0, 7 if not chk.thorough else 8)]
    jobs += [("offsets", i) for i in range(10)]
    jobs += [(f, None) for f in ("big_perms", "chunks_", "batches", "rsigs", "bps", "entries", "lookups")]
    pmap(chk, work, jobs, 300)
