"""P31: ring signatures.

Variants: CryptoNote ring signatures (generate_ring_signature), MLSAG simple and full (prove_rct_mg_simple, prove_rct_mg),
the general MLSAG (gen_mlsag_ext, every number of double-spend rows, multisig nonces included) and CLSAG.  For every ring size, position
of the real key and number of rows in bounds the signature is made by the code, must verify with the code and with mc/ref.py,
and then every element of (message, ring, key images, pseudo output / outputs / fee, every scalar) is changed in every way of a
menu (arithmetic, negation, neutral element, small-order component, swap with another element, list changes) - each changed
instance must be refused by the code.  Signatures made with secrets that do not match must be refused as well."""
import copy
import itertools

from mc import env, ref, both
from mc.check import pmap

env.install_rng()

from monero_glue.xmr import crypto as C, mlsag2, monero, ring_ct
from monero_serialize import xmrtypes
from checks.p30 import T8

L = ref.L
T4, T2 = ref.dbl(T8), ref.dbl(ref.dbl(T8))


def sec(*tag):
    return ref.hs(b"p31", *[str(t).encode() for t in tag])


def sc(x):
    return C.decodeint(ref.enc_sc(x % L))


def pt(b):
    return C.decodepoint(bytes(b))


def si(x):
    return ref.dec_sc(bytes(C.encodeint(x)))


def G(x):
    return ref.enc(ref.mulG(x % L))


class K:
    def __init__(self, **kw):
        self.__dict__.update(kw)


# ---- variants: (make -> fields), lib(fields) -> bool, refv(fields) -> bool -----
class Ring:
    """one key, CryptoNote ring signature"""
    def __init__(self, n, pos):
        self.name = "ring%d.%d" % (n, pos)
        self.n, self.pos = n, pos
        self.x = [sec(self.name, i) for i in range(n)]

    def make(self, x=None, pos=None, test=False):
        pubs = [G(v) for v in self.x]
        x = self.x[self.pos] if x is None else x
        ki = ref.enc(ref.key_image(self.x[self.pos], pubs[self.pos]))
        msg = ref.keccak(self.name.encode())
        sig = ring_ct.generate_ring_signature(msg, pt(ki), [pt(p) for p in pubs], sc(x), self.pos if pos is None else pos, test)
        return {"msg": msg, "ki": ki, "ring": pubs, "sig": [[si(a), si(b)] for a, b in sig]}

    def lib(self, f):
        r = ring_ct.check_ring_singature(f["msg"], pt(f["ki"]), [pt(p) for p in f["ring"]], [[sc(a), sc(b)] for a, b in f["sig"]])
        return bool(r)

    def refv(self, f):
        return ref.ring_sig_verify(f["msg"], f["ki"], f["ring"], [tuple(x) for x in f["sig"]])

    def wrong(self):
        yield "sec+1", lambda: self.make(x=self.x[self.pos] + 1)
        yield "sec0", lambda: self.make(x=0)
        for p in range(self.n):
            if p != self.pos:
                yield "pos%d" % p, lambda p=p: self.make(pos=p)
        yield "sec+1,test", lambda: self.make(x=self.x[self.pos] + 1, test=True)


class Simple:
    """MLSAG, one input, pseudo output"""
    kind = "mlsag"

    def __init__(self, n, pos, ms=False):
        self.name = "%s%d.%d%s" % (self.kind, n, pos, "ms" if ms else "")
        self.n, self.pos, self.ms = n, pos, ms
        self.x = [sec(self.name, "x", i) for i in range(n)]
        self.z = [sec(self.name, "z", i) for i in range(n)]
        self.am = [(0, 2 ** 64 - 1, 1, 2 ** 32, 10 ** 12, 77)[i % 6] for i in range(n)]
        self.a = sec(self.name, "a")

    def pre(self):
        ring = [[G(x), ref.enc(ref.commit(z, v))] for x, z, v in zip(self.x, self.z, self.am)]
        po = ref.enc(ref.commit(self.a, self.am[self.pos]))
        return ring, po, ref.enc(ref.key_image(self.x[self.pos], ring[self.pos][0])), ref.keccak(self.name.encode())

    def pubs(self, ring):
        return [K(dest=bytes(d), commitment=bytes(c)) for d, c in ring]

    def make(self, x=None, z=None, a=None, pos=None, amount=None):
        ring, po, ki, msg = self.pre()
        p = self.pos
        if amount is not None:
            po = ref.enc(ref.commit(self.a, amount))
        sk = K(dest=sc(self.x[p] if x is None else x), mask=sc(self.z[p] if z is None else z))
        klr, out, cc = None, None, []
        if self.ms:
            k = sec(self.name, "k")
            Hp = ref.hash_to_point(ring[p][0])
            klr = K(k=sc(k), L=pt(G(k)), R=pt(ref.enc(ref.mul(Hp, k))), ki=pt(ki))
            out = cc.append
        mg, c = mlsag2.prove_rct_mg_simple(msg, self.pubs(ring), sk, sc(self.a if a is None else a), pt(po), klr, out, p if pos is None else pos)
        if self.ms and (len(cc) != 1 or si(cc[0]) != si(c)):
            raise AssertionError("multisig challenge not reported")
        if x is None and pos is None and bytes(C.encodepoint(mg.II[0])) != ki:
            raise AssertionError("key image of the signature is not that of the key")
        return {"msg": msg, "ring": ring, "po": po, "ki": ki, "ss": [[si(v) for v in r] for r in mg.ss], "cc": si(mg.cc)}

    def lib(self, f):
        mg = xmrtypes.MgSig(ss=[[sc(v) for v in r] for r in f["ss"]], cc=sc(f["cc"]), II=[pt(f["ki"])])
        return bool(mlsag2.ver_rct_mg_simple(f["msg"], mg, self.pubs(f["ring"]), pt(f["po"])))

    def refv(self, f):
        return ref.mlsag_simple_verify(f["msg"], [tuple(x) for x in f["ring"]], f["po"], f["ki"], f["ss"], f["cc"])

    def wrong(self):
        p = self.pos
        yield "sec+1", lambda: self.make(x=self.x[p] + 1)
        yield "mask+1", lambda: self.make(z=self.z[p] + 1)
        yield "alpha+1", lambda: self.make(a=self.a + 1)
        yield "amount+1", lambda: self.make(amount=self.am[p] + 1)
        yield "amount-1", lambda: self.make(amount=(self.am[p] - 1) % L)
        for q in range(self.n):
            if q != p:
                yield "pos%d" % q, lambda q=q: self.make(pos=q)
                yield "sec%d" % q, lambda q=q: self.make(x=self.x[q], z=self.z[q])


class Clsag(Simple):
    kind = "clsag"

    def make(self, x=None, z=None, a=None, pos=None, amount=None):
        ring, po, ki, msg = self.pre()
        p = self.pos
        if amount is not None:
            po = ref.enc(ref.commit(self.a, amount))
        sk = K(dest=sc(self.x[p] if x is None else x), mask=sc(self.z[p] if z is None else z))
        buf = []
        r = mlsag2.generate_clsag_simple(msg, self.pubs(ring), sk, sc(self.a if a is None else a), pt(po), p if pos is None else pos, buf)
        b = b"".join(bytes(v) for v in r)
        h = len(ref.varint(self.n))
        if len(b) != h + 32 * (self.n + 2) or b[:h] != ref.varint(self.n):
            raise AssertionError("CLSAG serialisation has length %d" % len(b))
        v = [b[h + 32 * i:h + 32 * i + 32] for i in range(self.n + 2)]
        return {"msg": msg, "ring": ring, "po": po, "ki": ki, "ss": [ref.dec_sc(x) for x in v[:self.n]], "cc": ref.dec_sc(v[self.n]), "D": v[self.n + 1]}

    def lib(self, f):
        r = mlsag2.verify_clsag(f["msg"], [sc(v) for v in f["ss"]], sc(f["cc"]), pt(f["ki"]), pt(f["D"]), self.pubs(f["ring"]), pt(f["po"]))
        return r is None or bool(r)      # refuses by raising

    def refv(self, f):
        return ref.clsag_verify(f["msg"], [tuple(x) for x in f["ring"]], f["po"], f["ki"], f["D"], f["ss"], f["cc"])


class Full:
    """MLSAG over all inputs at once, with outputs and the fee"""
    def __init__(self, n, pos, rows, outs):
        self.name = "full%d.%d-%d-%d" % (n, pos, rows, outs)
        self.n, self.pos, self.rows, self.outs = n, pos, rows, outs
        self.x = [[sec(self.name, "x", i, j) for j in range(rows)] for i in range(n)]
        self.z = [[sec(self.name, "z", i, j) for j in range(rows)] for i in range(n)]
        self.am = [[1000 + 7 * i + j for j in range(rows)] for i in range(n)]
        self.oz = [sec(self.name, "o", j) for j in range(outs)]
        self.fee = 13
        t = sum(self.am[pos]) - self.fee
        self.oa = [t // outs] * (outs - 1) + [t - (t // outs) * (outs - 1)]

    def make(self, dx=None, dz=None, do=None, pos=None, dfee=0):
        ring = [[[G(x), ref.enc(ref.commit(z, v))] for x, z, v in zip(*r)] for r in zip(self.x, self.z, self.am)]
        p = self.pos
        kis = [ref.enc(ref.key_image(self.x[p][j], ring[p][j][0])) for j in range(self.rows)]
        outs = [ref.enc(ref.commit(z, v)) for z, v in zip(self.oz, self.oa)]
        fee = ref.enc(ref.mulH(self.fee + dfee))
        msg = ref.keccak(self.name.encode())
        sk = [K(dest=sc(x + (1 if dx == j else 0)), mask=sc(z + (1 if dz == j else 0))) for j, (x, z) in enumerate(zip(self.x[p], self.z[p]))]
        osk = [K(dest=None, mask=sc(z + (1 if do == j else 0))) for j, z in enumerate(self.oz)]
        mg, c = mlsag2.prove_rct_mg(msg, self.pubs(ring), sk, osk, self.opk(outs), None, None, p if pos is None else pos, pt(fee))
        return {"msg": msg, "ring": ring, "out": outs, "fee": fee, "ki": kis, "ss": [[si(v) for v in r] for r in mg.ss], "cc": si(mg.cc)}

    def pubs(self, ring):
        return [[K(dest=bytes(d), commitment=bytes(c)) for d, c in r] for r in ring]

    def opk(self, outs):
        return [K(dest=None, mask=bytes(o)) for o in outs]

    def lib(self, f):
        mg = xmrtypes.MgSig(ss=[[sc(v) for v in r] for r in f["ss"]], cc=sc(f["cc"]), II=[pt(k) for k in f["ki"]])
        return bool(mlsag2.ver_rct_mg(mg, self.pubs(f["ring"]), self.opk(f["out"]), pt(f["fee"]), f["msg"]))

    def refv(self, f):
        m = []
        for r in f["ring"]:
            s = ref.ID
            for d, c in r:
                s = ref.add(s, ref.dec(c))
            for o in f["out"]:
                s = ref.sub(s, ref.dec(o))
            m.append([ref.dec(d) for d, c in r] + [ref.sub(s, ref.dec(f["fee"]))])
        II = [ref.dec(k) for k in f["ki"]]
        return all(ref.in_prime_subgroup(k) and not ref.eq(k, ref.ID) for k in II) and ref.mlsag_verify(f["msg"], len(m[0]), m, len(II), II, f["ss"], f["cc"])

    def wrong(self):
        for j in range(self.rows):
            yield "sec%d" % j, lambda j=j: self.make(dx=j)
            yield "mask%d" % j, lambda j=j: self.make(dz=j)
        for j in range(self.outs):
            yield "omask%d" % j, lambda j=j: self.make(do=j)
        yield "fee+1", lambda: self.make(dfee=1)
        yield "fee-1", lambda: self.make(dfee=-1)
        for q in range(self.n):
            if q != self.pos:
                yield "pos%d" % q, lambda q=q: self.make(pos=q)


class Ext:
    """the general matrix signature"""
    def __init__(self, n, pos, rows, ds):
        self.name = "ext%d.%d-%d-%d" % (n, pos, rows, ds)
        self.n, self.pos, self.rows, self.ds = n, pos, rows, ds
        self.x = [[sec(self.name, i, j) for j in range(rows)] for i in range(n)]

    def make(self, dx=None, pos=None):
        ring = [[G(x) for x in r] for r in self.x]
        xx = [sc(x + (1 if dx == j else 0)) for j, x in enumerate(self.x[self.pos])]
        kis = [ref.enc(ref.key_image(self.x[self.pos][j], ring[self.pos][j])) for j in range(self.ds)]
        msg = ref.keccak(self.name.encode())
        mg, c = mlsag2.gen_mlsag_ext(msg, [[pt(p) for p in r] for r in ring], xx, None, None, self.pos if pos is None else pos, self.ds)
        return {"msg": msg, "ring": ring, "ki": kis, "ss": [[si(v) for v in r] for r in mg.ss], "cc": si(mg.cc)}

    def lib(self, f):
        mg = xmrtypes.MgSig(ss=[[sc(v) for v in r] for r in f["ss"]], cc=sc(f["cc"]), II=[pt(k) for k in f["ki"]])
        return bool(mlsag2.ver_mlsag_ext(f["msg"], [[pt(p) for p in r] for r in f["ring"]], mg, self.ds))

    def refv(self, f):
        II = [ref.dec(k) for k in f["ki"]]
        return all(ref.in_prime_subgroup(k) and not ref.eq(k, ref.ID) for k in II) and ref.mlsag_verify(
            f["msg"], len(f["ring"][0]), [[ref.dec(p) for p in r] for r in f["ring"]], self.ds, II, f["ss"], f["cc"])

    def wrong(self):
        for j in range(self.rows):
            yield "sec%d" % j, lambda j=j: self.make(dx=j)
        for q in range(self.n):
            if q != self.pos:
                yield "pos%d" % q, lambda q=q: self.make(pos=q)


# ---- changes ----------------------------------------------------------------------
def paths(v, path=()):
    """every leaf and every list of a nested structure"""
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], path + (k,))
    elif isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from paths(x, path + (i,))
    else:
        yield path, v


def put(f, path, v):
    f = copy.deepcopy(f)
    o = f
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v
    return f


def changes(f, deep):
    leaves = list(paths(f))
    for n, (path, v) in enumerate(leaves):
        same = [w for p, w in leaves if p != path and type(w) is type(v) and p[0] != "msg"]
        if path[0] == "msg":
            for i in range(0, 256, 1 if deep else 17):
                x = bytearray(v)
                x[i // 8] ^= 1 << (i % 8)
                yield path, "bit%d" % i, bytes(x)
            yield path, "cut", v[:-1]
            yield path, "ext", v + b"\\0"
            yield path, "empty", b""
        elif isinstance(v, int):
            for lab, x in [("+1", v + 1), ("-1", v - 1), ("neg", -v), ("0", 0), ("1", 1), ("inv", pow(v, L - 2, L)), ("x2", 2 * v)]:
                yield path, lab, x % L
            for k, w in enumerate(same if deep else same[:2]):
                if isinstance(w, int):
                    yield path, "as%d" % k, w
        elif isinstance(v, bytes):
            p = ref.dec(v)
            for lab, q in [("+G", ref.add(p, ref.G)), ("-G", ref.sub(p, ref.G)), ("+H", ref.add(p, ref.H)), ("neg", ref.neg(p)), ("id", ref.ID), ("x2", ref.dbl(p)),
                           ("+T2", ref.add(p, T2)), ("+T4", ref.add(p, T4)), ("-T4", ref.sub(p, T4))] + [
                               ("+%dT8" % k, ref.add(p, ref.mul(T8, k))) for k in (1, 3, 5, 7)] + [("T8", T8), ("T2", T2)]:
                yield path, lab, ref.enc(q)
            for k, w in enumerate(same if deep else same[:2]):
                yield path, "as%d" % k, w
        elif isinstance(v, list):
            yield path, "drop", v[:-1]
            yield path, "dropfirst", v[1:]
            yield path, "dup", v + v[-1:]
            yield path, "none", []
            for i in range(len(v) - 1 if path[0] != "out" else 0):     # the order of outputs does not matter
                x = list(v)
                x[i], x[i + 1] = x[i + 1], x[i]
                yield path, "swap%d" % i, x
            if len(v) > 2:
                yield path, "rot", v[1:] + v[:1]


def attempt(fn):
    try:
        return fn()
    except AssertionError:
        raise
    except Exception as e:
        return e


def explore(sub_, item):
    v, deep = item
    env.RNG.reset("p31/" + v.name)
    f = attempt(v.make)
    if isinstance(f, Exception):
        sub_.violation("make:" + v.name, "signing with the real secrets fails: %r" % f)
        return
    sub_.case(v.name)
    sub_.add(traces=1)
    if attempt(lambda: v.lib(f)) is not True:
        sub_.violation("honest:" + v.name, "a signature made with the real secrets is refused: %r" % attempt(lambda: v.lib(f)))
    if attempt(lambda: v.refv(f)) is not True:
        sub_.violation("honest-ref:" + v.name, "a signature made with the real secrets does not verify independently")
        return
    # the same inputs again: the signature is randomised (no nonce is used twice)
    g = attempt(v.make)
    if not isinstance(g, Exception):
        sc1 = {x for p, x in paths(f) if isinstance(x, int)}
        sc2 = {x for p, x in paths(g) if isinstance(x, int)}
        sub_.expect(not (sc1 & sc2), "nonce:" + v.name, "two signatures share a scalar")
    done = set()
    for path, lab, x in changes(f, deep):
        h = put(f, path, x)
        key = repr(h)
        if h == f or key in done:
            continue
        done.add(key)
        sub_.add(states=1, transitions=1)
        r = attempt(lambda: v.lib(h))
        if r is True:
            sub_.violation("accept:%s:%s:%s" % (v.name, ".".join(map(str, path)), lab), "a signature is accepted although %s was changed (%s)%s" % (
                ".".join(map(str, path)), lab, "; the independent verifier refuses it" if attempt(lambda: v.refv(h)) is not True else ""))
    for lab, mk in v.wrong():
        env.RNG.reset("p31/%s/%s" % (v.name, lab))
        h = attempt(mk)
        sub_.add(states=1, transitions=1)
        if isinstance(h, Exception):
            sub_.count("refused to sign")
            continue
        if attempt(lambda: v.lib(h)) is True:
            sub_.violation("wrong:%s:%s" % (v.name, lab), "a signature made with non-matching secrets (%s) verifies" % lab)


def variants(deep):
    N = 5 if deep else 3
    out = []
    for n in range(1, N + 1):
        for p in range(n):
            out += [Ring(n, p), Clsag(n, p)]
            if n > 1:
                out += [Simple(n, p), Simple(n, p, True)]
    for n in range(2, 4 if deep else 3):
        for p in range(n):
            for rows in range(1, 4 if deep else 3):
                for outs in range(1, 3):
                    out.append(Full(n, p, rows, outs))
                for ds in range(0, rows + 1):
                    out.append(Ext(n, p, rows, ds))
    if deep:
        for n in (8, 11):
            out += [Simple(n, n - 1), Clsag(n, 0), Ring(n, n // 2)]
    return out


def run(chk):
    chk.rule = __doc__
    vs = variants(chk.thorough)
    pmap(chk, explore, [(v, chk.thorough) for v in sorted(vs, key=lambda v: -v.n)], limit=800)
    both.other_backend(chk, "P31", "quick")
    chk.extra["variants"] = len(vs)
