"""Common set-up for every check: import path, EC backend, deterministic randomness.

Every check imports this module first.  It makes /repo importable (current working tree,
no bytecode written), selects the EC backend and replaces the randomness used by the code
under test with a seeded deterministic stream so that every execution can be replayed.
"""
import os
import sys
import hashlib
import logging

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

BACKEND = os.environ.get("MC_BACKEND", "1")
os.environ["EC_BACKEND_FORCE"] = "1"
os.environ["EC_BACKEND"] = BACKEND
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class DetRng:
    """Deterministic byte stream (SHA-256 in counter mode)."""

    def __init__(self, tag=b""):
        self.reset(tag)

    def reset(self, tag=b""):
        if isinstance(tag, str):
            tag = tag.encode()
        self.key = hashlib.sha256(b"mc-rng" + str(SEED).encode() + b"/" + tag).digest()
        self.ctr = 0
        self.draws = 0
        self.fail_at = None

    def bytes(self, n):
        out = b""
        if self.fail_at is not None:
            if self.fail_at == 0:
                self.fail_at = None
                raise RuntimeError("random generator failure (injected)")
            self.fail_at -= 1
        self.draws += 1
        while len(out) < n:
            out += hashlib.sha256(self.key + self.ctr.to_bytes(8, "big")).digest()
            self.ctr += 1
        return out[:n]

    def snapshot(self):
        return (self.key, self.ctr, self.draws)

    def restore(self, s):
        self.key, self.ctr, self.draws = s


RNG = DetRng()
L = 2 ** 252 + 27742317777372353535851937790883648493


def _urandom(n):
    """stands in for os.urandom from the moment this module is imported (code under test is imported later)"""
    return RNG.bytes(n)


os.urandom = _urandom


def install_rng():
    """Route all randomness of the code under test through RNG.

    The replacement sits at the boundary (OS randomness / exported random_* functions), the
    code above it is untouched."""
    from monero_glue.xmr import common, crypto
    from monero_glue.xmr.core import ec
    import Crypto.Random

    def rb(n):
        return RNG.bytes(n)

    def rscalar():
        return int.from_bytes(RNG.bytes(64), "little") % L

    def random_bytes(by):
        return rb(by)

    def random_scalar():
        return crypto.decodeint(rscalar().to_bytes(32, "little"))

    def random_scalar_into(r):
        return crypto.decodeint_into(r, rscalar().to_bytes(32, "little"))

    common.random_bytes = random_bytes
    mods = [crypto, ec]
    for name in ("monero_glue.xmr.core.ec_py", "monero_glue.xmr.core.ec_trezor", "monero_glue.xmr.core.ec_base"):
        if name in sys.modules:
            mods.append(sys.modules[name])
    for m in mods:
        for nm, fn in (("random_bytes", random_bytes), ("random_scalar", random_scalar),
                       ("random_scalar_into", random_scalar_into)):
            if hasattr(m, nm):
                setattr(m, nm, fn)
    # modules that imported get_random_bytes by name
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith(("monero_glue", "monero_poc")) and hasattr(m, "get_random_bytes"):
            m.get_random_bytes = rb
    return RNG


def run(coro):
    """Drive a coroutine that never really suspends (no event loop needed)."""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value
