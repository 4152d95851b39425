"""Run the same check under the other EC backend in a subprocess and merge its results."""
import json
import os
import subprocess
import sys
import tempfile

from mc import env
from mc.check import HarnessError, _js


def other_backend(chk, pid, tier=None):
    if os.environ.get("MC_SUBRUN"):
        return
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "r.json")
        e = dict(os.environ, MC_SUBRUN=out, MC_BACKEND="0" if env.BACKEND == "1" else "1", PYTHONHASHSEED="0", VERIF_TIER=tier or chk.tier)
        e.pop("EC_BACKEND", None)
        p = subprocess.run([sys.executable, "-m", "mc.run", pid, "--tier", tier or chk.tier], cwd=env.VERIF, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if not os.path.exists(out):
            raise HarnessError("run under the other backend failed:\n" + p.stdout.decode(errors="replace")[-3000:])
        chk.merge(json.load(open(out)))
        chk.extra["backends"] = "trezor-crypto (native), pure Python"


def dump(chk, path):
    r = {"states": chk.states, "transitions": chk.transitions, "traces": chk.traces, "evaluations": chk.evaluations,
         "nontrivial": sorted(map(str, chk.nontrivial)), "samples": [], "violations": list(chk.violations.values()), "extra": {}}
    r["violations"] += [{"key": k, "what": w} for k, w in chk.known_hit.items()]
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=_js)
    os.rename(path + ".tmp", path)
