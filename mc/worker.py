"""One worker process: explores (a shard of) one property in one mode."""
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")


def main():
    prop, tier, seed, mode, shard, nshards, out = sys.argv[1:8]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from mc import core

    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(os.path.dirname(here), "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]
    ctx = core.Ctx(prop, tier, int(seed), mode, int(shard), int(nshards), known)
    try:
        import pycomlink

        repo = os.environ["VERIF_REPO"]
        if not os.path.realpath(pycomlink.__file__).startswith(os.path.realpath(repo) + os.sep):
            print("harness error: pycomlink not imported from", repo, pycomlink.__file__)
            sys.exit(3)
        import numpy as np

        np.seterr(all="ignore")
        mod = importlib.import_module("mc.props." + prop.lower())
        mod.explore(ctx)
    except core.Stop:
        pass
    except Exception as e:
        ctx.violations.append(
            {
                "family": ctx.fam,
                "mode": mode,
                "message": "uncaught %s: %s" % (type(e).__name__, e),
                "case": traceback.format_exc().splitlines()[-12:],
            }
        )
    with open(out, "w") as f:
        json.dump(ctx.result(), f)
    os._exit(0)


if __name__ == "__main__":
    main()
