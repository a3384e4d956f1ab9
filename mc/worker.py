"""Runs groups of one property in one precision mode; tasks arrive as JSON lines on stdin."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # prints of the code under test go to stderr
    prop, mode, tier, seed = sys.argv[1:5]
    warnings.simplefilter("ignore")
    err = None
    try:
        import jax

        jax.config.update("jax_enable_x64", mode == "f64")
        import magpi

        real = os.path.realpath(magpi.__file__)
        if not real.startswith(os.path.realpath(REPO) + "/"):
            raise SystemExit(f"magpi imported from {real}, not {REPO}")
        from mc import core

        importlib.import_module(f"mc.props.{prop.lower()}")
        groups = core.GROUPS[prop.upper()]
    except BaseException:
        err = traceback.format_exc()
    print(json.dumps(dict(ready=err is None, error=err)), file=out, flush=True)
    if err is not None:
        return
    for line in sys.stdin:
        name = json.loads(line)["group"]
        ctx = core.Ctx(prop, name, mode, tier, int(seed))
        t = time.time()
        try:
            groups[name]["fn"](ctx)
        except Exception as e:
            ctx.fail(f"{name} (whole group)", f"raised {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        r = ctx.result()
        r["wall_s"] = round(time.time() - t, 2)
        print(json.dumps(r), file=out, flush=True)


main()
