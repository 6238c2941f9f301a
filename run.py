"""Entry point: run.py C01 [--tier quick|thorough] [--only sub,sub] [--scale x] | run.py --replay FILE"""

import argparse
import os
import sys

PY = "/opt/venv/bin/python"
WANT = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "HYPOTHESIS_NO_PLUGINS": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/.verif-hypothesis",
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    if any(os.environ.get(k) != v for k, v in WANT.items()) or "PYTHONPATH" in os.environ:
        env = dict(os.environ)
        env.update(WANT)
        env.pop("PYTHONPATH", None)
        os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env)

    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", default=None)
    args = ap.parse_args()

    sys.path.insert(0, here)
    repo = os.environ.get("VERIF_DEV_REPO") or "/repo"
    sys.path.insert(0, os.path.join(repo, "src"))
    # hypothesis lives in the tooling venv; appended, so that /opt/venv's own packages win
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    os.environ.setdefault("HOME", "/root")

    import logging

    logging.getLogger("pyomo").setLevel(logging.ERROR)
    import tvemoves_rufbad

    where = os.path.abspath(tvemoves_rufbad.__file__ or "")
    if not where.startswith(os.path.join(repo, "src") + os.sep):
        print(f"package imported from {where}, not from {repo}/src", file=sys.stderr)
        return 2
    from lib import pbt

    if args.replay:
        return pbt.replay(args.replay)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    module = pbt.load_module(args.property)
    only = set(args.only.split(",")) if args.only else None
    return pbt.run_property(module, args.tier, seed, only, args.scale)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-except
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
