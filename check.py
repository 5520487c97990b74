"""Entry point: /verif/check.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

ENV = dict(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8",
           LC_ALL="C.UTF-8", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           PYTHONNOUSERSITE="1", PYTHONUTF8="0")
PY = "/opt/venv/bin/python"


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) or \
            "PYTHONPATH" in os.environ:
        env = dict(os.environ, **ENV)
        env.pop("PYTHONPATH", None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    # Hypothesis comes from the tooling environment; appended last, so that
    # numpy and toml are those the package is installed with
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick",
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    args = ap.parse_args()
    from pbt import build
    try:
        build.install()
    except Exception as e:
        print(f"ERROR: cannot build or import the package: {e!r}", file=sys.stderr)
        return 2
    if args.build_only:
        import hypothesis
        print("built; hypothesis", hypothesis.__version__)
        return 0
    from pbt import core
    if args.replay:
        return core.replay(args.replay)
    return core.Runner(args.property, args.tier, args.seed, args.only,
                       args.scale).run()


if __name__ == "__main__":
    sys.exit(main())
