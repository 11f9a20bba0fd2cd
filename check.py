#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]: run one check against /repo."""

import argparse
import importlib
import os
import sys

ENV = {"OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "CUDA_VISIBLE_DEVICES": ""}
HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if any(os.environ.get(k) != v for k, v in ENV.items()) or sys.flags.no_site:
        os.environ.update(ENV)
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-u", os.path.abspath(__file__)] + sys.argv[1:])
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    from harness import core

    sys.path.insert(0, core.REPO)
    replay = os.path.abspath(a.replay) if a.replay else None
    code = 2
    cwd = os.getcwd()
    import tempfile, shutil

    scratch = tempfile.mkdtemp(prefix="verif_cwd_")
    os.chdir(scratch)  # importing the package under test writes a log file into the working directory
    try:
        import warnings

        warnings.filterwarnings("ignore")
        try:
            import torch

            torch.set_num_threads(1)
            import artist.io  # noqa: F401
        except BaseException as e:
            # a tree that cannot be imported holds no property
            if core.in_repo(e.__traceback__):
                os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
                rp = os.path.join(HERE, "evidence", f"{a.property}.replay.ndjson")
                with open(rp, "w") as f:
                    f.write('{"kind": "import"}\n')
                print(f"the code under test cannot be imported: {e!r}")
                print(f"VIOLATION property={a.property} replay={rp}")
                code = 1
                return code
            raise
        module = importlib.import_module(f"harness.{a.property.lower()}")
        code = core.run_check(a.property, module, a.tier, a.seed, replay)
    except core.Machinery as e:
        print(f"ERROR {a.property}: {e}")
        code = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc if rc is not None else 2)
