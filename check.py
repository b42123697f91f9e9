#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]: run one check against the sd-mecha tree in /repo."""
import os
import sys

WANTED = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
}
PYTHON = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in WANTED.items()):
    os.environ.update(WANTED)
    python = PYTHON if os.path.exists(PYTHON) else sys.executable
    os.execv(python, [python, os.path.abspath(__file__), *sys.argv[1:]])

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.dont_write_bytecode = True


def main():
    import importlib
    import logging
    prop = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    import torch
    torch.set_num_threads(1)
    import warnings
    warnings.simplefilter("ignore")
    sys.pycache_prefix = "/nonexistent"  # never trust bytecode caches of the tree under test
    import sd_mecha
    sys.pycache_prefix = None
    import tqdm
    tqdm.tqdm.monitor_interval = 0  # no monitor thread: threads are counted by some monitors
    assert os.path.realpath(sd_mecha.__file__).startswith(os.path.realpath(REPO) + os.sep), sd_mecha.__file__
    logging.disable(logging.NOTSET)
    logging.getLogger().addHandler(logging.NullHandler())
    if prop == "--setup":
        print("sd_mecha imports from", os.path.dirname(sd_mecha.__file__))
        return 0
    from mon import core
    try:
        mod = importlib.import_module(f"props.{prop.lower()}")
    except Exception as e:
        if not core.repo_in_tb(e):
            raise
        return core.broken_import(prop, e)
    return core.main(mod, replay)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
