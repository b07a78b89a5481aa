"""python -m mon.run PROPERTY [--tier T] [--seed N] [--section NAME ...] | --replay FILE | --all"""
import argparse
import os
import pathlib
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("KOMM_REPO", "/repo")
sys.path.insert(0, str(pathlib.Path(REPO) / "src"))


def load():
    warnings.simplefilter("ignore")
    import komm
    root = pathlib.Path(komm.__file__).resolve()
    if not root.is_relative_to(pathlib.Path(REPO).resolve()):
        print(f"INCONCLUSIVE: komm was imported from {root}")
        sys.exit(4)
    from . import observe
    observe.install()
    import importlib
    here = pathlib.Path(__file__).parent
    for f in sorted(here.glob("p_*.py")):
        importlib.import_module(f"mon.{f.stem}")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--section", nargs="*")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    load()
    from . import core
    if a.replay:
        sys.exit(core.replay(a.replay))
    if a.list:
        for p in sorted(core.SECTIONS):
            print(p, [(s.name, s.count("quick"), s.count("thorough")) for s in core.SECTIONS[p]])
        return
    if a.prop not in core.SECTIONS:
        print(f"INCONCLUSIVE: no monitor for {a.prop}")
        sys.exit(4)
    sys.exit(core.main(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed, a.section, a.workers))


if __name__ == "__main__":
    main()
