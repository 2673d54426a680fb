"""python run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                                                     # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    a = ap.parse_args()
    module = importlib.import_module("checks." + a.id.lower())
    tier = "thorough" if a.tier == "thorough" else "quick"
    sys.exit(core.run_module(module, tier, a.replay, a.jobs))


if __name__ == "__main__":
    main()
