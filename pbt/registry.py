"""Finds the check of a property: pbt/checks/c<nn>_*.py with a module-level CHECK."""
import importlib
import pathlib

_DIR = pathlib.Path(__file__).parent / "checks"


def modules():
    return {p.stem.split("_")[0].upper(): f"pbt.checks.{p.stem}"
            for p in sorted(_DIR.glob("c[0-9][0-9]_*.py"))}


def load(pid):
    return importlib.import_module(modules()[pid]).CHECK
