"""Bootstrap: import paths, quiet logging, no bytecode.

The code under test is imported from /repo (or $JINETE_REPO, used only for scratch-copy experiments);
hypothesis is taken from the preinstalled tool venv, appended *after* the project's own dependencies.
"""
import logging
import os
import sys

REPO = os.environ.get("JINETE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("JINETE_OUT", VERIF)      # replays and evidence (elsewhere only in scratch experiments)

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
for extra in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if extra not in sys.path:
        sys.path.append(extra)

logging.disable(logging.CRITICAL)


class HarnessError(Exception):
    """The harness itself is at fault (never reported as a violation)."""


def load_sut():
    import jinete

    where = os.path.realpath(jinete.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"jinete imported from {where}, not from {REPO}")
    return jinete
