"""Installing the simulated environment before the code under test is imported."""

import sys

from sim.core import REPO, install_repo_path

_state = {"installed": None}


def install_fakes():
    """Replace every solver package by its simulation; then import the library."""
    if _state["installed"]:
        return
    from sim.solver import fake_gurobipy, fake_mip, fake_ortools

    for maker in (fake_gurobipy, fake_mip, fake_ortools):
        for name, mod in maker.make_module().items():
            sys.modules[name] = mod
    import_library()
    _state["installed"] = "fakes"


def import_library():
    install_repo_path()
    import abcvoting.abcrules
    import abcvoting.fileio
    import abcvoting.generate
    import abcvoting.misc
    import abcvoting.output
    import abcvoting.preferences
    import abcvoting.properties
    import abcvoting.scores

    path = abcvoting.abcrules.__file__
    if not path.startswith(REPO + "/"):
        raise RuntimeError(f"library imported from {path}, expected {REPO}")
    import networkx  # warm up imports used lazily

    networkx.DiGraph()
