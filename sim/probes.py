"""The histories of the known findings, executed. True: the finding shows."""
import os
import shutil
import tempfile

from . import target


def _cantilever(api, load):
    api.add_node("a", 0, 0, 0)
    api.add_node("b", 2, 0, 0)
    api.add_simple_beam("m", "a", "b", 2e11, .3, .02, 3e-4, 2e-4, 2e-4, 7850.0)
    api.set_nodal_restraint("a", True, True, True, True, True, True)
    api.add_loadpattern("p")
    api.set_nodal_load("p", "b", 0, 0, load, 0, 0, 0)
    api.add_static_case("c")
    api.add_case_pattern("c", "p", 1.0)


def reassembled_not_resolved():
    """solve, change a load, assemble again, ask a reaction without solving again"""
    ns = target.load()
    d = tempfile.mkdtemp(prefix="vp")
    try:
        api = ns.Api(os.path.join(d, "w"))
        _cantilever(api, 1000.0)
        api.add_loadpattern("q")
        api.set_nodal_load("q", "b", 0, 0, 500.0, 0, 0, 0)
        assert api.assemble() and api.solve_static("c")
        api.add_case_pattern("c", "q", 1.0)
        assert api.assemble()
        r = api.result_get_nodal_reaction("b", "c")         # a free node
        return r is not None and bool(abs(r[2]) > 1e-3)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def oblong_plate():
    """a plate strip of elements twice as long as wide, bent by a load at its free end"""
    ns = target.load()
    d = tempfile.mkdtemp(prefix="vp")
    try:
        api = ns.Api(os.path.join(d, "w"))
        for i in range(3):
            for j in range(2):
                api.add_node("%d%d" % (i, j), 2.0 * i, 1.0 * j, 0.0)
        api.add_isotropic_material("m", 7849.0, 2e11, 0.0, 1e-5)
        api.add_shell_section("s", "m", .1, "shell")
        api.add_loadpattern("p")
        for i in range(2):
            api.add_shell("q%d" % i, "%d0" % i, "%d0" % (i + 1), "%d1" % (i + 1), "%d1" % i, "s")
        for j in range(2):
            api.set_nodal_restraint("0%d" % j, *[True] * 6)
            api.set_nodal_load("p", "2%d" % j, 0, 0, -500.0, 0, 0, 0)
        api.add_static_case("c")
        api.add_case_pattern("c", "p", 1.0)
        assert api.assemble() and api.solve_static("c")
        w = api.result_get_nodal_displacement("20", "c")[2]
        want = -1000.0 * 4 ** 3 / 3 / (2e11 * .1 ** 3 / 12)      # the beam of width 1
        return bool(abs(w / want - 1) > .2)
    finally:
        shutil.rmtree(d, ignore_errors=True)
