"""Writes properties.jsonl and MANIFEST.json (run by hand after an edit; no check uses it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "hyperstatic/core/__init__.py"
MODEL = "hyperstatic/core/fe_model/model.py"
ASM = "hyperstatic/core/fe_model/assembly.py"
STATIC = "hyperstatic/core/fe_solver/static.py"
DYN = "hyperstatic/core/fe_solver/dynamic.py"
PN = "hyperstatic/core/fe_post/node.py"
PB = "hyperstatic/core/fe_post/beam.py"
POST = "hyperstatic/core/fe_post/__init__.py"
STO = "hyperstatic/common/storage.py"
BEAM = "hyperstatic/core/fe_model/element/line/beam.py"
SBEAM = "hyperstatic/core/fe_model/element/line/simple_beam.py"
LINE = "hyperstatic/core/fe_model/element/line/__init__.py"
QUAD = "hyperstatic/core/fe_model/element/quad/GQ12.py"
PAT = "hyperstatic/core/fe_model/load/pattern.py"
CASE = "hyperstatic/core/fe_model/load/loadcase.py"
SECB = "hyperstatic/core/fe_model/section/beam_section.py"
NODE = "hyperstatic/core/fe_model/node.py"
CSYS = "hyperstatic/common/csys.py"


def m(*a):
    return [{"name": n, "where": w} for n, w in a]


P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": mech}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": x, "where": w} for n, x, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)


prop("S01", "A save that was reported successful survives and loads back as the same model",
     "Once saving a model has been reported successful, loading that file later - in the same process, in a new one, or "
     "after a power loss - gives a model equivalent to the one that was saved: the same definitions, and the same "
     "answers when it is analysed. A loaded model works in the folder it was loaded from: its analyses leave their "
     "files there and read them from there, also when the folder was moved since it was saved.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "every model the interface can build, every sequence of saves, edits, loads, moves of the folder, process restarts "
     "and power losses between them",
     "No test saves a model, restarts and loads it; nothing in the tests controls what survives a power loss.",
     [CORE, MODEL, STO],
     m(("pickled snapshot of the model", MODEL + ": Model.save/load"), ("synchronised write, then rename", STO + ": atomic_open"),
       ("the workspace of a loaded model is the folder it was loaded from", CORE + ": Api.load")),
     [("<name> in the workspace", "the saved model", MODEL)], ["answers of the save and load calls; every definition query; results of the loaded model"])

prop("S02", "An interrupted or failed save never costs the previously saved model",
     "If saving over an existing file is interrupted or fails at any point - process death, power loss, full disk, I/O "
     "error - the file afterwards loads as a complete model: the one saved there before or the one being saved, never "
     "a truncated or mixed one and never none. A first save that is interrupted leaves either the complete model or "
     "no loadable model.",
     ["crash_points", "fault_sequences", "histories"],
     "a crash or failure before, during or after every file operation of a save, with every outcome of unsynchronised data, "
     "in every history of earlier saves",
     "The tests never interrupt or fail a file operation.",
     [CORE, MODEL, STO],
     m(("temporary file, fsync, rename, fsync of the folder", STO + ": atomic_open"), ("failed load reported", CORE + ": Api.load")),
     [("<name> in the workspace", "the saved model", MODEL)], ["load after the interruption"])

prop("S03", "Results depend only on the model as assembled, not on how it came about",
     "Every displacement, reaction, force, deformation and frequency is a function of the model as it stood when it was "
     "assembled and solved: the same model built in one go, or reached by overwriting definitions, failed calls, "
     "repeated analyses or other leftovers of earlier work in the folder, gives the same answers. The order in which "
     "nodes, beams, loads and cases were defined, the clock, random numbers and the hash seed of the process have no "
     "influence either.",
     ["histories", "inputs", "schedules"],
     "every sequence of defining, overwriting, assembling, solving and asking, with leftover files of earlier runs and any "
     "clock, entropy and hash seed",
     "Each test builds one model once in a fresh folder and asks one or two numbers.",
     [MODEL, ASM, STATIC, DYN, PN, PB, CASE, PAT],
     m(("snapshot of the model in an assembly", ASM + ": Assembly.__init__, assemble_K, assemble_f, assemble_boundary"),
       ("fresh solver per call", CORE + ": Api.solve_static, solve_modal"),
       ("fixed start vector of the eigenvalue solver", DYN + ": ModalSolver.solve_modal")),
     [(".asm", "assembled model", ASM), ("<case>.d, <case>.o", "solved case", STATIC + ", " + DYN)],
     ["every result query"])

prop("S04", "An interrupted analysis leaves no torn results, and acknowledged ones survive",
     "If assembling or solving is interrupted or fails at any point - process death, power loss, disk error - then "
     "afterwards every result query answers from one complete earlier or new analysis of the case it asks for, or "
     "says that there is none: never from a truncated file. An analysis that was reported successful can be read "
     "after any later crash.",
     ["crash_points", "fault_sequences", "histories"],
     "a crash or failure at every file operation of assembling and solving, and every outcome of unsynchronised data",
     "The tests never interrupt an analysis or read its results in another process.",
     [ASM, STATIC, DYN, STO, POST],
     m(("temporary file, fsync, rename", STO + ": atomic_open"), ("unreadable results answer none", CORE + ": result_get_*")),
     [(".asm", "assembled model", ASM), ("<case>.d, <case>.o", "solved case", STATIC + ", " + DYN)],
     ["every result query after the interruption"])

prop("S05", "Sessions sharing a folder see complete models and results only",
     "While one session saves, assembles or solves in a folder, another session that loads models or asks for "
     "results there at the same time gets for each file the complete content from before or after, never an "
     "intermediate one, under every interleaving. Two sessions writing the same file at the same time leave one of the two "
     "contents, complete, and neither is made to fail by the other.",
     ["schedules", "histories"],
     "every interleaving, at the file operations, of readers and writers of one folder",
     "All tests are sequential.",
     [STO, ASM, STATIC, DYN, MODEL, POST],
     m(("unique temporary name, then rename", STO + ": atomic_open")),
     [("files of the folder", "assembly, results, saved models", ASM + ", " + STATIC + ", " + MODEL)],
     ["answers of concurrent calls, and of later ones"])

prop("S06", "Statuses are truthful, and a refused call changes nothing",
     "A call that defines, changes, assembles, solves, saves or clears answers true only if it did what it says, and "
     "false if it could not: an undefined node, section, material, pattern or case that the call needs, nothing to "
     "analyse, an unstable structure that its loads set in motion, a disk error. A refused call leaves the model and earlier results as they were, "
     "queries about undefined things or without results answer none, and no call raises an exception.",
     ["inputs", "histories", "fault_sequences"],
     "every call with every combination of defined and undefined names, at any point of any history, with file operations "
     "failing at any point",
     "The tests only make calls that succeed.",
     [CORE, MODEL, ASM, STATIC, DYN],
     m(("statuses and caught exceptions", CORE + ": every method of Api"), ("checks of referenced names", MODEL + ": Model"),
       ("singular stiffness is refused", STATIC + ": StaticSolver.solve_linear")),
     None, ["answers of every call, and the definitions and results after a refused one"])

prop("S07", "Sessions in different folders do not influence each other",
     "Several models alive in one process, each in its own folder, behave as if each were alone: calls on one change "
     "no definition, file or result of another, in whatever order or interleaving they are made and although names are "
     "the same. Closing or clearing one leaves the others intact, and no call leaves what the whole process shares "
     "changed: its current folder, environment, file mask, import path, signal handlers, the treatment of warnings and log records or the way numpy treats floating point errors.",
     ["schedules", "histories"],
     "every interleaving of the calls of several sessions, including switches inside calls",
     "Each test has one session at a time.",
     [CORE, MODEL, ASM, NODE, PAT, CASE],
     m(("no shared mutable state between models", MODEL + ": Model.__init__"), ("results are found by the session's own folder", CORE + ": Api"))
     , None, ["every query of every session"])

prop("S08", "Static displacements are the linear response to the factored loads of the case",
     "A static case of a stable structure can be solved, and its displacements are those of the linear elastic "
     "structure under the sum of its patterns, each with its factor, as they were assembled: nodal loads as given, distributed and concentrated "
     "loads on beams in the beam's own axes. Hence responses superpose and scale with the factors, and a pattern that "
     "is not in the case has no influence on it.",
     ["inputs", "histories"],
     "every stable model of beams (any orientation, section, end releases) and shells, every combination of patterns, "
     "loads and factors, after every history of edits",
     "The tests compare a handful of single-beam cases with known numbers; the sum over patterns, factors, edits and "
     "orientations is open.",
     [ASM, STATIC, BEAM, SBEAM, LINE, PAT, CASE, CSYS, QUAD],
     m(("K d = sum of factors times f", ASM + ": assemble_K, assemble_f"), ("equivalent nodal loads", LINE + ", " + BEAM),
       ("transformation", CSYS), ("solution", STATIC)),
     None, ["nodal displacements, one and all"])

prop("S09", "Modal analysis returns the lowest true modes, reproducibly",
     "A successful modal analysis of a case gives the requested number of natural frequencies, or as many as the "
     "structure has (the iterative solver gives one mode fewer than there are free degrees of freedom), which are the lowest ones of the assembled model in ascending order under the supports of that case, and mode shapes "
     "that satisfy the vibration equation at their frequency and vanish at supports. Repeating it - in the same or "
     "another process, with any random state - gives the same frequencies and shapes.",
     ["inputs", "histories", "schedules"],
     "every stable beam model with masses of elements and nodes, every number of modes, every case with or without its own "
     "restraints, any history and random state",
     "One test computes the frequencies of one cantilever once.",
     [DYN, ASM, NODE, PN],
     m(("generalised eigenvalue problem", DYN + ": ModalSolver.solve_modal"), ("mass matrix", ASM + ": assemble_M"),
       ("frequencies from eigenvalues", PN + ", hyperstatic/core/fe_post/structure.py")),
     [("<case>.o, <case>.d", "eigenvalues and shapes", DYN)], ["frequencies, mode shapes and modal displacements of the solved case"])

prop("S10", "Reactions, end forces and deformations are in equilibrium with the loads",
     "For every solved static case the reactions, element end forces and nodal loads are in equilibrium at every node, and the "
     "end forces of every beam with the loads on it, in the case's factors; free nodes have no reaction and released "
     "ends carry no force in the released directions. The deformation reported along a beam that has no releases starts and "
     "ends with the displacements of its two nodes, in their order.",
     ["inputs", "histories"],
     "every stable model and load combination, every orientation of beams, every released end, after every history of edits",
     "The tests check a reaction and an end force of a few single beams.",
     [PN, PB, ASM, BEAM, SBEAM, LINE, CSYS],
     m(("reaction = K d - f", PN), ("end force = k u - f", PB), ("condensation of released ends", BEAM + ", " + LINE)),
     None, ["nodal reactions, beam end forces, beam deformation"])

prop("S11", "Work resumes in a bounded number of steps after any failure",
     "After any crash, disk error or full disk, once faults have stopped, loading the last saved model (or defining it "
     "anew), assembling and solving succeeds at the first attempt in the same folder and gives the results of an "
     "undisturbed run. Nothing a failure leaves behind - partial or temporary files, stale results - has to be "
     "removed by hand.",
     ["crash_points", "fault_sequences", "histories"],
     "every history with crashes and failing file operations, followed by one undisturbed attempt",
     "The tests have no failures to recover from.",
     [STO, CORE, ASM, STATIC, DYN, MODEL],
     m(("unique temporary names", STO + ": atomic_open"), ("workspace is created if it is missing", CORE + ": Api.__init__")),
     None, ["statuses and results of the first attempt after the faults"])

prop("S12", "Results stay those of the model as it was solved until it is solved again",
     "Displacements, reactions, forces and frequencies asked for after the model was changed, saved or assembled again are "
     "those of the last successful analysis of that case, complete and unmixed, until that case is solved again. Solving one case changes the results of no "
     "other, and solving takes the model as last assembled, whatever was edited since.",
     ["histories", "inputs"],
     "every interleaving of edits, assemblies, analyses of several cases and queries",
     "The tests solve once and then ask; none edits after assembling.",
     [ASM, STATIC, DYN, PN, PB, POST],
     m(("assembly is a file of its own", ASM + ": save/load"), ("results per case", STATIC + ", " + DYN), ("queries read the files", POST)),
     [(".asm", "model as last assembled", ASM), ("<case>.d, <case>.o", "results of the case", STATIC + ", " + DYN)],
     ["every result query between edits"])

prop("S13", "Only the session's own folder is touched; clearing it removes just that",
     "Whatever is called, and whatever fails, files are created, changed or removed only inside the folder of the session, "
     "and no temporary files stay behind after calls that were not interrupted. Clearing the workspace removes what analyses left "
     "in it, so that no result is answered any more, without touching anything outside, and the session goes on working "
     "afterwards.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of calls with failing file operations, folders next to each other, nested contents and several sessions",
     "The tests never look at what is on the disk and never clear a workspace.",
     [CORE, STO, ASM, STATIC, DYN, MODEL],
     m(("paths are joined to the workspace", CORE + ", " + MODEL + ", " + ASM + ", " + STATIC), ("clear_workspace", CORE),
       ("temporary files are removed on failure", STO)),
     None, ["the file tree before and after every call"])

prop("S14", "Queries change nothing, and what they return is the caller's own",
     "Asking - for definitions or for results, with defined or undefined names, any number of times, in any order - changes "
     "neither the model nor any file nor the answer of any later query. Changing a list, tuple, dictionary or array "
     "that was returned has no effect on the model or on later answers and analyses.",
     ["histories", "inputs"],
     "every interleaving of queries, changes to returned values and other calls",
     "The tests ask once and discard the answer.",
     [CORE, MODEL, NODE, PAT, PN, PB],
     m(("copies", CORE + ": get_*", ), ("results are read from files anew", POST)),
     None, ["all queries before and after"])

prop("S15", "Definitions read back as they were accepted; the last one counts",
     "After any accepted sequence of definitions, the queries list exactly the nodes, beams and shells accepted, with the "
     "coordinates, end nodes, restraints and loads of the last accepted definition, independently of the order of "
     "calls. Defining something anew replaces it and leaves everything else as it was; nodal restraints asked for a "
     "case are the ones defined for that case.",
     ["inputs", "histories"],
     "every sequence of defining and redefining calls, valid and refused, with any names (unicode, empty, long) and numbers",
     "The tests define each thing once, with a few fixed names.",
     [CORE, MODEL, NODE, PAT, CASE],
     m(("dictionaries by name", MODEL + ": Model"), ("queries", CORE + ": get_*")),
     [("model", "nodes, beams, shells, patterns, cases", MODEL)], ["definition queries after every call"])

prop("S16", "Each case is solved with its own supports",
     "In the results of a case every restrained direction of a node has zero displacement; a case that has restraints of its own "
     "is supported by them alone, all others by the supports of the model, also when both kinds of cases are "
     "solved one after the other in any order. Redefining a support or a case's own restraints takes effect at the next "
     "assembly and only on the cases concerned.",
     ["histories", "inputs"],
     "every mix of global and case-specific restraints, order of cases and redefinitions",
     "No test uses the restraints of a case or more than one case.",
     [ASM, STATIC, DYN, CASE, MODEL, PN],
     m(("restrained DOFs per case", ASM + ": restraintDOF, K_bar"), ("expansion to all DOFs", PN + ", " + STATIC)),
     None, ["displacements and reactions at supports"])

sys.path.insert(0, os.path.join(V, "tools"))
if os.path.exists(os.path.join(V, "tools", "more_props.py")):
    exec(open(os.path.join(V, "tools", "more_props.py")).read())

NA = []
if os.path.exists(os.path.join(V, "tools", "na.py")):
    exec(open(os.path.join(V, "tools", "na.py")).read())

TECH = "deterministic simulation with fault injection: seeded search over histories, schedules and faults, {}"
HOW = {
    "S01": "loaded models compared with a reference model; simulated disk with power loss",
    "S02": "a fault or crash at every file operation of a save",
    "S03": "answers compared with a twin built in one go; runs compared across hash seeds",
    "S04": "a fault or crash at every file operation of an analysis",
    "S05": "interleavings at file operations, register (old or new content) model",
    "S06": "statuses against a reference model, under faults",
    "S07": "interleaved sessions against one reference model each",
    "S08": "displacements against superposition of unit-load responses and equilibrium",
    "S09": "residual, count, order and repetition of modes under varied entropy",
    "S10": "equilibrium of recorded results after every history",
    "S11": "one undisturbed attempt after faults stop, against a twin",
    "S12": "register model of assemblies and results per case",
    "S13": "file tree compared around every call, under faults",
    "S14": "model dump and file tree around every query, mutation of returned values",
    "S15": "definition queries against a reference model",
    "S16": "supports of the reference model against displacements and reactions",
}
NOTE = ("Seeded exploration, not proof: holds on the runs the evidence counts. Trusts the reference model and checker in sim/, the "
        "simulated disk, numpy and scipy; quadpy is a stub.")

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    na = {n["property"] for n in NA}
    man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [
        {"property": d["id"], "quick_cmd": "./check %s quick" % d["id"], "thorough_cmd": "./check %s thorough" % d["id"],
         "evidence_file": "evidence/%s.json" % d["id"], "technique": TECH.format(HOW[d["id"]]),
         "level": "exploration", "level_note": NOTE} for d in P if d["id"] not in na],
        "not_applicable": NA,
        "notes": "No hooks in /repo: the seams are the calls the code makes (open, os, shutil, tempfile, time, uuid, entropy), "
                 "patched while a run is simulated. Repairs of genuine defects are the fix: commits listed in "
                 "known_findings.json."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
