"""Writes /verif/MANIFEST.json."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import check

ENERGY = ("TLA+ specification spec/EnergySystem.tla, checked and enumerated with TLC (Explore.tla); every behaviour TLC "
          "finds is replayed in the model the real code builds, and answers recorded from the real model (random, "
          "perturbed and extreme plans) are validated by TLC against the specification (Replay.tla)")
OWN = dict(
    C20="TLA+ specification spec/TimeAxis.tla: TLC enumerates axis descriptions and derives the axis or the rejection, each is "
        "replayed in the real EnergySystem and Model; real indexes (calendars, time zones, long and irregular ones) and the "
        "index helper are recorded and judged by TLC against the same specification (TimeAxisReplay.tla)",
    C21="TLA+ specification "
        "spec/Results.tla states what can be asked of a solved model as projections of the valuation of its variables, laws of "
        "the projections are checked with TLC (MCResults); real models get valuations in which all values differ, and TLC "
        "compares every recorded answer of the real code with the projection (ResultsReplay.tla)",
    C22="TLA+ specification "
        "spec/Results.tla states what can be asked of a solved model as projections of the valuation of its variables, laws of "
        "the projections are checked with TLC (MCResults); real models get valuations in which all values differ, and TLC "
        "compares every recorded answer of the real code with the projection (ResultsReplay.tla)",
    C19="TLA+ specification spec/Tsam.tla: the energy system specification (EnergySystem.tla) operates the typical steps and the "
        "specification unfolds this operation over the original horizon (occurrences, contents between and within the original "
        "periods, segments, limits); its laws are checked with TLC (TsamExplore.tla); the behaviours TLC finds are replayed in "
        "the real model and its own operations and reported results are validated by TLC (TsamReplay.tla)",
    C23="TLA+ specification spec/Lifecycle.tla: TLC enumerates the short and simulates long histories of adding nodes in any order, building, solving, storing results; every history is replayed with real systems of the energy system specification, in processes that hash differently, and every system and model has to be what the specification says it is (compared with references built alone)",
    C24="TLA+ specification spec/Lifecycle.tla: TLC enumerates the short and simulates long histories of adding nodes in any order, building, solving, storing results, dumping and restoring; every history is replayed with real systems of the energy system specification, in processes that hash differently, and every system and model has to be what the specification says it is (compared with references built alone)",
    C25="TLA+ specification spec/Validation.tla: TLC enumerates drafts of components and constraints parameter by parameter and "
        "names the rules each of them breaks; the drafts are built with the real classes and models, which have to refuse "
        "exactly those that break a rule",
    C27="TLA+ specifications spec/Notation.tla (TLC enumerates every parameter with every way of writing its value and what it "
        "means) and spec/Assembly.tla (TLC enumerates short and simulates long histories of making, adopting and adding nodes "
        "with their parents, labels and sides); each is replayed with systems of the energy system specification, and the real "
        "model has to be the one that specification was checked against",
    C26="TLA+ specifications spec/Solving.tla (histories of changing, relaxing and solving a model whose optimum TLC finds by "
        "enumeration) and spec/Attempts.tla (whatever a solver may answer); TLC enumerates and simulates histories, each is "
        "replayed with the real Model (cbc, or a solver that answers as told) and every report is judged by TLC; solved systems "
        "of the energy system specification are judged with Replay.tla and their dual values with Certificate.tla",
)
NOTES = dict(
    C21="about 110 systems in the quick tier, 1000 in the thorough one; values are assigned, not found by a solver",
    C22="about 110 systems in the quick tier, 1000 in the thorough one; values are assigned, not found by a solver",
    C19="1-3 investment periods of 2-4 original periods, up to 3 typical periods of 2-3 steps each; exact rational arithmetic in "
        "the specification, LP queries with 1e-6 tolerance against the code",
    C20="all descriptions of up to 4 points on a small grid of minutes; a sample of them is replayed in the quick tier, all "
        "in the thorough one; recorded indexes up to 8760 points",
    C23="histories of up to 14 actions with 2 systems and 4 models; conditions are compared literally, otherwise by the optima in 10 directions",
    C24="as C23; every dump is also restored in another process",
    C27="every way of writing each of about 80 parameters at least twice, and many at once; histories with up to 12 nodes; models are "
        "compared literally, otherwise by the optima in 20 directions",
    C26="histories of up to 14 actions (25 in the thorough tier); about 160 systems solved (830) and compared with the optimum "
        "another solver finds; linear programs certified by their dual values",
    C25="drafts of 11 kinds with up to 3 to 6 given parameters (more in the thorough tier); a sample with every combination of "
        "broken rules is built in the quick tier",
)
WHY_NOT = {}

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.FAMILIES or i in check.MODULES:
        tech = OWN.get(i, ENERGY)
        note = NOTES.get(i, "model checking within finite systems (2-5 steps, up to 12 flows, values on a rational grid); "
                            "exact rational arithmetic in the specification, LP/MILP queries with 1e-6 tolerance against the code")
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=WHY_NOT.get(i, "the specification does not cover this part yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
