#!/usr/bin/env python3
"""Write MANIFEST.json from the checks present and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC, bound to the real program by conformance checking: "
NOTES = {
 "C01": ("trees enumerated by TLC (FtEnum) and seeded random trees are analysed by the real program; TLC validates every recorded result against FaultTree.tla/BoolFn.tla",
         "exhaustive over all enumerated two-event trees of two gates and coherent trees of four gates (sampled in quick); sampled beyond (2-9 events, 1-26 gates)"),
 "C02": ("as C01, for prime implicants", "exhaustive over all enumerated two-event trees of two gates; sampled beyond"),
 "C03": ("as C01, with every limit 0-5 per tree", "sampled trees; every limit and algorithm per tree"),
 "C04": ("the published benchmark trees, random trees of up to 110 events and random sources of every construct are analysed in many presentations with every algorithm; TLC checks that each rewriting is one Present.tla allows (local equivalence, whose laws are model-checked in PresentLaws), that one question has one answer, and that products shown are minimal cut sets of the model",
         "laws exhaustive for small gates; presentations, algorithms and models sampled; answers compared with each other and, for some products, with the meaning of the model"),
 "C05": ("reported probabilities of seeded random trees are validated by TLC against Quant.tla (exact rational Shannon reduction over the satisfying points)",
         "sampled trees (2-9 events) and probability vectors including 0, 1 and tiny values; exact arithmetic oracle, 6 reported digits compared"),
 "C06": ("the laws of the approximations are model-checked for every Boolean function of three variables (QuantLaws); reported values of seeded trees are validated against Quant.tla",
         "laws exhaustive for three variables and four probability values; implementation sampled"),
 "C07": ("importance factors of seeded trees are validated by TLC against the definitions of Quant.tla (conditional probabilities computed exactly)",
         "sampled trees; every factor of every event, exact and approximate, with rounding budget of 16-digit arithmetic"),
 "C08": ("curves and SIL reports of seeded time-dependent trees are validated by TLC against Quant.tla and Expr.tla (every curve point evaluated on its own)",
         "sampled trees, mission times and steps"),
 "C14": ("parameters defined by seeded random expressions are evaluated by the real program; TLC validates every reported value against Expr.tla (40-digit real arithmetic)",
         "sampled expressions (all supported node kinds, nested and shared)"),
 "C15": ("models with seeded valid, invalid and borderline expressions are loaded by the real program; TLC derives from ExprDomain.tla which must be accepted, which must be rejected and which are undecided, and validates each outcome",
         "sampled models; borderline cases within rounding are left undecided"),
 "C09": ("models whose random inputs have finitely many values are analysed with 1, 2, 3, ... trials of one seed: the history of the generator read off trial by trial must be a behaviour of Uncertainty.tla (every trial a feasible draw shared by all events that share the parameter) and every reported statistic must be the exact one of that history; runs of 20000 trials, independence counts and continuous distributions are compared by TLC with exact moments and distribution functions",
         "sampled models and seeds; histories exact for up to 10 trials; distributions statistical, 7 standard errors"),
 "C10": ("models with seeded common-cause groups (all four kinds, also ill formed) are analysed; TLC derives the events and probabilities each group must generate from Ccf.tla and validates products and probabilities",
         "sampled groups of 2-5 members, levels and factors"),
 "C11": ("seeded event trees are analysed; TLC walks every path of EventTree.tla and validates the sequences, their functions and values",
         "sampled models with up to 60 paths"),
 "C12": ("seeded alignments are analysed; TLC evaluates every phase of System.tla on its own and validates each reported result against it",
         "sampled models of 1-2 alignments with 1-4 phases"),
 "C13": ("seeded substitutions are analysed with every algorithm; TLC applies Subst.tla to the exact set of minimal cut sets and validates the reported products and probabilities",
         "sampled models with 1-3 substitutions; order limits only with declarative ones"),
 "C16": ("seeded sources with nested containers, roles, few names and every form of reference are analysed in several presentations; TLC resolves every reference with Source.tla, decides acceptance and checks products and probabilities of every top gate",
         "model checking of recorded runs against the resolution rules written in Source.tla; sources are sampled"),
 "C17": ("seeded whole sources (fault trees, groups, event trees, alignments, substitutions), most of them mutated or with an invalid file, are validated and analysed in several presentations; TLC derives from Source.tla what is wrong with each and checks acceptance, exit status, kind and content of the error",
         "model checking of recorded runs against the well-formedness written in Source.tla; sources and mutations are sampled; the XML schema is covered by corrupted files only"),
 "C18": ("seeded well-formed sources with unused elements and unusual names are analysed with random settings and their reports, written in several ways, are compared by TLC with Report.tla: validity for the published schema (RELAX NG derivatives in Schema.tla), inventory, unused elements, analyses, results present, counts, distributions, members and products",
         "model checking of recorded reports; sources and settings are sampled; products are recomputed for models of fault trees only, their bookkeeping is checked for all"),
 "C19": ("seeded models with unusual names, labels, attributes, numbers and every connective are saved, reloaded, saved and analysed again; TLC compares every saved document with the model by Serial.tla",
         "model checking of recorded saves; models are sampled from the constructs scram saves (fault trees, gates, basic and house events, constants, exponentials)"),
 "C20": ("TLC explores every history of requests over a small set of values in Settings.tla and each explored step is replayed on the real settings object; random request histories and whole runs with project files and command lines are validated by TLC against the settings they must lead to",
         "exhaustive over the states and requests of SettingsEnum; sampled values and runs beyond"),
 "C21": ("TLC generates histories of editor commands, undo and redo from Editor.tla (exhaustive short ones, random long ones); each is replayed on the real undo stack and TLC compares the model and the saved file with the specification after every step",
         "exhaustive for histories of up to two commands from two initial models; random histories of up to 12 steps beyond"),
 "C22": ("as C21; observers that follow only the notifications of the real item models (tables, tree and sorted proxies) are compared by TLC with the rows Editor.tla prescribes after every step",
         "as C21, views attached before or during the history, several sort columns"),
 "C23": ("the real generator is run for seeded parameters in and around the admissible ones, again in another process, nested and in the Aralia format; TLC decides admissibility with Generator.tla and checks the structure, counts, bounds, figures and sameness of every model written; scram must accept it",
         "sampled parameters and seeds, up to 3000 basic events; the mix of connectives statistical (7 standard deviations)"),
 "C25": ("TLC explores every dialog that a few gestures reach (WindowEnum: every document stays sound, accepting an untouched dialog changes nothing) and the accepted ones are replayed in the real main window, offscreen; random sessions over all actions, dialogs and files, drawn from what the window shows, are validated step by step by TLC against Window.tla",
         "exhaustive over an alphabet of gestures up to 5 per dialog (sampled for the replay); random sessions of up to 40 commands over three documents"),
 "C26": ("TLC explores every state of the settings dialog (WorkEnum: every accepted state is one an analysis can have) and every click in every state is replayed in the real dialog; random sessions of settings, runs, result tables, exported reports, edits and undo in the real window, offscreen, are validated by TLC: what every result shows is computed in TLA+ from the document shown (FaultTree, Quant) and the settings in force",
         "exhaustive for clicks in the settings dialog; random sessions over sampled documents of up to 6 basic events"),
 "C24": ("seeded models with several fault trees, top gates, event trees and alignments are analysed; TLC derives from System.tla which results must be present",
         "sampled models"),
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and os.path.exists(V + "/checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(),
                       "thorough_cmd": "python3 checks/%s.py --tier thorough" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": T + NOTES[i][0], "level": "model_checking",
                       "level_note": NOTES[i][1] + ". Trusts TLC, the XML rendering of models and the parsing of reports in lib/."})
    else:
        na.append({"property": i, "reason": "machinery under construction: not claimed yet"})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the program is driven through its command line, the editor through its public classes."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed")
