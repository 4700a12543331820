import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

CLI="the scram command line: XML model in, XML report out"
p("C01","Minimal cut sets are exact",
 "For every fault tree, with any nesting and sharing of gates of every supported connective, house events and constants, the minimal-cut-set analysis reports exactly the minimal sets of basic events whose joint occurrence (all other events not occurring) makes the top event true. No set is missing, none is repeated, and none contains another; a top event that is always true yields the single empty product with the unity warning, and one that can never occur yields no product with the null warning. This holds for each of the BDD, ZBDD and MOCUS algorithms.",
 ["inputs","configurations"],"every well-formed fault tree x {bdd, zbdd, mocus}",
 "The reliable tests only check exit codes of a few dozen fixed models; they never look at a product, and the interaction of preprocessing rewrites is only exercised by particular shapes of graphs.",
 ["src/preprocessor.cc","src/pdag.cc","src/bdd.cc","src/zbdd.cc","src/mocus.cc","src/fault_tree_analysis.cc"],
 [("graph construction from formulas","src/pdag.cc"),("equivalence-preserving preprocessing","src/preprocessor.cc"),("BDD/ZBDD construction and minimisation","src/bdd.cc, src/zbdd.cc"),("MOCUS expansion","src/mocus.cc")],
 [CLI+" (sum-of-products element)"],
 [("products","set of sets of basic-event literals per top event","core::FaultTreeAnalysis")])
p("C02","Prime implicants are exact",
 "For every fault tree, coherent or not, the prime-implicant analysis reports exactly the prime implicants of the Boolean function of the top event: every reported conjunction of literals implies the top event, dropping any literal breaks the implication, and every such conjunction is reported once.",
 ["inputs"],"every well-formed fault tree, including negations, xor/iff/imply/nand/nor/at-least/cardinality nesting",
 "No existing reliable test looks at a prime implicant; they depend on complement-edge handling that a handful of models cannot settle.",
 ["src/zbdd.cc","src/bdd.cc","src/preprocessor.cc","src/pdag.cc"],
 [("prime implicant extraction from BDD","src/zbdd.cc"),("complement propagation","src/preprocessor.cc")],[CLI])
p("C03","Order limit truncates exactly",
 "Limiting the product order to L reports exactly those products of the unlimited analysis that have at most L literals, for every model, algorithm and L, including for products that only arise through modules or substitution of sub-results. The reported distribution counts products by order consistently with the list.",
 ["inputs","configurations"],"every model x algorithm x limit (0..n)",
 "Reliable tests run one limit and check only the exit code; truncation interacts with module joining and minimisation at every node.",
 ["src/zbdd.cc","src/mocus.cc","src/bdd.cc","src/fault_tree_analysis.cc"],
 [("set_order / limit_order bookkeeping in ZBDD","src/zbdd.cc"),("MOCUS cut-set container limit","src/mocus.cc")],[CLI])
p("C04","Results do not depend on algorithm or presentation",
 "The reported products, total probability and importance factors depend only on the meaning of the model: they are identical for every algorithm, on every repetition, and under renaming of elements, reordering of definitions or arguments, splitting of the model over files in any order or over included files (XInclude), and gate-by-gate logical rewriting. This includes models far too large to enumerate.",
 ["inputs","configurations"],"every model (including the large Aralia benchmarks and generated models with 10^2..10^3 events) x equivalent presentations x algorithms",
 "The tests never compare two runs.",
 ["src/pdag.cc","src/preprocessor.cc","src/initializer.cc","src/zbdd.cc","src/bdd.cc","src/mocus.cc","src/risk_analysis.cc"],
 [("canonical variable ordering and indexing","src/preprocessor.cc"),("two-pass model assembly","src/initializer.cc")],[CLI])
p("C05","Exact top-event probability",
 "With no approximation requested, the reported probability of a top event equals the sum, over all combinations of basic-event occurrences that make it true, of the product of the individual probabilities, for every fault tree and probability assignment (including 0 and 1) and for every product-finding algorithm. The probability and contribution reported for each product are the product of its literal probabilities and its share of the sum over all products.",
 ["inputs","configurations"],"every fault tree x probability assignment x algorithm",
 "Reliable tests check exit codes only; modules, complements and sharing give the probability recursion many paths.",
 ["src/probability_analysis.cc","src/bdd.cc","src/preprocessor.cc","src/fault_tree_analysis.cc"],
 [("Shannon decomposition over BDD with modules","src/probability_analysis.cc"),("product probability","src/fault_tree_analysis.cc")],[CLI])
p("C06","Rare-event and MCUB approximations follow their formulas",
 "With the rare-event (respectively min-cut-upper-bound) approximation, the reported probability is min(1, sum) (respectively 1 minus the product of complements) of the probabilities of exactly the reported products, with a warning when the value was clipped to 1. For coherent models the exact probability never exceeds the MCUB value, which never exceeds the rare-event value.",
 ["inputs","configurations"],"every fault tree x probability assignment x algorithm x approximation",
 "Reliable tests check exit codes only.",
 ["src/probability_analysis.cc","src/fault_tree_analysis.cc","src/settings.cc"],
 [("RareEventCalculator / McubCalculator","src/probability_analysis.cc")],[CLI])
p("C07","Importance factors follow their definitions",
 "For every basic event occurring in some reported product, and for no other, the importance report gives the number of products it occurs in and MIF, CIF, DIF, RAW and RRW equal to their definitions in terms of the (exact or approximated) total probability with the event's probability set to 1, 0 or its own value. Factors that would divide by zero are reported as zero.",
 ["inputs","configurations"],"every fault tree x probability assignment x approximation",
 "Reliable tests check exit codes only; the BDD computes the derivative by a marking recursion through modules and complements.",
 ["src/importance_analysis.cc","src/bdd.cc"],
 [("BDD derivative with memoised factors","src/importance_analysis.cc"),("factor formulas","src/importance_analysis.cc")],[CLI])
p("C08","Probability over time and safety integrity levels",
 "With a time step, the reported curve contains the top-event probability at 0, every multiple of the step up to, and always at, the mission time, each equal to the probability obtained by evaluating the model at that time alone. The safety-integrity-level report gives the time-average of the curve, the average divided per hour, and the fraction of the mission time the curve spends in each SIL band, the fractions of the probability bands adding up to one.",
 ["inputs","configurations"],"every fault tree with time-dependent expressions x mission time x step",
 "Reliable tests check exit codes only.",
 ["src/probability_analysis.cc","src/parameter.cc","src/settings.cc"],
 [("time sweep with shared mission-time","src/probability_analysis.cc"),("ComputeSil / trapezoids","src/probability_analysis.cc")],[CLI])
p("C09","Uncertainty analysis is a faithful Monte-Carlo summary",
 "For a fixed seed the uncertainty results are reproducible; the reported mean, standard deviation, 95% confidence range, error factor, quantiles and histogram are mutually consistent summaries of one sample of the requested size lying in [0,1] and within the range the top-event probability can take over the input distributions. Within each trial every random parameter has one value wherever it is shared, including the distribution and factors that the events of a common-cause group share, and every trial redraws it; a model without random inputs is summarised by its point value with zero spread.",
 ["inputs","configurations","histories"],"every model x distribution parameters x trials x bins x quantiles x seed",
 "Existing tests run one seed and check only the exit code; sharing and resetting of samples is a history property over trials.",
 ["src/uncertainty_analysis.cc","src/expression.cc","src/expression/random_deviate.cc"],
 [("sample caching and reset per trial","src/expression.cc"),("accumulators","src/uncertainty_analysis.cc")],[CLI],
 [("sampled flag","each expression holds at most one value per trial","mef::Expression")])
p("C10","Common-cause groups expand to their published models",
 "With CCF analysis on, every member of a beta-factor, MGL, alpha-factor or phi-factor group fails exactly when its individual event or any common event containing it occurs, the common events carry the probabilities the chosen model prescribes from the group distribution and factors, and everything outside the groups is unaffected. With CCF analysis off, members are plain independent events with the group distribution; invalid factors or levels are rejected.",
 ["inputs","configurations"],"every group size, model kind, factor list and surrounding fault tree",
 "Reliable tests check exit codes only.",
 ["src/ccf_group.cc","src/model.cc","src/pdag.cc"],
 [("ApplyModel / CalculateProbabilities","src/ccf_group.cc"),("combination enumeration","src/ext/combination.h")],[CLI])
p("C11","Event-tree sequences collect exactly their paths",
 "Analysing an initiating event reports each reachable sequence of its event tree (through forks, named branches and links) once, and its formula is true exactly when some path to the sequence has all its collected formulas true under the house-event settings made on that path, its value being the sum over paths of the product of collected expressions when expressions are used. Settings and functional-event states made on one path never leak into another.",
 ["inputs","histories"],"every event tree x rules x instructions x links",
 "Reliable tests check exit codes only; leakage between paths is a history property of the walk.",
 ["src/event_tree_analysis.cc","src/event_tree.cc","src/instruction.cc","src/risk_analysis.cc"],
 [("SequenceCollector walk with forked path state","src/event_tree_analysis.cc"),("test-event context","src/expression/test_event.cc")],[CLI],
 [("path collector","collected formulas, expressions and house-event settings of the current path","core::EventTreeAnalysis")])
p("C12","Alignment phases are analysed in isolation",
 "For every alignment, each phase is analysed with the mission time scaled by its fraction and exactly its own house-event settings, and leaves no trace on other phases, other alignments or the model defaults. Alignments whose fractions do not add up to one or refer to unknown house events are rejected.",
 ["inputs","histories"],"every alignment with any number of phases and overlapping settings, in every order",
 "No reliable test looks at a phase result; leakage needs two phases with interfering settings.",
 ["src/alignment.cc","src/risk_analysis.cc"],
 [("scoped restore of house events and mission time","src/risk_analysis.cc")],[CLI],
 [("house event states","current constant per house event","mef::Model"),("mission time","shared parameter value","mef::MissionTime")])
p("C13","Substitutions act as documented",
 "A substitution without source events constrains the analysed top event to runs in which its hypothesis implies its target; a substitution with sources replaces the source events by the target in exactly the products satisfying the hypothesis, for every algorithm that supports it. Ill-formed or unsupported substitutions are rejected, never silently misapplied.",
 ["inputs","configurations"],"every model with one or more substitutions (delete-terms, recovery-rule, exchange-event, general declarative) x algorithm",
 "Reliable tests check only exit codes of one example.",
 ["src/substitution.cc","src/pdag.cc","src/zbdd.cc","src/mocus.cc","src/risk_analysis.cc"],
 [("declarative constraint added to graph","src/pdag.cc"),("non-declarative product rewriting","src/zbdd.cc")],[CLI])
p("C14","Expressions evaluate to their documented values",
 "Every expression of the input language (constants, units-free arithmetic, comparisons, conditionals, exponential, GLM, Weibull, periodic-test forms, means of distributions, parameters and mission time), nested arbitrarily and shared through parameters, evaluates to its documented value.",
 ["inputs"],"every well-formed expression tree and argument values",
 "Reliable tests check exit codes only.",
 ["src/expression.cc","src/expression/numerical.h","src/expression/exponential.cc","src/expression/random_deviate.cc","src/expression/conditional.h","src/initializer.cc"],
 [("operator evaluation","src/expression/*"),("expression factory from XML","src/initializer.cc")],[CLI+" (product probability)"])
p("C15","Only models with valid numeric domains are analysed",
 "A model is analysed only if every basic-event probability lies in [0,1] for its mean and its whole sample domain, and every expression's arguments satisfy the documented domain of that expression; otherwise it is rejected with an error before any result is produced. Valid models are not rejected.",
 ["inputs"],"every expression tree and argument value, at and around every domain boundary",
 "Reliable tests contain a few invalid files; boundaries of nested sample domains are not reached.",
 ["src/expression.cc","src/expression/numerical.cc","src/expression/random_deviate.cc","src/expression/exponential.cc","src/initializer.cc","src/model.cc"],
 [("Validate of each expression","src/expression/*"),("EnsureProbability","src/expression.cc")],[CLI+" exit code"])
p("C16","References resolve by the documented scoping rules",
 "In every arrangement of nested fault-tree containers with public and private elements, a reference resolves to the element the scoping rules designate (the path within the reference's own container first; then a single name stands for the public element of that name anywhere, and a path for the element with that full path from the top) and the analysis uses that element; a reference that designates nothing is rejected. The same holds for parameters, house events, gates and basic events.",
 ["inputs"],"every container nesting x role assignment x reference form",
 "Reliable tests check exit codes only, and for a couple of arrangements.",
 ["src/model.cc","src/initializer.cc","src/element.cc"],
 [("LookupTable by id and path","src/model.cc"),("role and base-path propagation","src/initializer.cc")],[CLI])
p("C17","Exactly the well-formed models are accepted",
 "A model is accepted if and only if it is well formed: no duplicate or undefined element, no cycle among gates, parameters, branches, rules or event-tree links, legal numbers of arguments and thresholds for every connective, no repeated argument, and legal group, alignment and substitution structure. Definition order and splitting over files or included files (XInclude) never matter, and a rejected model exits with status 1 and an error naming the problem, never a crash.",
 ["inputs"],"every model, well formed or with a defect injected anywhere",
 "Reliable tests contain a fixed list of bad files.",
 ["src/initializer.cc","src/model.cc","src/event.cc","src/cycle.h","src/cycle.cc","src/ccf_group.cc","src/fault_tree.cc","src/xml.h","share/input.rng"],
 [("two-pass registration/definition","src/initializer.cc"),("cycle detection","src/cycle.h"),("Formula arity validation","src/event.cc")],[CLI+" exit code and error text"])
p("C18","The report states the results and inventory faithfully",
 "The report is well-formed XML conforming to the published report schema and states exactly the analyses requested, the number of each kind of model element, each element left unused, and for each analysed top event the count, order distribution, event count and complete list of its products. All names read back as in the model, whatever legal characters they contain, and changing report formatting options changes nothing but whitespace.",
 ["inputs","configurations"],"every model and analysis configuration",
 "Reliable tests check exit codes only and never parse a report.",
 ["src/reporter.cc","src/xml_stream.h","src/initializer.cc","src/fault_tree_analysis.cc"],
 [("Reporter","src/reporter.cc"),("escaping","src/xml_stream.h"),("usage marking","src/initializer.cc")],["the XML report"])
p("C19","Serialisation round-trips the model",
 "Saving a loaded model as XML and loading it again gives a model with the same elements, names, labels, attributes, formulas, constants and expressions, and hence the same analysis results; saving the reloaded model gives the same file up to the order of definitions.",
 ["inputs","histories"],"every model made of the constructs serialisation supports",
 "No reliable test reloads a serialised model.",
 ["src/serialization.cc","src/xml_stream.h"],
 [("Serialize","src/serialization.cc")],["scram --serialize"])
p("C20","Settings combine and are enforced consistently",
 "The effective analysis settings are those of the configuration file overridden by exactly the options given on the command line, with the documented implications and defaults; contradictory or out-of-range settings are rejected with exit status 1 wherever they come from. The order in which options are given has no influence.",
 ["configurations","histories"],"every combination of project-file settings and command-line options, in every order",
 "Reliable tests run a few option combinations and check exit codes only.",
 ["src/settings.cc","src/scram.cc","src/project.cc"],
 [("Settings setters","src/settings.cc"),("ConstructSettings","src/scram.cc"),("Project parsing","src/project.cc")],[CLI+" (calculated-quantity and results)"])
p("C21","Editor undo and redo restore the model exactly",
 "In the graphical editor's command layer, after any history of add, remove, rename, relabel, formula, state, expression, flavour and type-change commands with interleaved undo and redo, the model equals the one obtained by applying the surviving commands to the original; undoing everything restores the original model, and saving it writes the original model (the order of definitions in the file is not part of the property).",
 ["histories"],"every sequence of editor commands, undo and redo",
 "The GUI tests apply one command of each kind, once.",
 ["gui/model.cpp","gui/model.h","gui/command.h","src/model.cc","src/fault_tree.cc"],
 [("Involution / Inverse command discipline","gui/command.h"),("commands","gui/model.cpp, gui/model.h")],["gui::model API driven by a QUndoStack"],
 [("undo stack","history of commands and current index","QUndoStack"),("model tables","gates, basic and house events, fault trees","mef::Model, gui::model::Model")])
p("C22","Editor views stay in step with the model",
 "The editor's element tables and model tree show at every moment exactly the elements and values of the model: every edit, undo and redo is announced by matching row or data notifications, and a view that only follows notifications never differs from one built afresh; a search keeps exactly the matching elements. The diagram of a gate shows at every moment its arguments in order, down to the events, each with its kind, the connective of every gate, every gate drawn out once and as a transfer to it elsewhere.",
 ["histories"],"every sequence of editor commands, undo and redo, with views attached at any time",
 "The GUI tests attach no view to the model.",
 ["gui/elementcontainermodel.cpp","gui/elementcontainermodel.h","gui/modeltree.cpp","gui/model.h","gui/diagram.cpp"],
 [("added/removed signal handlers","gui/elementcontainermodel.cpp, gui/modeltree.cpp"),("redraw","gui/diagram.cpp")],["QAbstractItemModel interface","QGraphicsScene of diagrams"])
p("C23","Generated fault trees are valid and as requested",
 "Every model produced by the fault-tree generator for admissible parameters is accepted by the analyser, is acyclic with a single top event, has the requested number of basic events, house events, CCF groups and gate counts where given, uses only connectives with non-zero weight, keeps probabilities within the requested bounds, and is identical for identical parameters and seed; the nested and the Aralia output state the same model, and the figures written with it are those of the model. Inadmissible parameters are rejected.",
 ["inputs","configurations"],"every generator parameter combination and seed",
 "Existing tests sample a few parameter sets and check the size of the output, not its structure.",
 ["scripts/fault_tree_generator.py"],
 [("GeneratorFaultTree / Factors","scripts/fault_tree_generator.py")],["generator output files"])
p("C24","The analysed top events are the right ones",
 "Without event trees, one result is reported for every gate that no other gate of the same top-level fault tree uses as an argument, and for nothing else; with initiating events, one result per sequence of every initiating event with an event tree, and with alignments one such family per phase. Results are labelled by the element they belong to.",
 ["inputs","configurations"],"every model with any number of roots, fault trees, initiating events and alignments",
 "Reliable tests check exit codes only.",
 ["src/fault_tree.cc","src/risk_analysis.cc","src/reporter.cc"],
 [("top event collection","src/fault_tree.cc"),("RunAnalysis loops","src/risk_analysis.cc")],[CLI])
p("C25","The editor's window shows, edits, saves and reopens the same document",
 "In the main window of the graphical editor, every session of adding, editing, renaming and removing elements, undoing and redoing, opening, saving and closing files acts on one document. The dialog of an event shows that event (all digits of its numbers); it can be accepted exactly when it describes a legal event (free well-formed name, complete numbers in range, arguments that satisfy the connective, no cycle), and accepting it changes the document to exactly what it shows and nothing else; arguments that do not exist become undeveloped events; accepting an untouched dialog changes nothing. Elements that others depend on are not removed. Undo and redo lead through the same documents; the modified mark is set exactly when the document differs in its history from what was last saved. A saved file holds the document and opens as the same document; opening adds files to the document as a whole or, on an error, changes nothing. Automatic saving writes modifications only to the one file a document came from; the recently opened files are offered, latest first. Creating, opening and closing never lose modifications without the user's answer. The title, tables, tree and enabled actions agree with the document, and results of an analysis disappear when the document changes.",
 ["inputs","histories"],"every session of gestures in the window, its dialogs and files",
 "The repository's GUI tests exercise single models and views; no test opens the main window or a dialog.",
 ["gui/mainwindow.cpp","gui/eventdialog.cpp","gui/model.cpp","gui/validator.cpp","src/serialization.cc"],
 [("dialog validation","gui/eventdialog.cpp"),("extraction and commands","gui/mainwindow.cpp"),("saving and opening files","gui/mainwindow.cpp")],
 ["MainWindow and its dialogs (offscreen)"],
 [("document","the model behind the window","gui::MainWindow::m_model"),("history","commands done and undone","gui::MainWindow::m_undoStack"),("files","the files the document came from","gui::MainWindow::m_inputFiles")])
p("C26","The editor's analyses are of the document and settings it shows",
 "In the graphical editor, the settings dialog shows the settings in force, always describes settings an analysis can have (prime implicants only with the exact algorithm, other algorithms only with an approximation, importance only with probabilities), obeys every click, and what is accepted is in force from then on, a cancelled dialog changing nothing. Running an analysis does not change the document; it is refused with a message exactly when probabilities are asked for and some event has none; otherwise it lists one result for the top gate of every fault tree, and the products, their orders, probabilities and contributions, the total probability and the importance factors in the list, in the tables it opens and in an exported report are those of the document shown, with the settings and the mission time in force. Results and their tables disappear when the document changes.",
 ["inputs","histories","configurations"],"every document and every sequence of settings, runs and edits",
 "The repository's GUI tests neither run an analysis nor open the settings or result views.",
 ["gui/mainwindow.cpp","gui/settingsdialog.cpp","gui/reporttree.cpp","gui/producttablemodel.cpp","gui/importancetablemodel.cpp"],
 [("settings dialog","gui/settingsdialog.cpp"),("runAnalysis, activateReportTree, resetReportTree","gui/mainwindow.cpp"),("result tables","gui/producttablemodel.cpp, gui/importancetablemodel.cpp")],
 ["MainWindow and its dialogs (offscreen)","exported report files"],
 [("settings","the settings in force","gui::MainWindow::m_settings"),("analysis","the analysis whose results are shown","gui::MainWindow::m_analysis"),("mission time","the mission time of the model","mef::Model::mission_time_")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
