"""The property list; tools/docs.py turns it into properties.jsonl and MANIFEST.json."""
NOT_CLAIMED = []
TESTS = ("The 16 tests that run here exercise a parser, three printers and four rewriting examples; ")
PROPS = [
 dict(id="C01", title="Reachability verdicts are exact under every strategy and option set",
  statement="For every place/transition net (weights, inhibitor arcs, any initial marking) whose reachable markings are finite, and every EF/AG query over token counts, fireability and deadlock, the printed verdict equals the one obtained by enumerating all reachable markings. This holds for every search strategy and every combination of structural reduction, query simplification, partial order reduction, trace generation and seeds, and a verdict is always given. The order or presentation of elements in the input files never matters.",
  over=["inputs", "configurations"], forall="all bounded nets, all EF/AG queries, all combinations of search strategy and preprocessing options",
  why=TESTS + "none of them explores a net, and no fixed list covers the product of nets, queries and option combinations.",
  files=["src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/Reachability/ReachabilitySearch.cpp", "include/PetriEngine/Reachability/ReachabilitySearch.h", "src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/PetriNetBuilder.cpp", "src/VerifyPN.cpp"],
  mech=[("successor generation", "src/PetriEngine/SuccessorGenerator.cpp"), ("evaluation of state predicates", "src/PetriEngine/PQL/Evaluation.cpp"), ("search loop and queues", "src/PetriEngine/Reachability/ReachabilitySearch.cpp"), ("marking storage", "include/PetriEngine/Structures/StateSet.h"), ("reading of nets and queries", "src/PetriParse/PNMLParser.cpp, src/PetriParse/QueryXMLParser.cpp")],
  observe=["FORMULA lines on stdout"],
  technique="differential property-based testing of the CLI against an independent explicit-state reference",
  note="Random bounded nets and queries, several option sets each; a wrong, missing or contradictory verdict, a crash or a hang is a violation. Trusts the Python reference and the stand-in for the ptrie library."),
 dict(id="C02", title="CTL and global-property verdicts are exact for both fixed-point algorithms",
  statement="For every bounded net and every CTL query (arbitrarily nested, any mix of quantified path operators, boolean operators, token-count comparisons, fireability and deadlock) the verdict equals textbook evaluation over the full state space with maximal (possibly finite) runs as paths. The same holds for the global properties (k-safeness, quasi-liveness, stable marking, liveness). The choice of fixed-point algorithm, search order, reductions and simplification never changes the answer.",
  over=["inputs", "configurations"], forall="all bounded nets, all CTL formulae and global properties, all algorithm/strategy/preprocessing choices",
  why=TESTS + "the CTL engine is not executed by any of them.",
  files=["src/CTL/CTLEngine.cpp", "src/CTL/Algorithm/CertainZeroFPA.cpp", "src/CTL/Algorithm/LocalFPA.cpp", "src/CTL/PetriNets/OnTheFlyDG.cpp", "src/PetriEngine/PQL/PushNegation.cpp"],
  mech=[("on-the-fly dependency graph", "src/CTL/PetriNets/OnTheFlyDG.cpp"), ("certain-zero and local fixed points", "src/CTL/Algorithm"), ("negation normal form", "src/PetriEngine/PQL/PushNegation.cpp")],
  observe=["FORMULA lines on stdout"],
  technique="differential property-based testing of the CLI against a textbook CTL evaluator",
  note="Random bounded nets, nesting depth up to 4; trusts the Python CTL evaluator."),
 dict(id="C03", title="LTL verdicts are exact for every algorithm, heuristic and reduction",
  statement="For every bounded net and every LTL formula under A or E, the verdict equals evaluation over all infinite runs, where a deadlocked marking repeats forever. This holds for every exploration algorithm, partial order method, search heuristic and automaton option, and with reductions and simplification on or off.",
  over=["inputs", "configurations"], forall="all bounded nets, all LTL formulae with quantifier A or E, all algorithm, heuristic and reduction options",
  why=TESTS + "the LTL engine is not executed by any of them.",
  files=["src/LTL/LTLSearch.cpp", "src/LTL/Algorithm/TarjanModelChecker.cpp", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp", "src/LTL/Stubborn/AutomatonStubbornSet.cpp", "src/LTL/Stubborn/VisibleLTLStubbornSet.cpp", "include/LTL/SuccessorGeneration/ProductSuccessorGenerator.h"],
  mech=[("product of net and automaton", "include/LTL/SuccessorGeneration"), ("accepting cycle search", "src/LTL/Algorithm"), ("LTL stubborn sets", "src/LTL/Stubborn")],
  observe=["FORMULA lines on stdout"],
  technique="differential property-based testing of the CLI against a tableau-based LTL evaluator",
  note="Random bounded nets, up to 4 temporal operators. Spot is not available offline; automata come from a stand-in in standins/spot, so Spot's own translation and optimisation levels are outside the check."),
 dict(id="C04", title="Structural net reductions never change an answer",
  statement="For every bounded net and every reachability, CTL, LTL or upper-bound query, simplifying the net structurally before the search gives the same answer as the unreduced net. This holds for the built-in reduction levels and, for reachability-like queries, for every user-chosen sequence of reduction rules.",
  over=["inputs", "configurations"], forall="all bounded nets, all supported queries, all reduction levels and rule sequences",
  why=TESTS + "no reduction rule is executed by them, and soundness of a rule is a statement about all nets and queries.",
  files=["src/PetriEngine/Reducer.cpp", "include/PetriEngine/Reducer.h", "src/PetriEngine/PQL/PredicateCheckers.cpp", "src/PetriEngine/PQL/PlaceUseVisitor.cpp"],
  mech=[("rules A to S", "src/PetriEngine/Reducer.cpp"), ("places and transitions kept for the query", "src/PetriEngine/PQL/PlaceUseVisitor.cpp"), ("selection of rules by query class", "src/PetriEngine/PQL/PredicateCheckers.cpp")],
  observe=["FORMULA lines on stdout"],
  technique="differential property-based testing: reduced run against explicit-state reference",
  note="Random nets seeded with reduction-friendly patterns; every rule fires in each run (counted in evidence). Rule sequences are restricted to the documented query classes."),
 dict(id="C05", title="Partial order reduction never changes an answer",
  statement="For every bounded net and every reachability, deadlock, CTL, LTL or upper-bound query, exploring with stubborn sets gives the same answer as exploring every interleaving. Every strategy and every LTL partial order method satisfies this.",
  over=["inputs", "configurations", "schedules"], forall="all bounded nets, all supported queries, all strategies and partial order methods",
  why=TESTS + "none runs a stubborn-set exploration, and a lost interleaving shows only on nets where it matters.",
  files=["src/PetriEngine/Stubborn/StubbornSet.cpp", "src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp", "src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp", "src/LTL/Stubborn", "src/PetriEngine/ReducingSuccessorGenerator.cpp"],
  mech=[("closure under enabling/disabling", "src/PetriEngine/Stubborn/StubbornSet.cpp"), ("transitions interesting for a predicate", "src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp"), ("LTL stubborn sets", "src/LTL/Stubborn")],
  observe=["FORMULA lines on stdout", "state counts for non-triviality"],
  technique="differential property-based testing: stubborn-set run against explicit-state reference",
  note="Random concurrent nets; counts cases where the reduced run really explored fewer states."),
 dict(id="C06", title="Query rewriting and simplification preserve the meaning of the query",
  statement="For every bounded net and every CTL, reachability or LTL query, the query the tool writes after simplification has the same truth value on the model as the query that was read, and a verdict that simplification reports on its own is right. This covers negation pushing, formula rewriting, evaluation in the initial marking, linear-programming based pruning and the merging of comparisons.",
  over=["inputs", "configurations"], forall="all bounded nets, all queries, all simplification settings",
  why=TESTS + "the rewriting examples cover four formulae without a net; equivalence is a statement about all formulae and markings.",
  files=["src/PetriEngine/PQL/PushNegation.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/Simplification/LinearPrograms.cpp", "src/PetriEngine/Simplification/LinearProgram.cpp", "src/PetriEngine/PQL/Expressions.cpp", "src/PetriEngine/PQL/XMLPrinter.cpp"],
  mech=[("negation pushing and rewrite rules", "src/PetriEngine/PQL/PushNegation.cpp"), ("linear-program pruning", "src/PetriEngine/PQL/Simplifier.cpp, src/PetriEngine/Simplification"), ("interval conjunctions", "src/PetriEngine/PQL/Expressions.cpp (CompareConjunction)")],
  observe=["--write-simplified output", "FORMULA lines with -s OverApprox"],
  technique="metamorphic property-based testing: written simplified query re-evaluated by the reference and compared with the original",
  note="About 100 000 generated queries per quick run, shaped after rewrite-rule patterns; trusts the Python evaluators."),
 dict(id="C07", title="Every printed trace is a run of the input model that proves the verdict",
  statement="Whenever trace generation is requested and a single run decides the query (EF true, AG false, E true, A false for LTL), the trace printed can be replayed step by step in the model as the user wrote it: every transition exists and is enabled, the tokens listed as consumed are exactly its input arcs, a claimed deadlock is one, a loop returns to the marking it started in, and the run reaches the goal marking or satisfies (violates) the path formula. No trace is printed when no single run decides the query. This holds with structural reductions, partial order reduction and every search strategy.",
  over=["inputs", "configurations", "histories"], forall="all bounded nets, all reachability and LTL queries, all strategies, reduction levels and LTL algorithms that support traces",
  why=TESTS + "no trace is produced by them, and reconstruction through reductions depends on the sequence of rule applications.",
  files=["src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Reducer.cpp", "src/LTL/LTLSearch.cpp", "src/LTL/Algorithm/TarjanModelChecker.cpp", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp"],
  mech=[("trace printing and history", "src/PetriEngine/Reachability/ResultPrinter.cpp, include/PetriEngine/Structures/StateSet.h"), ("firing of merged transitions", "src/PetriEngine/Reducer.cpp (postFire, initFire)"), ("lasso reconstruction", "src/LTL/Algorithm")],
  observe=["<trace> element on stderr", "FORMULA lines"],
  technique="property-based testing: printed runs replayed in an independent reference net",
  note="Random bounded nets; every trace is replayed in the original net and its goal re-evaluated by the reference."),
 dict(id="C08", title="Trace abstraction refinement answers like explicit search",
  statement="For every bounded net without inhibitor arcs and every EF/AG query over token counts and fireability, whatever verdict the trace abstraction refinement engine reports is the one explicit enumeration gives, and a printed witness replays in the model. The engine may give up or run long, but never answers wrongly.",
  over=["inputs", "configurations", "histories"], forall="all bounded nets without inhibitor arcs, all EF/AG queries, all reduction and simplification settings",
  why=TESTS + "the refinement loop and its interpolant automata are not executed by them, and a wrong interpolant shows only on nets where the spurious run matters.",
  files=["src/PetriEngine/TAR/TARReachability.cpp", "src/PetriEngine/TAR/TARAutomata.cpp", "src/PetriEngine/TAR/Solver.cpp", "src/PetriEngine/TAR/RangeContext.cpp", "src/PetriEngine/TAR/range.cpp", "include/PetriEngine/TAR/range.h", "include/PetriEngine/TAR/TARAutomata.h"],
  mech=[("interpolants from infeasible runs", "src/PetriEngine/TAR/Solver.cpp"), ("interval predicates of a query", "src/PetriEngine/TAR/RangeContext.cpp, PlaceUseVisitor, ContainsVisitor"), ("trace automaton", "src/PetriEngine/TAR/TARReachability.cpp, include/PetriEngine/TAR/TraceSet.h")],
  observe=["FORMULA lines on stdout", "<trace> element on stderr"],
  technique="differential property-based testing of the CLI with -tar against an explicit-state reference",
  note="Random bounded nets; a run that does not finish within the limit is counted and not judged, since the engine is a semi-decision procedure."),
 dict(id="C09", title="Upper bounds are the exact maxima over all reachable markings",
  statement="For every bounded net and every upper-bound query over one or more places, the number printed is the maximum, over all reachable markings, of the sum of tokens in those places. No strategy, reduction, simplification or partial order setting changes it, and queries asked together do not influence one another.",
  over=["inputs", "configurations"], forall="all bounded nets, all place sets, all strategies and preprocessing options",
  why=TESTS + "no upper bound is computed by them.",
  files=["src/PetriEngine/PQL/Evaluation.cpp", "src/PetriEngine/PQL/Simplifier.cpp", "src/PetriEngine/Simplification/LinearProgram.cpp", "src/PetriEngine/Reachability/ReachabilitySearch.cpp", "src/PetriEngine/Reachability/ResultPrinter.cpp", "src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp"],
  mech=[("bounds from linear programs", "src/PetriEngine/Simplification/LinearProgram.cpp (bounds)"), ("maximum kept during search", "src/PetriEngine/PQL/Evaluation.cpp, Expressions.cpp (UnfoldedUpperBoundsCondition)")],
  observe=["FORMULA lines with numbers on stdout"],
  technique="differential property-based testing of the CLI against explicit enumeration",
  note="Random bounded nets, sums of up to four places, several queries per run."),
 dict(id="C10", title="Colored nets are answered as their unfolding defines",
  statement="For every colored net (enumerations, integer ranges, dots, products; guards; weighted, sum, difference, successor, tuple and 'all' arc expressions; inhibitor arcs) and every query, each answer is the one the textbook naive unfolding gives. Color fixpoint, color partitioning, symmetric variables, interval limits and reductions of the unfolded net change no answer, and no colored net without variables or bindings makes the tool fail.",
  over=["inputs", "configurations"], forall="all colored nets with bounded unfolding, all reachability, CTL, LTL and bounds queries, all unfolding options",
  why=TESTS + "none of them unfolds a net, and the color analyses depend on combinations of guards, arc expressions and product types.",
  files=["src/PetriEngine/Colored", "include/PetriEngine/Colored", "src/PetriParse/PNMLParser.cpp"],
  mech=[("color domains reachable in a place", "src/PetriEngine/Colored/ForwardFixedPoint.cpp, ArcIntervalVisitor, IntervalGenerator, GuardRestrictions"), ("partitioning of colors", "src/PetriEngine/Colored/PartitionBuilder.cpp"), ("bindings and instantiation", "src/PetriEngine/Colored/BindingGenerator.cpp, EvaluationVisitor, Unfolder.cpp, VariableSymmetry.cpp"), ("parsing of declarations and expressions", "src/PetriParse/PNMLParser.cpp")],
  observe=["FORMULA lines on stdout"],
  technique="differential property-based testing of the CLI against an independent naive unfolding and explicit enumeration",
  note="Random colored nets whose naive unfolding is small; colored structural reductions (-R) are off here. The reference implements the PNML color semantics itself."),
 dict(id="C14", title="Controller synthesis decides the game and its strategy wins it",
  statement="For every Petri net game (transitions owned by the controller or the environment) and every query 'control: AG p' or 'control: AF p' (also written as not EF / not EG), the answer is True exactly when the controller has a strategy that wins whatever the environment does. Search order, game partial order reduction, query simplification and asking several queries in one run change no answer. When a strategy is written, it only proposes enabled controllable transitions, has a move wherever the controller must move, and following it keeps every play inside the winning markings.",
  over=["inputs", "configurations"], forall="all bounded games (plain nets with weights and inhibitor arcs, and colored nets), all safety and reachability objectives",
  why=TESTS + "no test plays a game; the game reduction and the on-the-fly fixpoint depend on the interplay of both players.",
  files=["src/PetriEngine/Synthesis", "include/PetriEngine/Synthesis", "src/main.cpp"],
  mech=[("on-the-fly fixpoint and strategy output", "src/PetriEngine/Synthesis/SimpleSynthesis.cpp"), ("game partial order reduction", "src/PetriEngine/Synthesis/GameStubbornSet.cpp, IntervalVisitor.h, GamePORSuccessorGenerator.cpp"), ("successors per player", "src/PetriEngine/Synthesis/GameSuccessorGenerator.cpp")],
  observe=["FORMULA lines on stdout", "the file given to --strategy-output"],
  technique="differential property-based testing of the CLI against a reference game solver (attractor computation over the explicit state graph), plus a replay of the written strategy",
  note="The controller has to move when it can, the environment may move at any time, and a deadlock wins AG and loses AF, as in the tool's own rules."),
 dict(id="C15", title="Queries mean the same in every format they are read and written",
  statement="For every net and query: the answer is the same whether the query is given as MCC XML, as the textual query language, or as a file the tool itself has written (simplified queries in XML or in the binary format), and a written query file is always accepted when read back. Query selection by index picks the queries of the file in order.",
  over=["inputs", "configurations"], forall="all reachability, CTL, LTL and bounds queries over all bounded nets; all formats the tool reads and writes",
  why=TESTS + "the tests parse a few fixed queries and never write one.",
  files=["src/PetriParse/QueryXMLParser.cpp", "src/PetriParse/QueryBinaryParser.cpp", "src/PetriEngine/PQL/XMLPrinter.cpp", "src/PetriEngine/PQL/BinaryPrinter.cpp", "src/PetriEngine/PQL/QueryPrinter.cpp", "src/PetriEngine/PQL/PQLQueryParser.y", "src/PetriEngine/PQL/PQLQueryTokens.l"],
  mech=[("XML reading and writing", "QueryXMLParser.cpp, XMLPrinter.cpp"), ("binary reading and writing", "QueryBinaryParser.cpp, BinaryPrinter.cpp"), ("text grammar", "PQLQueryParser.y, PQLQueryTokens.l")],
  observe=["FORMULA lines on stdout", "the files given to --write-simplified and read back"],
  technique="round-trip and differential property-based testing of the CLI against the reference semantics",
  note="Every format has to lead to the verdict of the reference semantics, so a loss of meaning that is consistent between writer and reader is found too."),
 dict(id="C16", title="Nets the tool writes are nets it reads, with the same behaviour",
  statement="For every net and query: the unfolded net together with the unfolded queries, and the structurally reduced net together with the simplified queries, that one run of the tool writes are accepted when read back and give the answers of the original net and queries. No arc, weight, inhibitor, initial token or place and transition name is lost on the way.",
  over=["inputs", "configurations"], forall="all plain and colored nets with bounded unfolding, all reachability, CTL and LTL queries, all reduction modes",
  why=TESTS + "no test writes a net.",
  files=["src/PetriEngine/PetriNet.cpp", "src/PetriEngine/Reducer.cpp", "src/PetriEngine/Colored/PnmlWriter.cpp", "src/PetriEngine/PQL/XMLPrinter.cpp", "src/VerifyPN.cpp", "src/main.cpp"],
  mech=[("net writer", "src/PetriEngine/PetriNet.cpp (toXML)"), ("what is written when", "src/main.cpp, src/VerifyPN.cpp (write_queries, unfold)")],
  observe=["the files given to --write-unfolded-net, --write-unfolded-queries, --write-reduced and --write-simplified", "FORMULA lines on stdout of the run that reads them"],
  technique="round-trip property-based testing of the CLI against the reference semantics",
  note="Both runs belong to one case; the second run's answers are compared with the reference verdict on the original net, not with the first run's."),
]
