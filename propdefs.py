SYM = "path-sensitive symbolic abstract interpretation of the resolved syntax tree (loops summarised by havoc), term normal forms compared with the specification"
TRUST = "Sound for the modelled C++ subset up to the engine's loop and alias assumptions (distinct pointer fields do not alias, the formula tree is complete); obligations it cannot decide are recorded as undecided, not reported."

prop("S01", "Logical and temporal operators compute the operator they denote",
     "Evaluating not, and, or, implies, eventually, always or until yields exactly that operator applied to the freshly computed robustness of its operands, with the interval bounds taken literally or from the named parameter. "
     "The result starts at the requested time, is cut at the end of the horizon or of the available data, and the number reported for the node is its value there. A conjunction or disjunction is known up to the end of the operand that is known longer.",
     ["inputs", "programs"], "every formula built from the operators, every trace, every parameter valuation",
     "Tests evaluate a few formulas on a few traces; an operator that uses a stale operand, the wrong operand or an unresolved interval bound agrees with the right one on most of them.",
     ["src/transducer.cpp", "include/transducer.h"], [("operator evaluation", "src/transducer.cpp: compute_robustness of the connective and temporal nodes"), ("signal algebra", "src/robustness.cpp")],
     SYM, "Result signals are compared as terms of a signal algebra (De Morgan and implication normal form); the algebra's primitives are assumed here and checked elsewhere. " + TRUST)

prop("S02", "Predicates and arithmetic evaluate samplewise to what they denote",
     "A predicate's robustness at each sample is left minus right (or right minus left for less-than), sums, differences, products and absolute values combine their operands' values at the same sample, a signal reads its own column of the trace, row after row until the trace or the window ends, cut to the window, and a constant or parameter its current value. "
     "Under left or right time semantics the matching time-robustness transformation is applied to exactly that spatial signal, and an unknown mode is refused.",
     ["inputs", "programs", "configurations"], "every predicate and expression, every trace, every parameter valuation, every semantics mode",
     "Tests sample few columns, values and modes; swapped operands, a wrong column or a wrong mode show up only on particular traces.",
     ["src/stl_atom.cpp", "src/signal_expr.cpp", "include/signal_expr.h"], [("predicates", "src/stl_atom.cpp: stl_atom, signal and constant evaluation"), ("arithmetic", "src/signal_expr.cpp")],
     SYM, "Each loop iteration is judged for an arbitrary position. " + TRUST)

prop("B01", "Robustness bounds are built from the right bounds and never from missing data",
     "The lower (upper) bound of every formula is its operator applied to its operands' bounds of the matching polarity, flipped under negation and on the left of an implication, and restricted to where the operands are completely known when the operator needs that. "
     "Where nothing is known it is the bottom (top) constant at the requested time; it is never left empty, and the number reported is its first value.",
     ["inputs", "programs", "histories"], "every formula and every prefix of a trace, in particular partial ones",
     "Tests look at few prefixes; a swapped bound is invisible on complete traces because both bounds then equal the robustness.",
     ["src/interval_transducer.cpp", "src/transducer.cpp"], [("interval robustness", "src/interval_transducer.cpp")],
     SYM, "Decides polarity, operator, cut and vacuous constants on every path; that until's bounds enclose the true value on partial data is not decided. " + TRUST)

prop("T01", "Every subformula is evaluated over the whole window its parents need",
     "Asking for a formula over a window makes every operand cover that same window under logical connectives and predicates, and the window shifted by the interval bounds under temporal operators (for until: from the start for the left operand, from start plus lower bound for the right one). "
     "The windows reach every leaf, with parameter-valued bounds resolved.",
     ["programs", "inputs", "configurations"], "every nesting of operators, every window, every parameter valuation",
     "A window that is too short or misplaced only changes results for nestings and traces where the missing part decides the value.",
     ["src/transducer.cpp", "include/transducer.h"], [("horizon propagation", "src/transducer.cpp: init_horizon"), ("opening a window", "include/transducer.h: set_horizon")],
     SYM, "Windows are compared as linear terms over the node's own window and bounds. " + TRUST)

prop("H01", "A verdict depends only on formula, trace, parameters and settings",
     "Whatever was evaluated, added or changed before, evaluating a formula gives the same triple as a fresh evaluator with the same formula, trace, parameters and settings, for the requested formula over the requested window. "
     "In particular another driver or monitor with other settings never influences it.",
     ["histories", "schedules", "configurations"], "every sequence of evaluations, sample additions, parameter and setting changes, over any number of drivers and monitors",
     "State left behind matters only after particular sequences of calls; tests evaluate mostly once per object.",
     ["src/stl_driver.cpp", "src/stl_monitor.cpp", "src/transducer.cpp", "include/transducer.h", "include/signal_expr.h"],
     [("evaluation entry points", "src/stl_driver.cpp: get_online_rob, dump, run_tests; src/stl_monitor.cpp: eval_rob"), ("clearing", "src/transducer.cpp: reset"), ("rebinding", "include/transducer.h, include/signal_expr.h: set_trace_data_ptr, set_param_map_ptr")],
     "typestate of the evaluation protocol on every path of every entry point, plus effect analysis (fields written and read before being re-established; writes to globals and static locals over the call graph)",
     "A cache that is invalidated correctly by other means would be reported; a named parameter missing from its owner's table has no defined value. " + TRUST)

prop("V01", "The trace stays rectangular and strictly increasing in time",
     "Adding a sample to a driver or monitor either appends exactly the given sample, if it has one value per declared signal plus a time strictly after the last sample's, or is refused with an error and changes nothing.",
     ["inputs", "histories"], "every sample and every existing trace",
     "Tests add well-formed samples; a guard that misses one malformed shape or one equal time is never exercised.",
     ["src/stl_driver.cpp", "src/stl_monitor.cpp"], [("sample entry", "src/stl_driver.cpp: add_sample; src/stl_monitor.cpp: add_sample")],
     SYM, "Every path through both entry points; times that are not numbers are outside (recorded as an assumption). " + TRUST)

prop("V02", "Setting names and modes correspond one to one; unknown names are refused",
     "For the library-wide, driver and monitor settings of semantics and interpolation, each documented name selects its own mode and nothing else, any other name is refused with an error and changes nothing, and reading the setting back returns the name that was set.",
     ["inputs", "histories"], "every string given as a name, every prior setting",
     "Tests set one or two names; a swapped or missing entry in one of six tables is not reached.",
     ["include/signal.h", "include/stl_driver.h", "include/stl_monitor.h"], [("settings", "set_semantics, get_semantics, set_interpol, get_interpol of the three owners")],
     SYM, "Tables that are decided by anything but string comparison are recorded as undecided. " + TRUST)

prop("V03", "A parameter update changes exactly the named parameter, for every later use",
     "Updating a known parameter replaces its value in the driver or monitor and nothing else; a monitor refuses an unknown name and a driver ignores it without side effect. "
     "Reading a parameter, and every lookup a formula makes, returns the owner's current value.",
     ["inputs", "histories"], "every parameter table, name and value",
     "Tests update one parameter of one formula; an update that also touches or misses another entry needs several parameters to show.",
     ["src/stl_driver.cpp", "include/stl_monitor.h", "src/transducer.cpp"], [("parameter tables", "set_param and get_param of driver and monitor"), ("lookup", "src/transducer.cpp or include/transducer.h: get_param")],
     SYM, TRUST)

prop("C01", "Copying a formula gives an equal formula that shares nothing",
     "A copy of a formula is a new tree of the same shape: same operators, comparison directions, intervals (literal and parameter bounds), signals, constants and parameters, with every node and interval its own. "
     "The original is unchanged, so either can be evaluated, changed or destroyed without affecting the other.",
     ["programs", "histories"], "every formula and every later use of original and copy",
     "Tests copy a formula or two and compare one number; a field lost in one node class or a shared interval surfaces only for that class or after destruction.",
     ["include/transducer.h", "include/signal_expr.h"], [("copying", "clone of every node class")],
     SYM, "Which fields a copy must carry is derived from what evaluation and printing read. " + TRUST)

prop("C02", "Copies and moves of drivers, monitors and tests are complete and independent",
     "Copying or assigning a driver, monitor or test carries over its trace, signals, parameters, settings and results and owns its own copies of all formulas; moving transfers them and leaves the source owning none; each formula is freed exactly once. "
     "A monitor extracted from a driver has the driver's trace, signals, parameters and settings and its own copy of the named formula, or no formula if the name is unknown.",
     ["histories", "configurations"], "every object state and every sequence of copies, assignments, moves and destructions",
     "A forgotten field or a shared formula changes results only for objects where that field differs from its default, or after one of the two is destroyed.",
     ["src/stl_driver.cpp", "include/stl_driver.h", "include/stl_monitor.h"], [("driver", "src/stl_driver.cpp: copy, move, destructor, get_monitor"), ("monitor", "include/stl_monitor.h"), ("test", "include/stl_driver.h: stl_test")],
     SYM + "; ownership discovered from the classes holding formula pointers", TRUST)

prop("K01", "Signal operators are exact at every instant, not only at samples",
     "Negation, minimum, maximum, running and sliding-window minimum and maximum, and until of piecewise-linear signals equal their pointwise definition at every instant of their common domain, crossings and segment interiors included. "
     "The result is a well-formed signal (strictly increasing times, right values and slopes), independent of earlier content, and the operands are unchanged.",
     ["inputs"], "every pair of signals, every alignment of their samples, every window",
     "Tests compare a few values; a missed crossing, a wrong slope between samples or a wrong window edge shows only for particular alignments of segments.",
     ["src/robustness.cpp", "include/robustness.h"], [("segment kernels", "src/robustness.cpp: computeSegmentAnd/Or, computePartialAnd/Or/Eventually, computeSegmentUntil"), ("sliding windows", "src/robustness.cpp: plateauMax, plateauMin"), ("operators", "src/robustness.cpp: compute*, Signal::compute_*")],
     "decision tables over finite abstract cases (signs of line differences, pending sample, queue state) of every path of every kernel, times and values compared as rational functions; operators as terms of a signal algebra",
     "Induction over steps is by construction of the loop summary; rounding is outside (real arithmetic). " + TRUST)

prop("Q01", "Building and reshaping signals keeps the function they denote",
     "A signal built from samples passes through exactly those samples, joined as the interpolation mode says, and refuses samples that are not after its end. "
     "Restricting it to a window it overlaps leaves its values inside unchanged, the first value held before and the default after; shifting moves it rigidly; simplifying and closing leave the function as it was.",
     ["inputs", "configurations"], "every signal, sample, window, default value and shift, both interpolation modes",
     "Tests reshape a few signals; an edge that coincides with a sample, a segment cut at the last sample or an extension decides on particular alignments only.",
     ["src/signal.cpp", "include/signal.h"], [("construction", "src/signal.cpp: Signal constructors, appendSample, appendSignal"), ("reshaping", "src/signal.cpp: resize, shift, simplify, addLastSample")],
     "path-wise symbolic execution with container terms; trimming loops judged by the facts of their removing iterations and of their exit, added samples compared with the definition as rational functions",
     "Windows that start after the signal's end are outside (recorded in DESIGN.md). " + TRUST)

prop("Q02", "Time robustness is the signed distance to the nearest change of truth value",
     "The boolean view of a signal is true exactly where the signal is positive (or rising from zero), for every segment including the last. "
     "Left time robustness is the time since the truth value last changed and right time robustness the time until it next changes (or the data end), positive while true and negative while false.",
     ["inputs"], "every signal, crossings inside segments and at samples included",
     "Tests evaluate time robustness on one or two traces; zero-valued samples, crossings at the end of a segment and one-sample signals are not among them.",
     ["src/robustness.cpp"], [("time robustness", "src/robustness.cpp: compute_boolean, compute_left_time_rob, compute_right_time_rob")],
     "decision table over the signs of value, slope and end value of a segment for every path of the loops, samples compared as rational functions",
     "At a change the result may differ from zero by a tiny constant of the right sign. " + TRUST)

prop("G01", "The formula built is the one written",
     "Parsing a text builds exactly the tree it denotes: every operator spelling, its operands in their order, interval bounds, comparison, named signals, parameters and previously defined formulas (as copies), with unary operators and until binding tighter than the connectives and conventional arithmetic grouping. "
     "Declarations change only what they name, undeclared names are refused, and success is reported exactly when the whole text was read and accepted; a file that cannot be read is a failure.",
     ["inputs", "programs"], "every text of the specification language",
     "The parser's tables have hundreds of states; tests read a few dozen formulas and check values on traces where a wrongly grouped or swapped operand often gives the same number.",
     ["src/stl_parser.cpp", "src/stl_scanner.cpp", "src/stl_driver.cpp", "src/interval.cpp"], [("productions and tables", "src/stl_parser.cpp: Parser::parse, yytable_"), ("scanner automaton and keywords", "src/stl_scanner.cpp: Scanner::lex"), ("entry points", "src/stl_driver.cpp: parse_string, parse_file, parse_stream")],
     "grammar recovered from the LALR tables and every semantic action interpreted symbolically against the production's specification; product of the scanner's automaton with the specification's automaton; decisions of the LALR automaton compared with the documented grouping",
     "Decides every production and every text the scanner can see; the relative grouping of and, or and => is undocumented and not judged. The tables' interpreter (the generated skeleton) is assumed to be an LALR driver. " + TRUST)

prop("M01", "Every heap object is released exactly once and never used afterwards",
     "Formulas, intervals, signals, parser texts and parameter maps each have one owner that releases them once: evaluating, parsing (also text that is refused), copying, replacing, clearing and destroying leaks nothing, frees nothing twice and uses nothing after freeing it.",
     ["inputs", "histories"], "every formula, text and sequence of evaluations, definitions, copies and clearings",
     "Tests run without a leak or memory checker and never look at refused texts or replaced formulas; a double release crashes only in some allocator states.",
     ["src/stl_parser.cpp", "src/robustness.cpp", "src/transducer.cpp", "include/transducer.h", "src/stl_driver.cpp", "include/stl_monitor.h"],
     [("node ownership", "include/transducer.h: constructors, clone, destructors"), ("temporary signals", "src/robustness.cpp: compute*"), ("parser values", "src/stl_parser.cpp: semantic actions, yy_destroy_"), ("drivers and monitors", "src/stl_driver.cpp, include/stl_monitor.h")],
     "path-sensitive ownership (typestate) analysis of every heap object over all paths, including each grammar production and the parser's error discarding",
     "Library functions returning a fresh signal and clone() hand ownership to their caller (clone itself is judged by C01); exceptions thrown by the standard library (out of memory) are outside. The Python interpreter's ownership of bound objects is outside. " + TRUST)

prop("W01", "Queued tests are each evaluated once, in order, with their own parameters, and recorded",
     "Registering a test puts exactly that test with its parameters and messages at the end of the last queued trace test, and does nothing to the queue when none is queued (or the name is unknown). Running evaluates every test of the front trace test exactly once, in order, with its own parameter values taking precedence over the driver's; each adds its name and value to the log, counts as positive exactly when its value is above 0, and the error flag (cleared at the start, returned at the end) is raised exactly when a positive test is declared an error; then the trace test is removed. The accessors look at the front of the queue, or answer with nothing when it is empty.",
     ["inputs", "histories"], "every queue, test, parameter value and outcome",
     "No test runs the queue at all; which test is evaluated with which parameters depends on queue contents of any length.",
     ["src/stl_driver.cpp", "include/stl_driver.h", "include/tools.h"],
     [("running", "src/stl_driver.cpp: STLDriver::run_tests"), ("registering", "src/stl_driver.cpp: add_trace_test, add_stl_test"), ("accessors", "include/stl_driver.h: get_next_*, pop_next_trace_test, run_next_trace_test")],
     "abstract interpretation of every path of the queue operations over symbolic queues, with loop-step obligations relating each step to the front test",
     "Tests without a formula (never produced by the parser) end a run early. The number of registered tests is only judged for registrations that succeed. " + TRUST)

prop("F01", "Traces survive being written to a file and read back",
     "Dumping a trace writes each sample, its values in order, on a line of its own with enough digits, and reading such a file gives back exactly these samples in order, the last line included, in place of any earlier trace. "
     "A missing file or text that is not a number is reported as a failure. The list of signal names gives each name at its column, the test log file holds the log and both counts, and a generated random trace has the requested shape with increasing times.",
     ["inputs"], "every trace of finite values, every text file, every set of declared signals",
     "Tests never write a trace or read a file that ends without a line break, holds a malformed number or values with many digits.",
     ["src/stl_driver.cpp", "src/tools.cpp", "include/stl_driver.h", "include/tools.h"],
     [("writing", "src/stl_driver.cpp: dump_trace_file, print_trace, dump_test_log_file"), ("reading", "src/tools.cpp: read_trace; include/stl_driver.h: read_trace_file"), ("names and generated traces", "src/tools.cpp: signal_map_to_string, rand_trace_data")],
     "abstract interpretation of every path with the text of a row as an automaton over values, blanks and line ends; provenance of each stored value (which successful read of which line) per loop iteration",
     "Signals declared at distinct columns 1..n. " + TRUST)

prop("P01", "The Python interface does what the C++ operation of the same name does",
     "Every method, static function and attribute of the Python classes runs or holds exactly the C++ operation or field it is named after, with the arguments in order and the documented defaults; none is missing. "
     "copy, __copy__ and __deepcopy__ return a new object made from the object itself, finalisers release nothing Python still owns, and accessors (robustness and bounds, BigM, evaluation window, samples, the evaluated signal, the declared names) report what was stored.",
     ["inputs", "histories"], "every name of the module, every call through it",
     "Tests call a few of the sixty bound names; a name bound to its neighbour, a dropped argument of a wrapper or a finaliser that releases twice passes unnoticed.",
     ["src/pybind11/main.cpp", "include/stl_monitor.h", "include/signal.h"],
     [("module table", "src/pybind11/main.cpp: PYBIND11_MODULE(stlrom)"), ("accessors", "include/stl_monitor.h, include/signal.h: get_*, set_BigM, set_eval_time")],
     "query over the resolved binding table (each bound member pointer against the name it is bound to) and symbolic interpretation of every wrapper and accessor",
     "pybind11's own argument conversion and object life-cycle are assumed. " + TRUST)

prop("R01", "A printed formula reads back as the same formula",
     "The text a formula prints, parsed again with the same declarations, is accepted and yields the same tree: the same operators over the same operands with the same grouping, and the same intervals, comparisons, signals, parameters and constants, wherever the formula stands.",
     ["inputs", "programs"], "every formula tree over declared names and constants that print exactly in plain decimal notation, every place a formula can be written",
     "Whether operators keep their grouping depends on every pair of nested operators and on what follows; tests print a few formulas and never parse the result.",
     ["include/transducer.h", "include/signal_expr.h", "src/interval.cpp", "src/stl_parser.cpp", "src/stl_scanner.cpp"],
     [("printing", "include/transducer.h, include/signal_expr.h: print of every node; src/interval.cpp: to_string"), ("reading", "src/stl_parser.cpp, src/stl_scanner.cpp: parser and scanner tables")],
     "symbolic interpretation of every print function to a text template, composed with the scanner's automaton (product construction) and the LALR tables (fixpoint over parser state, node class and lookahead)",
     "Numbers with more than six significant digits or an exponent are outside; the semantic actions of the parser are judged by G01. " + TRUST)

prop("U01", "Objects start completely defined, in their documented state",
     "A new driver or monitor has no trace, declarations, formulas or tests and uses space semantics and linear interpolation; a new formula node holds exactly the operands, interval, comparison, name or constant it is given, with numbers and parameter names told apart. "
     "Clearing a driver empties its formulas, parameters, tests, queue, texts and counts; emptying a monitor's data empties nothing else. "
     "No constructor leaves a field undefined that is read later, and no function uses a variable or field it has not set on the path taken.",
     ["inputs", "histories", "configurations"], "every constructor and every function of the library",
     "An undefined value is usually zero in a test run; what it is depends on the memory the object happens to get.",
     ["include/transducer.h", "include/signal_expr.h", "include/stl_monitor.h", "src/stl_driver.cpp", "src/interval.cpp"],
     [("constructors", "all classes of the library"), ("uses", "every function body")],
     SYM, "Values that only loops set are treated as set. " + TRUST)

prop("N01", "What is missing is refused, never touched",
     "An operation that needs a formula, data, a queued test or a defined name that is not there gives its documented refusal (an empty list, 0, a message, an error, an empty monitor) and changes nothing. "
     "No path follows a formula pointer that may be null, takes an element from a container that may be empty, uses a failed lookup, reads a column a sample does not have, or makes a table entry for a name that was only asked for.",
     ["inputs", "histories"], "every name, every state of driver and monitor (empty, declared, loaded, cleared), every path of their operations and of the parser's actions",
     "Tests ask for names that exist, on drivers and monitors that have data; a missing guard reads whatever the memory holds, or adds an entry that changes what later texts mean.",
     ["src/stl_driver.cpp", "src/stl_monitor.cpp", "include/stl_monitor.h", "src/stl_atom.cpp", "src/stl_parser.cpp", "src/pybind11/main.cpp"],
     [("driver", "src/stl_driver.cpp: get_online_rob, get_monitor, dump, get_param, add_stl_test, add_sample"), ("monitor", "include/stl_monitor.h, src/stl_monitor.cpp: eval_rob, get_signal, set_param, get_param, display"), ("column reads", "src/stl_atom.cpp: signal_transducer::compute_robustness"), ("parser", "src/stl_parser.cpp: actions")],
     "path-sensitive nullness, emptiness and key-presence dataflow over every path of every driver, monitor, tool and binding function and grammar production; effects of the refusing paths",
     "Formulas stored in the driver's tables are never null (kept by this check), sub-formulas of a node exist (G01, U01). Evaluating a monitor that has a formula but no data raises the library's out-of-range error. " + TRUST)

prop("L01", "No operation gets stuck",
     "Evaluating a formula (offline, online or by a monitor), registering and running tests, loading and printing data all come to an end: every round of every loop of the library brings what decides its continuation closer to the end - "
     "the next sample is read, the executed test leaves the queue, the examined segment is passed - so that no round can repeat itself, and no function calls itself on every path.",
     ["inputs", "histories"], "every well-formed signal, trace, formula and queue of tests; every path once around every loop",
     "Tests stop at the traces and formulas they contain; the combination of breakpoints, times or queue contents on which a round makes no progress is one among unboundedly many, and then the host program hangs.",
     ["src/robustness.cpp", "src/signal.cpp", "src/stl_atom.cpp", "src/stl_driver.cpp", "src/tools.cpp", "src/interval_transducer.cpp"],
     [("kernels", "src/robustness.cpp: computePartialAnd, computePartialOr, computePartialEventually, computeSegmentUntil, compute_until, plateauMax"), ("simplification and resizing", "src/signal.cpp: simplify, resize, removeInf"), ("readers of the trace", "src/stl_atom.cpp: compute_robustness"), ("running tests", "src/stl_driver.cpp: run_tests"), ("files", "src/tools.cpp: read_trace, print")],
     "path-sensitive progress analysis of every loop round (a round whose decisions are untouched, settled or reproduced by what it changes is a violation; counters must move towards their bound), constant-step direction rule, call-graph cycle analysis over unconditional calls",
     "The ranking argument is per round: that a bounded number of rounds is enough follows from the sizes of the containers involved, and is not proved for loops whose progress alternates between several quantities. Signals are well-formed (S01). " + TRUST)

prop("D01", "Displays and dumps show exactly what is stored",
     "Printing a point, sample, sequence, signal, trace, formula, driver or monitor, and dumping a signal or all formulas' signals to files, shows each stored item (every sample, row, formula with its name, parameter with its value, signal name with its column) exactly once, in order, each field in its documented position and told apart from the next; "
     "an empty signal and a missing formula are said to be so; everything goes to the stream or file named; the display without a stream is the one with a stream on the standard output.",
     ["inputs"], "every signal, trace, driver and monitor, with any number of items",
     "Which items appear depends on how many there are and on their values; the tests look at no display.",
     ["src/signal.cpp", "include/signal.h", "src/stl_driver.cpp", "include/stl_monitor.h", "src/tools.cpp", "src/transducer.cpp", "include/transducer.h", "include/signal_expr.h"],
     [("printing", "src/signal.cpp, include/stl_monitor.h: operator<<; include/signal.h: print_point, print_sample; src/stl_driver.cpp: print, print_trace; src/tools.cpp: print; include/stl_monitor.h: display_*"), ("files", "include/signal.h: dumpFile; src/stl_driver.cpp: dump")],
     "symbolic interpretation of every display to its sequence of values and literal text per path and loop iteration, compared with the documented sequence; loop bounds and steps by dataflow over the iterators",
     "What the numbers look like beyond their number of significant digits, and the wording of headings, is not judged. " + TRUST)

# ---------------------------------------------------------------- not decided
prop("X01", "Bounds enclose the robustness under every continuation of the trace",
     "For every formula and every partial trace the reported interval contains the robustness obtained after any continuation, and it only narrows as samples arrive.",
     ["inputs", "histories"], "every formula, partial trace and continuation", "Continuations are unbounded.",
     ["src/interval_transducer.cpp"], [("interval robustness", "src/interval_transducer.cpp")],
     na="Relates real-valued results of two evaluations over traces of unbounded length; needs numeric induction over the kernels that no static argument in reach bounds (and until is known to break it on partial data). The structural part is B01.")
prop("X03", "Evaluation cost stays linear in the trace and the formula",
     "Evaluating a formula takes time proportional to the number of samples in its window times the size of the formula.",
     ["inputs"], "every trace and formula", "Unbounded sizes.", ["src/robustness.cpp"], [("kernels", "src/robustness.cpp")],
     na="Amortised running time of deque-based sliding-window loops; a static resource bound would need relational loop invariants over container sizes that this analysis does not infer.")
