import json
LM="sawatabi/model/logical_model.py";PM="sawatabi/model/physical_model.py";AA="sawatabi/algorithm/abstract_algorithm.py";SS="sawatabi/solver/sawatabi_solver.py"
CO=["sawatabi/model/constraint/abstract_constraint.py","sawatabi/model/constraint/n_hot_constraint.py","sawatabi/model/constraint/equality_constraint.py","sawatabi/model/constraint/zero_or_one_hot_constraint.py"]
ALG=["sawatabi/algorithm/window.py","sawatabi/algorithm/delta.py","sawatabi/algorithm/incremental.py","sawatabi/algorithm/partial.py","sawatabi/algorithm/attenuation.py"]
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","A compiled model's energy is exactly the sum of its live interactions",
 "After any history of adding, updating and removing interactions, the physical model gives every assignment the energy offset minus the sum, over the interactions that are currently live, of coefficient times scale times the interaction's variable product. Several interactions on the same variable or pair add up, the order in which a pair is written does not matter, removed interactions contribute nothing, and placeholders in coefficients, scales and the offset take the values supplied at compilation. No term is lost, invented or rounded away, whatever its magnitude.",
 ["histories","inputs"],"every sequence of add / update (by target or by name) / remove / offset / compile operations, every mix of number and placeholder coefficients and scales, both model types",
 "The tests compile a few hand-written models with one or two operations each; the space of operation histories, name/target addressing and magnitude mixes is never sampled.",
 [LM,PM],[("interaction table updates",LM+": add_interaction/update_interaction/remove_interaction"),("grouping and placeholder resolution",LM+": to_physical"),("sign convention",PM+": to_bqm")],
 [("interaction arrays","live and logically removed interactions")],["PhysicalModel.to_bqm"])
p("C02","Compiling is repeatable and does not disturb the logical model",
 "Compiling a logical model to a physical one any number of times, with any placeholder values and with any constraints attached, leaves the logical model's variables, live interactions (with their attributes, scales and timestamps), offset, constraints and deleted/fixed sets as they were, so compiling again gives an equal physical model. The same holds when compilation fails, for example because a placeholder value is missing: the model is unchanged and a later compilation with proper values succeeds with the right result. A physical model obtained earlier never changes because of later operations on the logical model.",
 ["histories","fault_sequences"],"every history of model operations, compile points (successful or failing) and placeholder feeds",
 "Tests compile each model once or twice and never after a failed compilation; non-interference is a statement about all later histories.",
 [LM],[("constraint merge and restore around compilation",LM+": to_physical"),("purge of removed interactions",LM+": to_physical")],
 [("constraints, offset, interaction table","must be restored")],["LogicalModel.select_interaction, get_offset, get_constraints; PhysicalModel.to_bqm"])
p("C03","A deleted variable disappears everywhere and nothing else changes",
 "After a variable is deleted, it occurs in no compiled model: every interaction touching it is gone and it is dropped from every constraint that contains it, of any kind. All interactions and constraints that do not involve it contribute exactly what they did before, also when constraints do not contain the variable, after type conversion, and across repeated deletions, compilations and later additions on other variables.",
 ["histories","inputs"],"every history of operations, constraints and conversions followed by any sequence of deletions",
 "Tests delete one variable of a small model with at most one constraint that contains it.",
 [LM]+CO,[("delete_variable",LM+": delete_variable"),("per-constraint discard","sawatabi/model/constraint/*.py: _discard_variable")],
 [("deleted set","labels of deleted variables")],["PhysicalModel.to_bqm, LogicalModel.get_constraints"])
p("C04","Fixing a variable restricts the energy function, offset included",
 "Fixing a variable to a value yields a model over the remaining variables whose energy, offset included, equals the energy of the original model with that variable set to the value, for every assignment of the others. This holds for any sequence of fixings (adjacent variables, several interactions on one pair, scaled or placeholder coefficients), with already removed interactions and with compilations in between, and also for the penalty of constraints that contain the variable, whether they were attached before or after it was fixed. Values outside the model's domain are rejected.",
 ["histories","inputs"],"every model, every sequence of fixings, removals and compilations, both model types",
 "Tests fix one variable of a three-variable model and look at coefficients, never at the energies of all assignments nor at sequences of fixings.",
 [LM],[("fix_variable",LM+": fix_variable"),("fixed variables in constraints",LM+": to_physical")],
 [("offset","accumulates constants of fixed terms")],["PhysicalModel.to_bqm before and after"])
p("C05","Constraints add exactly their declared penalty to the energy",
 "Each constraint adds to the compiled energy, in both model types and up to one constant that does not depend on the assignment, its strength times its penalty: the squared deviation of the number of ones from n for an n-hot constraint, the squared difference of the two counts for an equality constraint, and count times (count minus one) for a zero-or-one-hot constraint. The penalty ranges over exactly the variables the constraint currently contains, after any sequence of additions and removals of variables and of constraints; constraints that share variables add up, and re-adding a label replaces the earlier constraint.",
 ["histories","inputs","configurations"],"every set of constraints (kind, n, strength, overlapping variable sets), every edit history, both model types",
 "Tests check the coefficients of one constraint of a fixed size; satisfied-versus-violated energy gaps over all assignments and overlapping or edited constraints are not explored.",
 CO+[LM],[("penalty expansion","sawatabi/model/constraint/*.py: to_model"),("constraint merge",LM+": to_physical, merge")],None,["PhysicalModel.to_bqm, Constraint.to_model"])
p("C06","Converting between Ising and QUBO preserves the energy of every assignment",
 "Converting a model between the Ising and the QUBO type preserves the energy of every assignment under the correspondence spin = 2*bit - 1, offset included, taking scales and placeholders into account and ignoring removed interactions; converting back restores the original energy function. The names and attributes of existing interactions, the variables, the constraints and the deleted/fixed sets survive, and operations after the conversion act on the converted energy function.",
 ["histories","inputs"],"every model, every sequence of conversions interleaved with other operations",
 "Tests convert two hand-written models once and pin the resulting coefficients (including an offset whose sign is wrong, see known findings); they never compare energies or convert scaled models.",
 [LM],[("to_ising / to_qubo",LM+": to_ising, to_qubo, _update_variables_type")],None,["PhysicalModel.to_bqm before and after"])
p("C07","Merging models adds their energies and loses nothing",
 "Merging a second model into a first gives a model whose energy is the sum of both energies for every assignment, whose variable arrays have the element-wise maximum shape, and which contains every interaction of both with its coefficient, scale, timestamp and attributes, and every constraint of both; if the types differ the second is taken in the first one's type. The merged-in model itself is unchanged and later operations on either model do not affect the other. A merge that is rejected (dimension mismatch, same constraint label, wrong argument) leaves both models unchanged.",
 ["histories","inputs","fault_sequences"],"every pair or chain of models, including repeated and self merges, clashing names, differing attributes, types and shapes",
 "Tests merge a handful of fixture models and look at a few fields; sums over all assignments, aliasing and failure atomicity are unexplored.",
 [LM],[("merge",LM+": merge")],None,["PhysicalModel.to_bqm of both and of the merge"])
p("C08","Every solver reports true energies for valid samples",
 "Every row a local solver (exact, simulated annealing or the built-in annealer) returns assigns each variable of the compiled model exactly one value from the model type's domain, names no other variable, and carries exactly the energy the model gives to that assignment, offset included. The occurrence counts of an annealing run add up to the requested number of reads. An empty model is rejected.",
 ["inputs","configurations"],"every compiled model (labels whose text order differs from their index order, isolated or deleted variables, offsets, constraints, both types) and every solver option",
 "Tests check one known optimum on tiny models; they do not recompute the energy of each returned row.",
 ["sawatabi/solver/local_solver.py",SS,PM],[("exact and SA",  "sawatabi/solver/local_solver.py: solve"),("incremental energy, decode and offset",SS+": solve, annealing")],None,["dimod.SampleSet returned by solve"])
p("C09","The exact solver enumerates every assignment and finds the optimum",
 "The exact solver returns each of the 2^n assignments of the n variables of the compiled model exactly once with its energy, so its lowest-energy row is a global minimum of the logical model's energy and all ground states are present.",
 ["inputs"],"every compiled model small enough to enumerate, both types, with constraints, deleted and fixed variables",
 "Tests look at the first row for a few symmetric models.",
 ["sawatabi/solver/local_solver.py",PM,LM],[("brute force","sawatabi/solver/local_solver.py: solve")],None,["dimod.SampleSet"])
p("C10","Seeded solving is reproducible and solving has no side effects",
 "Two annealing runs of the same physical model, or of one obtained by the same operations, with the same options and the same seed (any seed, for the built-in annealer including zero) return the same samples, energies and statistics, whatever other solves the same or other solver objects performed in between, in whichever process and under whichever hash randomisation. Different seeds give different random streams. Solving changes neither the model, nor the initial states and options passed in, nor the global random state.",
 ["histories","schedules","inputs"],"every sequence and interleaving of solves over solver instances, threads using separate solver objects, models, seeds and processes",
 "Tests run one seeded solve; reproducibility over reuse, interleaving and processes is not exercised.",
 [SS,"sawatabi/solver/local_solver.py"],[("isolated generator",SS+": solve"),("initial state conversion",SS+": solve")],[("solver object","holds per-solve state")],["solve return value, arguments after the call"])
p("C11","The built-in annealer follows its annealing specification",
 "Each read of the built-in annealer starts from the given initial state (or a random one), performs the requested number of sweeps and in each sweep tries to flip every variable exactly once, in index order when sequential and in a fresh random order otherwise: a flip that does not raise the energy is accepted, one that raises it by d at temperature T is accepted with probability exp(-d/T), independently of all other trials. The temperature starts at the initial temperature and is multiplied by the cooling rate after each sweep; in reverse annealing it rises from near zero towards the reverse temperature for the reverse period and cools by the rate afterwards. The reported statistics hold, for each sweep, the energy of the state and the temperature at its start and the number of accepted flips.",
 ["inputs","configurations","schedules"],"every model, initial state, pickup mode, cooling and reverse configuration, and random stream",
 "The tests pin a few seeded outcomes; acceptance probabilities, ordering and schedule formulas hold over all random streams and are only visible statistically or in extreme temperature limits.",
 [SS],[("annealing loop",SS+": annealing"),("local field",SS+": calc_energy_diff"),("Metropolis rule",SS+": is_acceptable")],None,["samples and statistics with need_stats"])
p("C12","Remote solvers submit the model's problem and decode answers correctly",
 "The problem submitted to a remote annealing service has, for every assignment, the compiled model's energy (for the GPU service up to the offset, in terms of integer variable numbers), with the configured endpoint, token and options, whether or not the request or response is compressed. Each value in the reply is attributed to the variable it was computed for with the energy reported for that answer, and repeated answers are counted. A reply that is not a success, an empty model, or an unsupported model type raises an error instead of yielding a result.",
 ["inputs","configurations","fault_sequences"],"every compiled model, option combination, credential source and service reply, including error replies",
 "Tests replay one canned response; attribution of values to labels and the submitted polynomial are not checked against energies.",
 ["sawatabi/solver/optigan_solver.py","sawatabi/solver/dwave_solver.py",PM],[("request and decode","sawatabi/solver/optigan_solver.py: solve"),("integer polynomial",PM+": to_polynomial"),("composite sampler","sawatabi/solver/dwave_solver.py")],None,["HTTP request received by a loopback service; sampler arguments; returned SampleSet"])
p("C13","Each window yields exactly one result computed from exactly its elements",
 "For input that is not late with respect to the watermark, every non-empty window of the input stream yields exactly one output record: a solution, a failure report, or an outdated notice if a later window was already processed. The elements handed to the mapping, solving and unmapping functions of a window are exactly, without loss or duplication and sorted by event time, the window's elements for the sliding, fixed (delta) and attenuation algorithms, all elements processed so far for the incremental algorithm, and the window's elements plus the retained earlier ones for the partial algorithm. Windows that are processed are processed in non-decreasing time order.",
 ["inputs","schedules","configurations"],"every input sequence (order, gaps, ties, timestamps before the epoch), window size/period combination, algorithm and runner",
 "Tests run each algorithm once over one evenly spaced file and grep the printed text.",
 [AA]+ALG,[("windowing","sawatabi/algorithm/*.py: create_pipeline"),("per-window processing",AA+": SolveDoFn.process")],[("per-key state","previous timestamp and elements")],["calls of the user functions and output records of a running pipeline"])
p("C14","Incoming and outgoing elements are exactly the change between windows",
 "For every processed window, the incoming elements are exactly the current elements that were not among the previously processed window's elements, and the outgoing elements exactly the previous ones that are no longer current, each once and in time order. Hence previous elements plus incoming minus outgoing are the current elements, for every algorithm, input timing and window configuration, and the mapping, solving and unmapping functions see the same lists.",
 ["inputs","histories","configurations"],"every stream, every algorithm and window configuration, overlapping or not, with ties and gaps, and with failing user functions in between",
 "Tests never look at the difference lists.",
 [AA],[("difference resolution",AA+": SolveDoFn.process (resolve_outgoing, resolve_incoming)")],[("elements state","elements of the previous window")],["arguments of the user functions"])
p("C15","Window state is threaded correctly and failures stay contained",
 "The mapping function of each processed window receives the model returned by the most recent successful mapping (initially an empty model of the configured type) and, like the solving function, the result of the most recent successful solve (initially none). If a user function raises, that window yields one record reporting which step failed and why, the later steps of that window are not run, and the following windows are processed normally from the last successfully obtained model and result.",
 ["fault_sequences","histories"],"every pattern of failures of the mapping, solving and unmapping functions over every window sequence and algorithm",
 "Tests inject a failure in one function for the whole run; mixed failure histories and what later windows then receive are not covered.",
 [AA],[("state cells and failure handling",AA+": SolveDoFn.process")],[("model and result state","last successful model and sample set")],["arguments of user functions, output records"])
p("C16","Attenuation weights interactions linearly by age",
 "With the attenuation algorithm, at solving time, whenever the reference values differ, the interaction with the newest reference value has scale one, the oldest has the configured minimum scale, and every other one lies on the straight line between them; interactions without the reference attribute keep their scale and removed interactions do not count. Nothing but scales changes, every window is weighted afresh from its own reference values, and other algorithms leave scales alone.",
 ["inputs","histories","configurations"],"every multiset of reference values, minimum scale, and window history",
 "Tests only check that the attenuation sample prints a small difference.",
 [AA,"sawatabi/algorithm/attenuation.py"],[("scale update",AA+": SolveDoFn.process")],None,["model passed to the solving function"])
p("C17","Stream input is indexed, parsed and output decorated without loss",
 "Elements entering a pipeline are numbered consecutively from zero in arrival order, each exactly once, and with timestamp reassignment the number becomes the event time, otherwise the event time is kept. Reading numbers yields exactly the lines consisting only of digits, in order, as integers, and reading JSON yields every line's value. Every output record carries the configured timestamp, prefix and suffix around the unmapped text, exactly once each and in that order, and written files, printed lines and published (UTF-8 encoded) messages are exactly these records.",
 ["inputs","configurations"],"every input text and every combination of input and output options",
 "Tests use two well-formed files and one option set.",
 ["sawatabi/algorithm/io.py",AA],[("index assignment",AA+": IndexAssigningStatefulDoFn"),("readers and writers","sawatabi/algorithm/io.py"),("decoration",AA+": _create_pipeline")],None,["user function arguments, output records, written files, printed lines, published messages"])
p("C18","The number-partitioning reference solver is optimal and complete",
 "For every list of non-negative integers the dynamic-programming solver returns partitions whose two sides are disjoint, cover every index, and differ by the minimum possible amount, and reports an exact partition if and only if one exists. With full enumeration it returns every subset attaining the best not-larger sum, each exactly once.",
 ["inputs"],"every list of non-negative integers including zeros, duplicates, singletons and the empty list",
 "Tests cover a handful of lists.",
 ["sawatabi/utils/npp.py"],[("DP table and reconstruction","sawatabi/utils/npp.py: solve_npp_with_dp")],None,["return value"])
p("C19","Growing variable arrays keeps existing variables and bookkeeping",
 "Appending to a variable array adds the given amount per dimension, keeps the label of every existing element at its position and leaves the energy of the model unchanged; an undefined name is created, and a different number of dimensions is rejected. Every label is unique and names its array and position, arrays do not interfere, elements have the type of the model (also after conversion), and the reported total, deleted, fixed and alive counts always match the variables declared, deleted and fixed so far.",
 ["histories","inputs"],"every history of declarations, appends, merges, conversions, deletions and fixings over arrays of any rank",
 "Tests append to one or two arrays once.",
 [LM,"sawatabi/utils/functions.py"],[("variables / append",LM+": variables, append"),("sizes",LM+": get_size, get_all_size")],[("variable arrays","name to array")],["get_variables*, get_*size, get_*array"])
p("C20","The interaction table is a faithful record of the edit history",
 "After any history, querying interactions returns exactly the live ones with the most recently given coefficient, scale, attributes and timestamp (the time of the call when none is given), fields not mentioned in an update keeping their values. Every interaction has a unique name, by which or by whose target it can be updated, removed and queried for attributes, and selecting by variable finds exactly the interactions that touch it. An interaction counts as modified from the moment it is added, updated or removed until the next compilation, and a removed name can be used again only after it.",
 ["histories","inputs"],"every history of add / update / remove / compile over names, targets, attribute sets that grow over time, and timestamps",
 "Tests check single operations on fresh models; attribute tables that grow during the history are not exercised.",
 [LM],[("interaction arrays",LM+": add_interaction, update_interaction, remove_interaction, select_interaction, get_attributes")],[("interaction arrays","parallel columns that must stay aligned")],["select_interaction, get_attributes, select_interactions_by_variable"])
p("C21","Loading a symbolic expression reproduces its energy",
 "Loading a symbolic quadratic expression, or a compiled one, over declared variables gives a model whose energy equals the expression's value for every assignment, for both model types, including products of sums, repeated terms and constants. The expression or compiled model handed in is unchanged, and loading it into another model gives the same result.",
 ["inputs"],"every quadratic expression over declared variables of any rank (placeholder-free: the installed symbolic library cannot compile placeholders into terms)",
 "Tests load two hand-written sums of squares into QUBO models and check some coefficients; Ising models are not covered at all.",
 [LM],[("from_pyqubo",LM+": from_pyqubo")],None,["PhysicalModel.to_bqm against evaluation of the expression"])
p("C22","Copied or serialised models behave identically and independently",
 "A deep copy of a logical or physical model, or one restored from its serialised form as between windows of a distributed pipeline, gives the same compiled energy, variables, numbering, attributes, constraints and sizes, and reacts identically to every further operation. Operating on the copy never affects the original and vice versa, and an empty sibling has the same type and nothing else.",
 ["histories","inputs"],"every model reachable by any history, and every later history on either copy",
 "No test serialises a model that has a history.",
 [LM,PM,AA],[("state coder",AA+": SolveDoFn state specs"),("model state",LM+": LogicalModel")],None,["public API of both copies"])
p("C23","All exported forms of a physical model describe the same problem",
 "The variables of a physical model are numbered consecutively from zero, one number per variable that occurs in it and no others, in declaration order, and number and label translate back and forth. The binary quadratic model and the integer polynomial exported from one physical model give corresponding assignments the same energy (the polynomial without the offset), for either sign convention, and exporting does not change the model.",
 ["histories","inputs"],"every physical model compiled from any history, including several arrays, deletions, zero coefficients that cancel, and merges",
 "Tests export two fixture models.",
 [PM,LM],[("exports",PM+": to_bqm, to_polynomial"),("numbering",LM+": to_physical")],[("label/index maps","bijection over the model's variables")],["to_bqm, to_polynomial, numbering maps"])
p("C24","A model maintained incrementally over a stream equals one rebuilt per window",
 "When an application maintains its model across the windows of a stream without late data by growing variables, adding the interactions of incoming elements and deleting the variables of outgoing ones, the compiled model of every processed window equals the model built from scratch from that window's elements alone. With an exact solver the unmapped solution is therefore an optimum of that window's problem.",
 ["histories","inputs","configurations"],"every stream, window configuration and algorithm whose application follows the incremental recipe of the sample applications",
 "Tests run the samples over one file and check that some outputs appear in the text; stale terms from earlier windows would not be noticed.",
 [AA,LM,"sample/algorithm/npp_window.py"],[("state threading and differences",AA+": SolveDoFn.process"),("delete_variable / append / to_physical",LM)],None,["compiled model inside the solving function of a running pipeline"])
p("C25","Rejected model operations leave the model unchanged",
 "A call that is rejected because of its arguments or the model's state (wrong types, unknown or duplicate names, removed interactions, values outside the domain, unknown constraints, mismatching dimensions) raises an error and leaves the model exactly as it was: the same variables, interactions, attributes, constraints, counts and compiled energy, and the same reaction to later operations. Calls that must be rejected are never silently accepted.",
 ["fault_sequences","histories","inputs"],"every rejected call at every point of every history",
 "Tests assert that an exception is raised but not that the model is intact afterwards.",
 [LM,"sawatabi/base_mixin.py"]+CO,[("argument checks",LM+", sawatabi/base_mixin.py")],None,["public API snapshot before and after the rejected call"])
p("C26","Models and constraints compare equal exactly when they are the same",
 "Two logical models that went through the same operations with the same arguments, a model and its deep copy, and a model and the one restored from its serialised form compare equal; so do the physical models compiled from equal models and constraints with the same kind, label, strength, number and variables, in whatever order the variables were given. A difference in any visible part (type, variables, interactions with their values, attributes or timestamps, constraints, offset, deleted or fixed variables, compiled terms) makes them unequal, inequality is always the negation of equality, and objects of other types are unequal. Comparing and printing a model or constraint never fails and changes nothing.",
 ["histories","inputs"],"every pair of models or constraints reachable by any history",
 "Tests compare a few fresh models; models with histories, copies and serialised forms are not compared.",
 [LM,PM]+CO,[("equality",LM+", "+PM+", constraints: __eq__/__ne__"),("printing","__repr__/__str__ of the same classes")],None,["== and != between models, constraints and other objects; str() and repr()"])
p("C27","Unusable solver inputs and pipeline settings are rejected, not answered",
 "A solve that cannot be honoured (a model that is not a physical model, an empty model, initial states of the wrong length or with missing variables, an unknown pick-up mode, incomplete reverse-annealing options, an Ising model for the QUBO-only service, a missing credentials file) and a pipeline configuration that cannot be honoured (missing window options, an invalid model type) raise an error. No result is returned, no request leaves the process and no user function runs, the model is unchanged, and later solves give what they would have given without the rejected call.",
 ["fault_sequences","inputs","configurations"],"every invalid argument of every solver and pipeline, before or between valid uses",
 "Tests assert one exception for a few of these and nothing about requests, models or later solves.",
 ["sawatabi/solver/local_solver.py",SS,"sawatabi/solver/dwave_solver.py","sawatabi/solver/optigan_solver.py","sawatabi/solver/abstract_solver.py",AA]+ALG,[("argument checks","solve() of each solver; create_pipeline of each algorithm")],None,["exceptions, recorded requests and sampler calls, results of later solves"])
p("C28","Reported times are real and profiling is transparent",
 "The execution time the local solvers (exact, simulated annealing, built-in annealing) report is measured around the whole search, all reads included: in seconds, not negative, not longer than the call and not shorter than the time the search itself took. A profiled function returns exactly the value of the wrapped one, is called once with the same arguments, propagates its exceptions and keeps its name, together with a time that lies within the duration of the call. The clock helpers return the present time in their documented unit and type.",
 ["schedules","inputs"],"every function, argument list, exception and solver run, under any delay",
 "Tests only check the type of the reported time.",
 ["sawatabi/utils/profile.py","sawatabi/utils/time.py",SS,"sawatabi/solver/local_solver.py"],[("profile wrapper","sawatabi/utils/profile.py: profile"),("clock helpers","sawatabi/utils/time.py"),("timing information","LocalSolver.solve, SawatabiSolver.solve")],None,["return values and timing information, bracketed by the monitor's own clock and injected delays"])
p("C29","The bundled streaming applications partition exactly each window's numbers",
 "Run on any text file of positive numbers (other lines interspersed), each bundled number-partitioning application writes exactly one record per window of its configuration. A record shows the numbers of exactly that window in their order of arrival (together with all earlier ones in the incremental application, and with the earlier ones above its threshold in the partial one), split into two sets which together contain each of these numbers once, with the right sums and difference; a window of a single number is reported as failed to solve.",
 ["inputs","configurations"],"every input file and every bundled number-partitioning application",
 "Tests run each application on one file and look for some lines of the text; that every record is a partition of its own window's numbers is not checked.",
 ["sample/algorithm/npp_window.py","sample/algorithm/npp_attenuation.py","sample/algorithm/npp_delta.py","sample/algorithm/npp_incremental.py","sample/algorithm/npp_partial.py",AA,LM],[("mapping, solving, unmapping","sample/algorithm/npp_window.py"),("pipelines","create_pipeline of each algorithm")],None,["files written by the applications"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
