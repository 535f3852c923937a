"""The properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json."""
def P(id, title, statement, over, text, why, files, mech, technique, level_note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors=a, technique=technique, level_note=level_note)

PROPS = [
P("C01", "Every command ends with a result or with a described error",
  "Every command called from a script, with whatever arguments, ends in exactly one of two ways: it returns a result, or it raises an error that carries a non-empty message. "
  "An error that was detected is never replaced by, or dropped in favour of, a normal result, and every command has a way to succeed.",
  ["inputs", "programs"], "all commands of the scripting interface, all argument combinations, all states of devices, meshes and circuits",
  "there are 106 commands with several hundred exits, most of them error exits that need a particular combination of arguments and program state",
  ["src/commands/CircuitCommands.cc", "src/commands/EquationCommands.cc", "src/commands/GeometryCommands.cc", "src/commands/MaterialCommands.cc", "src/commands/MathCommands.cc", "src/commands/MeshingCommands.cc", "src/commands/ModelCommands.cc", "src/pythonapi/CommandHandler.cc", "src/pythonapi/CommandTable.cc"],
  [("handlers set their outcome through CommandHandler::Set*Result", "src/commands/*.cc"), ("command table", "src/pythonapi/CommandTable.cc"), ("dispatch", "src/pythonapi/PythonCommands.cc: CmdDispatch")],
  "path-sensitive typestate analysis (ESP) of every command handler over LLVM IR, specialised per command name",
  "sound up to the listed assumptions for the outcome automaton over all paths of all 106 handlers; message contents other than emptiness are not decided",
  [("outcome", "none, result or error with message", "CommandHandler: return_code_, error_string_, return_object_")]),
P("C02", "A command whose options are rejected has no effect",
  "When a command rejects its arguments (unknown option, missing required option, wrong type, or a failed validity check), it raises an error and changes nothing: no device, mesh, model, equation, circuit or parameter is created, altered or deleted. "
  "Likewise no command acts before its arguments were validated, none changes anything after it has reported an error, and a command that finds a reason to refuse later on (a name in use, a missing model, a wrong length) refuses before it has changed anything: what ends in an error reported by the command has left everything as it was. "
  "What an operation that fails inside has done (solve, and creating a model from an expression) is not part of this property, nor are errors raised by an internal assertion.",
  ["inputs"], "all commands, all invalid argument sets, all program states",
  "rejection is a path of every command that depends on the whole option table; tests call commands with valid arguments",
  ["src/commands/CircuitCommands.cc", "src/commands/EquationCommands.cc", "src/commands/GeometryCommands.cc", "src/commands/MaterialCommands.cc", "src/commands/MathCommands.cc", "src/commands/MeshingCommands.cc", "src/commands/ModelCommands.cc", "src/pythonapi/GetArgs.cc"],
  [("option validation", "src/pythonapi/GetArgs.cc: GetArgs::processOptions"), ("rejection exit of each handler", "src/commands/*.cc")],
  "path-sensitive typestate analysis with interprocedural mutation (effect) summaries",
  "over all paths of all handlers; a mutation is a store or container update through something the function does not own, found through the call graph; creating the ground node, which always exists, and evaluating a model, which fills its cache, are not changes"),
P("C03", "Command options agree with their declaration and their documentation",
  "Every option a command uses is one it accepts and validates with the type it is used as, and it reads every option it accepts. "
  "Every option the built-in documentation of a command describes is accepted; one documented as optional can be left out, and then has the documented default value.",
  ["inputs", "configurations"], "all commands and all their options",
  "an option that is misspelt on one side only shows when a script passes (or omits) exactly that option on that path",
  ["src/commands/CircuitCommands.cc", "src/commands/EquationCommands.cc", "src/commands/GeometryCommands.cc", "src/commands/MaterialCommands.cc", "src/commands/MathCommands.cc", "src/commands/MeshingCommands.cc", "src/commands/ModelCommands.cc", "src/pythonapi/DevsimDoc.cc", "src/common_api/GetArgsCommon.cc"],
  [("option tables", "src/commands/*.cc: static dsGetArgs::Option option[]"), ("option accessors", "src/common_api/GetArgsCommon.cc"), ("documentation strings", "src/pythonapi/DevsimDoc.cc")],
  "table agreement over the constant initialisers in LLVM IR, with path-sensitive resolution of the table in force at each read",
  "all option reads with a constant name; the ten reads through a name table are reported as unresolved; prose defaults are not compared"),
P("C04", "Option values are accepted only when they are valid",
  "A command runs only when every keyword argument names one of its options, every value given for an option of type FLOAT, INTEGER, BOOLEAN or LIST converts to that type, no required option is missing and every check attached to an option "
  "(a device, region, contact, interface or mesh that must or must not exist, a mesh that must or must not be finalized, a string that must not be empty) holds; otherwise the command is refused with a non-empty message, and valid options are not refused. "
  "A conversion reports success only when it succeeded: a Python value that does not convert, or does not fit, is never replaced by a default value. An option that is left out has a default of the type of the option.",
  ["inputs"], "all keyword arguments of all commands, all Python values, all outcomes of every Python conversion",
  "the values that do not convert are unbounded, and each kind of failure is a path of its own",
  ["src/pythonapi/GetArgs.cc", "src/common_api/GetArgsCommon.cc", "src/commands/CheckFunctions.cc", "src/commands/Validate.cc", "src/pythonapi/ObjectHolder.cc"],
  [("option processing", "src/pythonapi/GetArgs.cc: GetArgs::processOptions"), ("check functions", "src/commands/CheckFunctions.cc"), ("conversions", "src/pythonapi/ObjectHolder.cc: ObjectHolder::Get*")],
  "path-sensitive typestate analysis (ESP) of option processing, the check functions and the conversions over LLVM IR; evaluation of the option tables",
  "over all paths and all combinations of option type, conversion outcome, row of the option table and check result; an empty option name is ignored by the code and not considered; numeric checks (mustBePositive) are only examined for their message"),
P("C05", "Errors and floating point exceptions never escape the command dispatch",
  "Every exception a command handler throws is caught before control returns to Python and becomes a Python exception; no exception is thrown where it would end the process (destructors, functions that must not throw), "
  "and no command ends the process (the one exception is output when Python has no stdout). The floating point flags are cleared before a handler runs, and examined after it, so that a result is returned only when no floating point exception occurred; "
  "positional arguments are refused before the handler runs.",
  ["inputs", "fault_sequences"], "all commands, all exceptions thrown anywhere below them",
  "exceptions are thrown at more than a thousand functions' assertion failures and error exits that no test provokes",
  ["src/pythonapi/PythonCommands.cc", "src/pythonapi/OutputStream.cc", "src/utility/dsAssert.cc", "src/math/MKLPardisoPreconditioner.cc", "src/utility/dsTimer.cc"],
  [("dispatch", "src/pythonapi/PythonCommands.cc: CmdDispatch"), ("fatal errors", "src/utility/dsAssert.cc, src/pythonapi/OutputStream.cc")],
  "interprocedural exception-flow analysis over LLVM IR (landing pads against the type hierarchy of everything thrown) and path-sensitive simulation of the dispatch function",
  "library functions are assumed to throw only types derived from std::exception; exceptions from running out of memory inside a handler of an exception are not considered"),
P("C06", "References to Python objects are neither leaked nor released too often",
  "Every function between Python and the simulator releases exactly the references it owns, on every path, whatever Python calls in it fail: no object is leaked, none is released or returned without a reference. "
  "NULL never reaches a Python function that needs an object; a command returns NULL to Python exactly when a Python exception is set; no function of the layer leaves an exception pending behind a normal return; the option dictionary is handed over with exactly one reference.",
  ["inputs", "fault_sequences"], "all functions of src/pythonapi, all outcomes of the Python functions they call",
  "a leaked or over-released reference does not show in any single call, and the failing outcomes of Python functions need hostile objects",
  ["src/pythonapi/ObjectHolder.cc", "src/pythonapi/Interpreter.cc", "src/pythonapi/PythonCommands.cc", "src/pythonapi/CommandHandler.cc", "src/pythonapi/OutputStream.cc", "src/pythonapi/ZlibCompress.cc", "src/common_api/ObjectHolder.hh"],
  [("ownership", "src/pythonapi/ObjectHolder.cc: ObjectHolder"), ("results", "src/pythonapi/PythonCommands.cc: CmdDispatch")],
  "path-sensitive reference counting (ownership typestate) over LLVM IR with the reference behaviour of each Python API function",
  "allocation failures and exceptions thrown half way through a function are not considered; objects stored in C++ containers are assumed to be non-empty",
  [("references", "number of references a path owns to each object", "PyObject reference counts")]),
P("C07", "Python is only used under its interpreter lock, and never by workers",
  "Every use of the Python API happens with the interpreter lock held: either taken by the function itself (EnsurePythonGIL) or held by every caller up to the command dispatch. While a solve has given the lock up (MasterGILControl), "
  "nothing uses Python without taking it again; what a guard takes or gives up is given back exactly once, and a nested guard leaves the outer one alone. Worker threads of model evaluation do not use Python at all (apart from failed internal assertions), so the thread that waits for them cannot be blocked by them.",
  ["schedules"], "all functions that reach the Python API, all call chains below the solver, all worker threads",
  "using Python without the lock is a race that shows only under other Python threads",
  ["src/pythonapi/ControlGIL.cc", "src/math/Newton.cc", "src/pythonapi/Interpreter.cc", "src/pythonapi/ObjectHolder.cc", "src/pythonapi/OutputStream.cc", "src/MathEval/MathPacket.cc", "src/models/ParallelOpEqual.cc"],
  [("lock guards", "src/pythonapi/ControlGIL.cc"), ("lock given up", "src/math/Newton.cc: Newton::Solve, ACSolve, NoiseSolve"), ("worker threads", "src/MathEval/MathPacket.cc, src/models/ParallelOpEqual.cc")],
  "lockset dataflow per function and its propagation through the call graph over LLVM IR, with simulation of the guards",
  "calls through plain function pointers outside the command table are not followed"),
P("C08", "A change marks every model that depends on it as out of date",
  "When something a model may be calculated from changes, every node, edge, triangle edge and tetrahedron edge model registered as depending on it, directly or through other models, is marked as out of date, so that the next read calculates it again. "
  "Changes are: giving a model new values (its own values then count as current), marking it out of date, creating, replacing or deleting a node or element model of that name, setting a global, device or region parameter (unless a parameter of the same name at a closer level hides it), "
  "setting a circuit node, or solving, restoring or updating the circuit solution, and changing the elements of a contact or an interface. A change on a region also reaches the models of the interfaces of that region; interface models are calculated anew on every read, so they need no mark.",
  ["histories", "inputs"], "all mutators of models, parameters and circuit nodes, all kinds of models, all dependency relations",
  "staleness needs a history: a model that was read, a change, and a second read; which kinds of models and which changes are combined is unbounded",
  ["src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Geometry/Interface.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/TriangleEdgeModel.cc", "src/models/TetrahedronEdgeModel.cc", "src/Data/GlobalData.cc", "src/Circuit/data/NodeKeeper.cc", "src/math/Newton.cc", "src/commands/CircuitCommands.cc"],
  [("dependency map", "src/Geometry/Region.cc: Region::SignalCallbacks, DependencyMap"), ("changes of models", "src/models/*Model.cc: SetValues, SetNodeValue, MarkOld"), ("parameters", "src/Data/GlobalData.cc: SignalCallbacksOn*"), ("circuit", "src/Circuit/data/NodeKeeper.cc: TriggerCallbackOnNode")],
  "path-sensitive typestate analysis (change, then announcement) of every mutator over LLVM IR, and abstract simulation of the propagation loops",
  "that a loop visits every element of its container is decided by its shape (no early exit, the only filter being the membership test the rule expects); which models register which dependencies is property C09"),
P("C09", "Every model registers what it is calculated from",
  "A model registers itself as depending on every node, edge, triangle edge and tetrahedron edge model, and every parameter, its values are calculated from, and on the contacts or the interfaces of the device when it is calculated from those. "
  "This holds for every built-in model (geometry, averages, gradients, element averages, derivatives) in each dimension in which it can be used, whatever names it is given, and for each kind of model defined by an expression, which registers every model and every variable of the expression, "
  "and, for names of the form m@en0, the edge model m@n0 that is used in its place. Companion models that a model creates and fills itself are excepted.",
  ["inputs", "histories"], "all model classes, all names they are given, all expressions, all dimensions",
  "a missing registration shows only when exactly that input changes between two reads; the tests read models once",
  ["src/GeomModels/*.cc", "src/models/*.cc", "src/AutoEquation/*ExprModel.cc", "src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/InterfaceNodeExprModel.cc"],
  [("registration", "src/GeomModels, src/models: derived_init of each model; RegisterCallback"), ("calculation", "calc*Values of each model"), ("expressions", "src/AutoEquation/*ExprModel.cc: RegisterModels; ModelExprEval.cc: EvaluateVariableType")],
  "abstract simulation of constructor, initialisation and calculation of each model class over LLVM IR; the names looked up are compared with the names registered",
  "geometry (coordinates, lengths, element lists) does not change after a device was created, so it needs no registration; which names an expression references is decided by the expression engine, which is not part of the repository"),
P("C10", "Values a model hands out are current, in both precisions, and never of a failure",
  "Whatever the history of setting, reading and invalidating a model, each read of its values (as a list or as one uniform value, in double or in extended precision) gives the values last set or calculated: changing values in one precision drops the copy in the other, the answer whether they are uniform, zero or one is about these values, the uniform value is only used when the values are uniform, and a model reports as many values as it holds. "
  "For every kind of model, values are read only when current or just calculated; a calculation begins with no floating point exception pending and with the model marked as in process; a model needed for its own calculation is reported as an error; and when a calculation fails or ends with a floating point exception, the error is passed on, the model is not marked as current or in process, and the next read calculates again.",
  ["inputs", "histories"], "all sequences of operations on the values of a model, all kinds of models, both precisions, all failures of a calculation",
  "it takes a mixture of precisions, a set between two reads, or a failed calculation followed by another read; the tests read each model once in one precision",
  ["src/models/ModelDataHolder.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/TriangleEdgeModel.cc", "src/models/TetrahedronEdgeModel.cc", "src/models/InterfaceNodeModel.cc", "src/models/ScalarData.cc"],
  [("storage", "src/models/ModelDataHolder.cc"), ("calculation", "CalculateValues of each kind of model"), ("readers of uniform values", "callers of GetUniformValue: ScalarData.cc, TecplotWriter.cc, *SubModel.cc")],
  "typestate: fixpoint over the abstract states of a model's storage under all its methods, and path-sensitive simulation over LLVM IR of each reading method with failing and succeeding calculations",
  "one representative element stands for every element of a list; rounding between the precisions is not considered"),
P("C11", "Each model gets one value for every element of its kind, and calculates all",
  "Lists given to a model, or to the value of an expression, have one value per node, edge, triangle edge (3 per triangle) or tetrahedron edge (6 per tetrahedron) of the region, or node of the interface, according to the kind of the model; lists from commands, from files and from evaluated expressions are given to a model only after their length, or the kind of the result, was found to be that. "
  "Conversions between kinds (edge values used as element values, a single value used as many) make lists of the length of the kind they claim, and the members of the value of an expression are used only as its tag says. "
  "Every calculation of a built-in model that ends without an error has given values to the model and to each part that it calculates along with it, and the loops that calculate reach every element, every edge and node of it and every part.",
  ["inputs", "histories"], "all meshes, all built-in models in all dimensions and with all names, all expressions, all lists given by users and files",
  "it takes a particular kind of model, dimension, mixture of kinds in one expression, or region without elements; the tests calculate a few models on a few meshes",
  ["src/GeomModels", "src/models", "src/AutoEquation/ModelExprData.cc", "src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/InterfaceModelExprData.cc", "src/commands/ModelCommands.cc", "src/meshing/DevsimLoader.cc"],
  [("lists of values", "each call of SetValues of a model and constructor of ScalarData"), ("filling loops", "calc*Values of the built-in models"), ("values from outside", "ModelCommands.cc setNodeValuesCmd, DevsimLoader.cc Instantiate_, *ExprModel.cc"), ("values of expressions", "ModelExprData.cc, InterfaceModelExprData.cc, EvaluateExternalMath")],
  "dataflow over LLVM IR: symbolic lengths of lists as multiples of the numbers of elements, bounds and strides of filling loops, typestate of lists and tags, path-sensitive simulation of each calculation",
  "that the lists of a region are as long as its number of elements is assumed; which value is calculated is not considered"),
P("C12", "No failed evaluation of an expression is silent",
  "Whenever a part of the expression of a model cannot be evaluated (a name that is neither a model nor a parameter, a parameter that is not a number, a function that does not exist, takes another number of arguments or whose arguments are of kinds that do not go together, a Python function that raises or returns no number, an operation on a value that is not valid) an error is added to those of the expression, and the model reports it, as an error, when it is calculated; a parameter or number that was not found is not used as a value; a result that is not valid, or came with an error, is not kept for other expressions; and an operation with an operand that is not valid has a result that is not valid. "
  "Floating point exceptions are never lost: each evaluation looks at the exceptions it caused and reports them as an error, exceptions of the calculation around it are on record again when it ends, and those of evaluations divided among threads, and their errors, are taken over from every task where the result is used. A floating point exception in a factorization or solve of the preconditioner makes it fail. "
  "(By design: a model missing in the region of a model expression is 0.0 with a message, and a product with a factor of zero is zero.)",
  ["inputs", "histories", "schedules"], "all expressions, parameters, Python functions and kinds of arguments; any number of threads",
  "it takes a failing part at a particular position of an expression, under a particular kind of argument, number of threads, or history of the cache; the tests evaluate expressions that succeed",
  ["src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/InterfaceModelExprEval.cc", "src/AutoEquation/NodeExprModel.cc", "src/MathEval", "src/models/ParallelOpEqual.cc", "src/models/NodeModel.cc", "src/pythonapi/Interpreter.cc", "src/math/Preconditioner.cc", "src/utility/FPECheck.cc"],
  [("evaluators", "ModelExprEval, InterfaceModelExprEval: eval_function, Evaluate*"), ("functions", "MathEval.cc EvaluateMathFunc, EvaluateTclMathFunc; MathWrapper Evaluate"), ("tasks", "MathPacket.cc, ParallelOpEqual.cc"), ("exceptions", "CalculateValues of the model classes, eval_function, Preconditioner LUFactor, LUSolve"), ("models", "calc*Values of the *ExprModel classes")],
  "path-sensitive typestate simulation over LLVM IR: failure of each part, error list, cache entry, and record of floating point exceptions as states",
  "the words of a message, and whether a numeric result is right, are not considered; messages with a value by design are listed in the statement"),
P("C13", "A failed solve is reported, and leaves the solution as it was",
  "A DC or transient solve reports success only after an update in which the linear solver succeeded, every device and the circuit were updated, the relative and the absolute error of each, read after that update, are below their limits (those of a device cover those of each of its regions, those of a region those of each of its equations, those of the circuit those of each of its nodes), the projection of the charge, where one is made, was found right, and no floating point exception is on record. An AC or noise solve reports success only where its linear solver did. "
  "A linear solver, preconditioner or solver callback that fails (at the factorization, while solving with the factors, or because the callback raises, returns no dictionary, a failed status, or no result) is never taken as having succeeded, and no solution is updated from it. "
  "When a DC or transient solve ends in any other way, an error raised on the way included, the values of every variable of every region of every device, and of the circuit, are those from before the solve, and the time has not advanced. For this, every variable is saved before the first update, or the solve refused; and the variables in use in a region are exactly those of its equations, whatever was added, replaced, or deleted.",
  ["inputs", "histories", "fault_sequences"], "all devices, equations, circuits, methods, linear solvers and failures at any step of any iteration",
  "it takes a failure at a particular step of a particular iteration, or a combination of devices, regions and equations; the tests solve systems that converge",
  ["src/math/Newton.cc", "src/math/LinearSolver.cc", "src/math/Preconditioner.cc", "src/math/ExternalPreconditioner.cc", "src/math/MKLPardisoPreconditioner.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Circuit/data/NodeKeeper.cc"],
  [("solve", "Newton::Solve, ACSolve, NoiseSolve"), ("linear solver", "LinearSolver, IterativeLinearSolver, DirectLinearSolver SolveImpl; Preconditioner LUFactor, LUSolve and the derived"), ("errors", "Device::Update, Region::Update, NodeKeeper::UpdateSolution"), ("saving", "Newton, Device, Region BackupSolutions, RestoreSolutions"), ("variables in use", "Region::AddEquation, DeleteEquation, GetVariableList")],
  "path-sensitive typestate simulation over LLVM IR, exceptional paths included, with an arbitrary element for each list of parts",
  "that a model copies the values it is given is assumed; whether a numeric result is right is not considered"),
P("C14", "Lists are evaluated entry by entry, whatever the number of threads",
  "What a function or an operation gives for a list of values does not depend on threads_available and threads_task_size: entry k of the result is computed from entries k of the operands (or from their single values), each given in its place, and every entry exactly once, whether the list is evaluated as a whole or in parts. "
  "The parts handed out to threads cover the list without gap or overlap, and nothing that one part writes (other than its entries of the result and its own record) can be reached from another. "
  "The errors and floating point exceptions of every part are reported as those of the whole would be, after its thread has ended.",
  ["inputs", "schedules", "configurations"], "all lengths of lists, numbers of threads, task sizes, functions and kinds of operands; all interleavings",
  "it takes a particular length, number of threads and interleaving; the tests run with the defaults, which never start a thread",
  ["src/MathEval/MathPacket.cc", "src/MathEval/MathWrapper.cc", "src/models/ParallelOpEqual.cc", "src/models/ParallelOpEqual.hh", "src/MathEval/MathEval.cc", "src/utility/FPECheck.cc"],
  [("division into parts", "MathPacketRun, OpEqualRun"), ("work on a part", "MathWrapper1-4, PowWrapper DerivedEvaluate; SerialVectorVectorOpEqual, SerialVectorScalarOpEqual"), ("records", "MathPacket, OpEqualPacket: operator(), join"), ("functions", "tables of MathEval and what they reach")],
  "abstract interpretation over linear constraints (partition), affine index analysis (entries), interprocedural effect analysis (sharing), typestate and must-pass analysis (records)",
  "the partition is proved for all lengths below 2^48; arithmetic or loops of a form that is not recognised are counted as not decided, not as violations; libm and library containers are taken as reentrant"),
P("C15", "The assembled matrix is the derivative of the assembled right-hand side",
  "For every equation, contact equation and interface equation, each entry loaded into the matrix is the derivative of what is loaded into the same row of the right hand side with respect to the variable of the column, with the same sign and the same geometric weight: it is formed from the derivative models by their names (:var for a node or interface model, @n0 and @n1 for an edge, @en0 to @en3 for an element edge, @r0 and @r1 for an interface), each at the node it belongs to, and every element, edge and node of a list contributes once. "
  "For every circuit element, and the charge and current of a contact on its circuit node, each entry of the matrix is the derivative of what is loaded with respect to that node or current. "
  "What is loaded is the same when only the matrix or only the right hand side is wanted, and a derivative model that does not exist is left out or refused, never used.",
  ["inputs", "programs", "configurations"], "all meshes, equations, models and derivative models, boundary conditions, circuits and modes of assembly",
  "a wrong entry of the matrix changes the convergence and the small-signal result but not the DC solution, and it takes a particular kind of term, variable, and position of an edge at a contact to notice; the tests that run solve small systems",
  ["src/Equation/Equation.cc", "src/Equation/ContactEquation.cc", "src/Equation/InterfaceEquation.cc", "src/AutoEquation/ExprEquation.cc", "src/AutoEquation/ExprContactEquation.cc", "src/AutoEquation/InterfaceExprEquation.cc", "src/Circuit/models"],
  [("terms of an equation", "DerivedAssemble of ExprEquation, ExprContactEquation, InterfaceExprEquation"), ("bulk", "Equation.cc *Assemble*"), ("contacts", "ContactEquation.cc Assemble*"), ("interfaces", "InterfaceEquation.cc *Assemble*"), ("circuit", "assembleDC_impl, assembleTran_impl of the circuit elements")],
  "abstract interpretation over polynomials of symbolic model entries, compared with their formal derivative, on every path over LLVM IR",
  "that a derivative model holds the derivative of its model is assumed (it is given by the user or derived symbolically); elements whose loads are not linear in the solution are not considered"),
P("C16", "Each option of an equation contributes where, and with the weight, its name says",
  "In the right hand side of its equation, node_model is added at each node times node_volume_model; edge_model is added at node 0 and subtracted at node 1 of each edge times edge_couple_model, and element_model likewise times element_edge_couple_model; edge_volume_model is added at node 0 times edge_node0_volume_model and at node 1 times edge_node1_volume_model, and volume_node0_model and volume_node1_model at their nodes times element_node0_volume_model and element_node1_volume_model; whatever the other options are, and in static assembly only, as time_node_model is in the time derivative only. "
  "A contact's node, edge and element current and charge models are loaded on the circuit node with the same signs and weights, the current ones in the static and the charge ones in the time derivative part, each over the nodes of the contact, and get_contact_current and get_contact_charge are these sums. "
  "An interface equation of type fluxterm is added to the equation name0 on the first side and subtracted from name1 on the second, times surface_area_model; hybrid is subtracted on the second side only, and continuous replaces the equation on the second side by the model.",
  ["inputs", "programs", "configurations"], "all combinations of options, dimensions, meshes, models and names of weights",
  "it takes a particular combination of options, weights set to differ, and a mesh on which the ends of an edge differ; the tests that run use few options and the default weights",
  ["src/commands/EquationCommands.cc", "src/AutoEquation/ExprEquation.cc", "src/AutoEquation/ExprContactEquation.cc", "src/AutoEquation/InterfaceExprEquation.cc", "src/Equation/Equation.cc", "src/Equation/ContactEquation.cc", "src/Equation/InterfaceEquation.cc", "src/Geometry/Region.cc"],
  [("options", "createEquationCmd, createContactEquationCmd, createInterfaceEquationCmd; constructors"), ("terms", "DerivedAssemble"), ("loads", "*Assemble* of Equation, ContactEquation, InterfaceEquation"), ("reported", "calcCurrent, calcCharge, integrate*OverNodes"), ("weights", "Region, Interface Get*Model")],
  "abstract interpretation over polynomials of symbolic model entries, from the option of the command to the right hand side, compared with a table on every path",
  "what is at a node of a contact or interface in place of the bulk equation (permutations) is not decided here; an assembly function that cannot be interpreted is counted as not decided"),
P("C17", "What is saved or told about a model or an equation makes it again",
  "For every model and equation that a command makes, the command that write_devices writes for it in a file of type devsim, and the options that get_equation_command, get_contact_equation_command and get_interface_equation_command return, make the same kind of object again when they are carried out: with the same name, source models, derivative variable, circuit node, display type, average and calculation type, variable update and type of equation, whatever the options it was made with. "
  "The command that is written exists, is given every option it requires and none that it does not declare, and each of -device, -region, -contact and -interface is the name of what the object belongs to. "
  "Every kind of model and equation that can be saved is reached when devices are saved.",
  ["inputs", "configurations", "histories"], "all combinations of options of the commands that make models and equations",
  "it takes an object made with particular options, saved and loaded in another process; no test that runs saves a device with every kind of model",
  ["src/AutoEquation", "src/GeomModels", "src/models", "src/commands/ModelCommands.cc", "src/commands/EquationCommands.cc", "src/meshing/DevsimRestartWriter.cc"],
  [("makers", "dsCommand::create*Cmd"), ("written", "*::Serialize"), ("told", "*::GetCommandOptions_Impl"), ("tables", "DisplayTypeString, AverageTypeNames, CalcTypeString, UpdateTypeString, EquationTypeString")],
  "abstract interpretation of commands, constructors and writers over symbolic option values, composed into a round trip that has to be the identity",
  "the expression of a model is taken to be read back as it is written; names with quotation marks and the values of solutions are not decided here"),
P("C18", "A solve puts each part of its solution where it belongs, damped as asked",
  "In each iteration of a solve, each equation of each region of each device updates its own variable: at each node the new value is the old value plus the entry of the solved update in the row of that equation at that node; with -variable_update log_damp an update u larger than 0.0259 in size is replaced by sign(u)*0.0259*ln(1+|u|/0.0259), and with positive the new value is positive (it is the undamped one if this is positive, and a solution that is not positive is an error). "
  "Circuit nodes are updated in the same way from their own rows, a circuit node being updated as add_circuit_node was asked; the small-signal and noise solutions put the real and the imaginary part of the entry of each row into the models for the real and the imaginary part at its node, and nowhere else. "
  "The absolute and the relative error told for an equation, a region, a device and the circuit are never less than the change made to any of their nodes, and that change relative to the size of the new value plus the smallest value referred to, and the nodes told for the errors of an equation are those which have them.",
  ["inputs", "histories"], "all old values, solved updates, ways to update and numbers of nodes, equations and regions",
  "what is put at the wrong node, damped in the wrong direction or left out of an error still converges on small symmetrical problems, and the tests that run solve only such",
  ["src/Equation/Equation.cc", "src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Circuit/data/NodeKeeper.cc", "src/commands/CircuitCommands.cc"],
  [("updates", "Equation::DefaultUpdate, LogSolutionUpdate, PositiveSolutionUpdate, DefaultACUpdate, DefaultNoiseUpdate"), ("regions", "Region::Update, Device::Update"), ("circuit", "NodeKeeper::UpdateSolution, NodeKeeper::ACUpdateSolution"), ("asked", "dsCommand::addCircuitNodeCmd")],
  "abstract interpretation of the update functions over polynomials in the old values and the entries of the solution, with the comparisons of each path as facts from which the required values and bounds have to follow",
  "arithmetic is taken to be exact and values not to be NaN (that a solve whose update is not a number fails is C13); positive updates of circuit nodes are not decided"),
]

NA = []
