"""The properties (text only; the rules are in mk/rules)."""
API = 'libs/MeshKernelApi/src/MeshKernel.cpp'
MESH = 'libs/MeshKernel/src/Mesh.cpp'


def q(over, text):
    return {'over': over, 'text': text}


def P(id, title, statement, quant, why, files, mech, technique, note, **anchors):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(anchors)
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': quant, 'why_tests_cant': why, 'anchors': a, 'technique': technique, 'level_note': note}


TRUST = ' Trusts the clang front end and the summaries of standard-library calls listed in DESIGN.md; code behind other preprocessor settings is not seen.'

PROPS = [
    P('C01', 'No C++ exception ever leaves the C interface',
      'Whatever arguments a C API function is given and whatever goes wrong inside, the call returns a status to its caller: no C++ exception crosses the C boundary, '
      'and none is thrown out of a non-throwing function, a destructor or a parallel region, where it would end the process.',
      q(['inputs', 'fault_sequences'], 'every entry point, every path through it, every failure raised anywhere below it'),
      'A test sees the failures it provokes; the entry points, statements and error kinds are too many to provoke each from each, and out-of-memory cannot be provoked at every allocation.',
      [API, 'libs/MeshKernel/include/MeshKernel/Exceptions.hpp'], [('catch-all around every entry point body', API), ('error translation', 'HandleException in ' + API)],
      'path-sensitive exception-escape analysis over the AST', 'Every statement of every entry point that can throw is shown to lie inside a handler that catches everything; calls are assumed to throw unless shown not to.' + TRUST),
    P('C02', 'The returned status tells the truth about success and failure',
      'A C API call returns the success code exactly when nothing failed inside it: a call in which an error was raised returns a non-zero code of that error, and a call never returns a status left behind by an earlier call. '
      'Every kind of error carries exactly one non-zero code.',
      q(['inputs', 'histories', 'fault_sequences'], 'every path of every entry point, after any history of earlier calls'),
      'Tests check the status of the calls they make, mostly the successful ones; a stale or swallowed status only shows after particular failures.',
      [API, 'libs/MeshKernel/include/MeshKernel/Exceptions.hpp'], [('status variable reset at entry, set in the handler, returned', API)],
      'path-sensitive status dataflow over the AST', 'Shown for every path of the API layer, with the kernel below it assumed to be able to throw at every call.' + TRUST),
    P('C03', 'Each kind of error keeps its code, its message and its location',
      'Every error raised in the library is reported to the caller of the C API under the code of its own kind, with its own message, and a geometry error also with its own location index and type. '
      'No message is formatted with the wrong number of arguments and message buffers handed out are never overrun.',
      q(['inputs', 'fault_sequences'], 'every throw statement, every error class, every handler'),
      'There are over five hundred places that raise errors; tests provoke a few dozen and compare the code of fewer.',
      [API, 'libs/MeshKernel/include/MeshKernel/Exceptions.hpp', 'libs/MeshKernel/src/Exceptions.cpp'], [('error class hierarchy with virtual code()', 'libs/MeshKernel/include/MeshKernel/Exceptions.hpp'), ('error dispatch', API)],
      'type-directed dispatch analysis of throw sites and handlers, format-string lint', 'Each error type is pushed through the handlers in order; format strings are compared with the argument lists of each instantiation.' + TRUST),
    P('C04', 'A call works on the state its id names, and refuses ids that do not exist',
      'A C API call with a kernel id reads and changes only the state that was allocated under that id, and fails without effect when no such state exists. '
      'Ids of live states are never handed out again, and no call other than allocation creates a state or other than expunging removes one.',
      q(['inputs', 'histories'], 'every id value (live, expunged, never allocated), every entry point, every history of allocations'),
      'The tests use one or two valid ids and a few invalid ones on a few functions; a missing check silently creates an empty state.',
      [API], [('existence test of the id before each use of the state map', API), ('id counter', API)],
      'path-sensitive guard (dominance) analysis on the state map', 'Every access to the state map on every path is shown to be guarded by an existence test of the id that the caller passed.' + TRUST,
      state=[{'name': 'state map', 'meaning': 'kernel id to meshes, grids and interactive sessions', 'where': API}]),
    P('C05', 'Interactive steps without a started session fail cleanly',
      'Every step of an interactive algorithm (orthogonalisation, grid from splines, line shift) called when its session was never started, or was already finished, returns an error instead of crashing. '
      'A state always has its meshes, grid, network and contacts: no call can leave one of them missing.',
      q(['histories'], 'every order of interactive calls, including steps before the start, after the end, and twice'),
      'Tests run the interactive calls in the documented order only.',
      [API, 'libs/MeshKernelApi/include/MeshKernelApi/State.hpp'], [('null test before each use of a session pointer', API), ('constructor creating all geometry objects', 'libs/MeshKernelApi/include/MeshKernelApi/State.hpp')],
      'null-state dataflow (typestate) on the pointers of a state', 'Every dereference of a session pointer is dominated by a test or a creation on its path; every write to a geometry pointer is non-null.' + TRUST),
    P('C06', 'Every successful change of a state is recorded for undo under its id',
      'Whenever a C API call succeeds after changing a mesh, grid, network or contacts of a state, it has added one undo action to the history under the id of that state, so that the change can be undone and is counted for that state. '
      'Removing a state also removes its history.',
      q(['inputs', 'histories'], 'every path of every entry point that changes a state'),
      'Tests undo a few operations; an action dropped on one branch, or filed under the wrong id, is only seen by undoing exactly after that branch.',
      [API, 'libs/MeshKernel/src/UndoActions/UndoActionStack.cpp'], [('undo stack Add with the kernel id', API)],
      'path-sensitive effect analysis with interprocedural mod/ref summaries', 'Shown per path of the API layer; marking dangling nodes and edges invalid (administration) is not counted as a change, nor are intermediate chainages of a network.' + TRUST),
    P('C07', 'Undo restores what the call changed',
      'The undo action a C API call records covers every change the call made: it was taken from the object before the first change, or returned by the operation that changed it, and undoing it puts back every mesh, grid, network, contacts object and the projection that was replaced. '
      'No object that a recorded snapshot relies on is modified in place.',
      q(['inputs', 'histories'], 'every path of every changing entry point; any later sequence of undo and redo'),
      'Tests compare coordinates after undo for some operations; a snapshot taken too late or sharing the changed object looks right until it is undone.',
      [API, 'libs/MeshKernelApi/src/MKStateUndoAction.cpp'], [('state snapshot taken before pointers are replaced', API), ('swap of all pointers on undo and redo', 'libs/MeshKernelApi/src/MKStateUndoAction.cpp')],
      'undo-coverage dataflow (effects matched with snapshot and operation tokens)', 'Shown per path at the level of objects and fields; that the kernel operation\'s own action inverts it exactly is C12 for the primitive actions.' + TRUST),
    P('C08', 'Calls that only ask for information leave the state unchanged',
      'C API calls that retrieve, count, test or compute values from a state leave its nodes, edges, grid, network and contacts, its undo history and its projection unchanged. '
      'The only thing they may trigger is marking dangling or invalid nodes and edges as invalid.',
      q(['inputs', 'histories'], 'every query entry point, every path, every mesh'),
      'Tests check the answer of a query, never that everything else stayed the same.',
      [API, 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/src/Mesh2D.cpp'], [('queries go through read-only operations and lazy caches', API)],
      'interprocedural mod/ref (purity) analysis', 'Whole-program effect analysis of content fields; caches and search structures are not content.' + TRUST),
    P('C15', 'Iterations of parallel loops never touch each other\'s data',
      'In every loop that runs in parallel, each iteration writes only memory that no other iteration reads or writes, or writes it through an atomic, critical or reduction construct, so that results do not depend on the number of threads or on timing. '
      'No error is thrown out of a parallel loop.',
      q(['schedules', 'inputs'], 'every parallel loop, every pair of iterations, every assignment of iterations to threads'),
      'The tests are mostly run on one or two small meshes; a race shows only under a particular timing, if at all.',
      ['libs/MeshKernel/src/OrthogonalizationAndSmoothing.cpp', 'libs/MeshKernel/src/Orthogonalizer.cpp', MESH, 'libs/MeshKernel/src/MeshInterpolation.cpp'],
      [('OpenMP parallel loops over nodes, edges and faces', 'libs/MeshKernel/src')],
      'interprocedural access analysis of OpenMP regions (loop-index disjointness)', 'Every shared write in every parallel region, calls inlined, is shown to be indexed by the loop variable, by a unique offset table, or protected.' + TRUST),
    P('C16', 'Results depend on arguments and state only, never on hidden history',
      'The library keeps no mutable variables beside the table of states, the undo history and the record of the last error, and does not consult clocks, random sources, the environment, pointer values or thread counts, so the same calls give the same results in any process. '
      'It never ends the process, prints, or changes process-wide settings.',
      q(['histories', 'inputs', 'configurations'], 'every function of the library, any history of calls on this or other states'),
      'A test run is one history in one process; leftovers from another state or an earlier call only show in particular histories.',
      [API, 'libs/MeshKernel/src', 'libs/MeshKernel/include/MeshKernel'], [('no mutable static data outside the C interface', 'libs/MeshKernel')],
      'whole-program effect lint (global state, nondeterminism and process-wide effects)', 'Every function and every variable with static storage is inspected; the bundled Triangle code is not analysed.' + TRUST),
    P('C23', 'A copied, moved or assigned object has the whole value of its source',
      'Copying, moving or assigning a mesh, grid, network, contacts object or any other class of the library carries over every field that makes up its value. '
      'Caches may be rebuilt instead of copied, but never refer to the source.',
      q(['inputs', 'histories'], 'every class with a hand-written copy, move or assignment, every field'),
      'Tests compare the coordinates after a copy; a forgotten field such as the projection changes results only in later operations on unusual input.',
      ['libs/MeshKernel/include/MeshKernel', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', MESH], [('hand-written copy and move members', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp')],
      'field-coverage analysis of special member functions', 'Every field of every class with user-provided copy or move members is shown to be transferred.' + TRUST),
    P('C24', 'No value is used before it was set',
      'No variable, member or output of the library is read before it was given a value on the path taken, so no result depends on leftover memory. '
      'Constructors give every member a value.',
      q(['inputs'], 'every local variable, every member of every constructed object, every path'),
      'Reading leftover memory often yields a plausible value in a test and something else in the field.',
      ['libs/MeshKernel/src', 'libs/MeshKernel/include/MeshKernel', 'libs/MeshKernelApi/src'], [('variables and members declared without a value', 'libs/MeshKernel/src')],
      'definite-assignment dataflow analysis', 'Structured definite assignment for locals, members, arrays, matrices and objects of structs without initialisers, with callee summaries for reference parameters.' + TRUST),
    P('C14', 'Nearest-location queries always see the present mesh or grid',
      'Whenever the nodes or edges of a mesh or grid change, by an operation, by undo or redo, or by marking dangling parts invalid, the search trees built on them are marked for update, and every search is made in a tree built from the present content. '
      'A search restricted to a bounding box uses a tree built for that box, whatever was asked before.',
      q(['histories', 'inputs'], 'every function that changes nodes or edges, every path through it, every later query, any history of queries with other boxes'),
      'A test builds a mesh and queries it; stale answers need a query, a change through one particular path, and another query.',
      [MESH, 'libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp', 'libs/MeshKernel/src/Contacts.cpp'],
      [('update flags per tree', 'libs/MeshKernel/include/MeshKernel/Mesh.hpp'), ('BuildTree rebuilding on demand', MESH)],
      'typestate dataflow with composed transfer functions per object and search tree',
      'Object-sensitive and interprocedural, insensitive to correlated conditions; paths that end in an exception are not covered, and neither are the search trees of interpolation samples.' + TRUST,
      state=[{'name': 'search trees', 'meaning': 'one per location, with an update flag each and one cached bounding box', 'where': 'libs/MeshKernel/include/MeshKernel/Mesh.hpp'}]),
    P('C13', 'Undo and redo walk the history as a stack, bounded and per state',
      'An undo takes back exactly the most recent change that is still in effect and makes it the next one to be redone, and a redo does the mirror image; with nothing to do they change nothing and say so, and they report the id of the state they changed. '
      'A new change drops only the undone changes of its own state, the history never exceeds its maximum because its oldest entries go first, removing or clearing history affects exactly the given state or all, and an action runs only from the state that allows it.',
      q(['histories', 'fault_sequences'], 'every sequence of recorded changes, undo, redo, removal and resizing, every failure of an action'),
      'The order only goes wrong for particular interleavings of changes of several states with undo and redo around the size limit; tests walk a few short ones.',
      ['libs/MeshKernel/src/UndoActions/UndoActionStack.cpp', 'libs/MeshKernel/src/UndoActions/UndoAction.cpp', API],
      [('two lists of actions', 'UndoActionStack::m_committed, m_restored'), ('state of an action', 'UndoAction::Commit, UndoAction::Restore')],
      'path-sensitive effect analysis in an abstract domain of list ends', 'Each path of each method is reduced to its effect on the two lists and compared with the stack discipline; list operations that are not understood are left undecided (none on the current tree).' + TRUST),
    P('C12', 'Taking back and redoing a change are exact inverses of each other',
      'Every kind of recorded change puts back, when taken back, exactly the node, edge, projection and offset values that were there before it, for all elements it changed, and puts the changed values again when redone. '
      'A compound change takes its parts back last to first, applies them first to last, and never loses or reorders a part it was given.',
      q(['histories', 'inputs'], 'every kind of undo action, every element it covers, every number of undo and redo steps'),
      'An inverse that is wrong for some elements, or an order that is wrong for overlapping parts, shows only for particular meshes after an undo and a redo.',
      ['libs/MeshKernel/src/UndoActions', 'libs/MeshKernel/src/CurvilinearGrid/UndoActions', 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGrid.cpp'],
      [('undo actions', 'UndoAction and its subclasses'), ('applying and taking back', 'CommitAction/RestoreAction overloads'), ('compound action', 'CompoundUndoAction::Add, DoCommit, DoRestore')],
      'symbolic write signatures of each apply/take-back pair, compared for being inverse', 'Each path of DoCommit and DoRestore is reduced to the places it writes and the values it writes there (one abstract iteration per loop) and the two are matched as exchange, addition or assignment pairs; constructors and creating functions are followed by a take-back, which must be the identity. Index lists are taken to hold distinct indices; writes that are not understood are left undecided (none on the current tree).' + TRUST),
    P('C11', 'A kernel operation hands back an undo action for its whole change',
      'Every kernel operation that changes the nodes, edges, projection or grid of a mesh and reports its work as an undo action returns an action that contains every elementary change made on the way, including nodes and edges dropped by the clean-up that follows it. '
      'No action produced along the way is lost, whatever branch is taken.',
      q(['inputs', 'histories'], 'every operation that returns or fills an undo action, every path, every elementary change'),
      'A forgotten part of a compound action shows only when exactly that branch was taken and the change is then undone and compared.',
      [MESH, 'libs/MeshKernel/src/Mesh2D.cpp', 'libs/MeshKernel/src/CasulliRefinement.cpp', 'libs/MeshKernel/src/MeshRefinement.cpp', 'libs/MeshKernel/src/CurvilinearGrid'],
      [('operations returning std::unique_ptr<UndoAction>', 'libs/MeshKernel/src'), ('compound action', 'CompoundUndoAction::Add')],
      'token dataflow (each content change matched with an undo action that reaches the return value)', 'Path-sensitive; coverage is judged per mesh and field, and whether the action inverts its change is C12. Actions kept in a container or handed to a function that is not followed are undecided, not alarms.' + TRUST),
    P('C09', 'A call that reports success has set every one of its outputs',
      'When a C API call returns the success code, every count, flag, index, option number or other single value that it hands back through its arguments has been written by that call, on every path, also for empty meshes and grids. '
      'Every output array and every output field of a result struct is written too, unless there is nothing to put in it.',
      q(['inputs', 'histories'], 'every success path of every entry point, for every state the call can meet'),
      'Tests read the outputs of calls on well-filled meshes; an output left untouched on one early return or one branch shows only for that input, and then as whatever the caller had there.',
      [API, 'libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp'], [('assignments to output parameters and result structs', API), ('copying of results', 'libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp')],
      'path-sensitive must-write (definite assignment) analysis over the AST', 'The outputs of each call are a frozen table that agrees with the header documentation; that an array is filled to its last element is not decided.' + TRUST),
    P('C17', 'Parameters outside their permitted range are refused',
      'A call that refines a mesh, orthogonalises a mesh or grid, generates a grid from splines or makes a circular grid fails when any member of its parameter struct is outside the permitted range of that member, including not-a-number, and never succeeds with it. '
      'Values at the ends of a permitted range are accepted.',
      q(['inputs', 'configurations'], 'every member of every parameter struct, every such entry point, every path'),
      'There are over thirty members with two or more limits each, in eleven calls; tests try a few invalid values in a few calls.',
      ['libs/MeshKernel/include/MeshKernel/Parameters.hpp', 'libs/MeshKernel/include/MeshKernel/RangeCheck.hpp', API], [('Check...Parameters functions', 'libs/MeshKernel/include/MeshKernel/Parameters.hpp'), ('their calls in the constructors of the algorithms', 'libs/MeshKernel/src')],
      'interprocedural constant propagation of boundary values over the AST', 'Each value just outside and just inside each limit is propagated through the call and every callee that receives the struct; the limits are a frozen table.' + TRUST),
    P('C18', 'Numbers that stand for no option are refused',
      'Every C API call that takes an option as a number (projection, deletion option, land boundary projection, location type, averaging method, property, grid direction) fails when the number is not one of the documented options, and never succeeds with it. '
      'Every documented number is accepted.',
      q(['inputs'], 'every integer passed for an option, every entry point that takes one'),
      'Tests pass the documented numbers and rarely one that is out of range; an undocumented one silently selects some behaviour or none.',
      [API, 'libs/MeshKernel/src/Definitions.cpp'], [('validation of option numbers', API), ('lists of valid numbers', 'libs/MeshKernel/src/Definitions.cpp')],
      'interprocedural constant propagation of option numbers over the AST', 'Four numbers outside each list and all numbers inside are propagated through casts, objects and callees; the lists are a frozen table. Other numbers outside the list are taken to behave like those four.' + TRUST),
    P('C19', 'Input arrays are never written and never kept',
      'A C API call writes only to those arguments of its caller that are its outputs: arrays and structs passed in as input are left exactly as they were. '
      'After the call returns, nothing in the library points into memory of the caller, so the caller may free or reuse it at once.',
      q(['inputs', 'histories'], 'every entry point, every array and struct passed to it, every later call'),
      'A stray write or a kept pointer shows only when the caller looks at or reuses its input later; tests pass temporary vectors and do not compare them afterwards.',
      [API, 'libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp', 'libs/MeshKernelApi/include/MeshKernelApi/State.hpp'], [('conversion of input arrays into library objects', 'libs/MeshKernelApi/include/MeshKernelApi/Utils.hpp')],
      'interprocedural mod/ref analysis and type reachability over the AST', 'Every write below a parameter is traced through all callees and compared with a frozen table of outputs; every class that can outlive a call is searched for raw pointers, views and references to anything but library objects.' + TRUST),
    P('C10', 'Node, edge and point numbers the geometry does not have are refused',
      'A C API call that is given the number of a node or edge of the mesh, or of a point of a polygon or spline (delete, move, merge, insert, split row, linear refinement, snapping, transfinite grids), fails when that number is negative, equal to the count or larger. '
      'It never reads or writes past the end and never reports success for it.',
      q(['inputs'], 'every integer passed as a node, edge or point number to those entry points, every mesh and polygon'),
      'Tests pass numbers that exist; one past the end often lands in allocated memory and looks like success.',
      [API, 'libs/MeshKernel/src/Mesh.cpp', 'libs/MeshKernel/src/Polygon.cpp', 'libs/MeshKernel/src/CurvilinearGrid/CurvilinearGridFromPolygon.cpp', 'libs/MeshKernel/src/SplitRowColumnOfMesh.cpp'],
      [('range checks of node and edge numbers', 'libs/MeshKernel/src/Mesh.cpp')],
      'interprocedural constant propagation of out-of-range numbers over the AST', 'For 22 parameters -1, a number larger than any count and a symbol equal to the count are propagated through the call and every callee that receives them. mkernel_polygon_refine, mkernel_polygon_count_refine and the start of mkernel_polygon_snap_to_landboundary are not covered: their check goes through a search over several polygons.' + TRUST),
    P('C20', 'The binary interface keeps its functions, layouts and published numbers',
      'Every exported function of the C API exists and takes its parameters in the published order and kind, every struct passed across the API has its published field order, sizes and offsets, and every published number (exit codes, projections, locations, averaging methods, deletion, land boundary, refinement and property options, interpolation types) keeps its value. '
      'Callers compiled against the interface, such as the Python and .NET bindings, therefore keep working unchanged.',
      q(['programs', 'inputs'], 'every caller compiled against the published interface'),
      'The tests are recompiled against the headers and name fields and options, so they follow any reordering; a binding that was compiled before does not.',
      ['libs/MeshKernelApi/include/MeshKernelApi', 'libs/MeshKernel/include/MeshKernel/Parameters.hpp', 'libs/MeshKernel/include/MeshKernel/Definitions.hpp'], [('exported functions', 'libs/MeshKernelApi/include/MeshKernelApi/MeshKernel.hpp'), ('parameter structs', 'libs/MeshKernel/include/MeshKernel/Parameters.hpp')],
      'type-level witness (static assertions) and comparison of type-checked signatures', 'All 192 functions, 12 structs and 10 enumerations are compared with a frozen table; added functions, structs and enumerators are not reported, renamed parameters neither.' + TRUST),
    P('C21', 'A refused call leaves the state and its undo history as they were',
      'A C API call that refuses its input (unknown id, invalid argument, a check of the operation it starts) changes neither the geometry and sessions of the state nor the undo history: every check comes before the first change. '
      'A caller may therefore correct the input and repeat the call.',
      q(['inputs', 'histories'], 'every entry point, every input it refuses, every state it is called on'),
      'Tests look at the exit code of a refused call and not at what is left of the state.',
      [API], [('validation and replacement of state geometry', API)],
      'path-sensitive effect-before-refusal analysis with interprocedural mod/ref summaries', 'On every path of every entry point the order of changes (mod/ref summaries of kernel calls) and refusals (throw statements of the API layer, of called kernel functions and constructors in their own body, of pure checking functions they call) is decided. What an operation leaves behind when it fails half way through its own change (numerical failure, out of memory) is not claimed.' + TRUST),
    P('C22', 'Numbers of nodes, edges and faces are never mixed up',
      'Throughout the library a number that identifies a node is only used to index, compare with or count nodes, and likewise for edges, faces, places in a face, places around a node, sides of an edge, contacts, polylines and points of polygons and land boundaries; a table with one entry per node, edge or face is sized and looped over with that count. '
      'Using the number of one kind as another is not possible for any mesh, whatever the proportion of its nodes, edges and faces.',
      q(['inputs'], 'every mesh, every function of the kernel and the API'),
      'Nodes, edges and faces are all plain unsigned integers; a mix-up reads in range on most meshes and only shows when one count exceeds the other.',
      ['libs/MeshKernel/src', 'libs/MeshKernel/include/MeshKernel', API], [('tables of nodes, edges and faces and their neighbours', 'libs/MeshKernel/include/MeshKernel/Mesh.hpp')],
      'unification-based type inference (index kinds as refined types) over the AST', 'Let-polymorphic inference from the declared meaning of the mesh tables: every index, size, comparison, assignment, argument and result is an equation between kinds, and an equation between two different kinds is reported. Numbers whose kind is not determined by any table are unconstrained, virtual calls are not linked, and a local variable may change its meaning by assignment.'),
    P('C25', 'Everything is computed in the projection of its own mesh, grid or state',
      'Every distance, angle, area, inside-test, search tree, polygon, spline, mesh and grid that the library computes or creates for a mesh, grid or state is given the projection of that mesh, grid or state, never a fixed, default or caller-chosen one, and a constructor that is given a projection keeps it. '
      'When a conversion, its undo or redo changes the projection of a mesh, the search trees and the state change with it, and meshes of different projections are not joined, merged or connected by contacts.',
      q(['inputs', 'histories'], 'every state of every projection, every entry point and kernel function that passes a projection on'),
      'Almost all tests are cartesian, where a wrong or missing projection changes nothing.',
      ['libs/MeshKernel/src', 'libs/MeshKernel/include/MeshKernel', API], [('projection of meshes', 'libs/MeshKernel/include/MeshKernel/Mesh.hpp'), ('conversion', 'libs/MeshKernel/include/MeshKernel/MeshConversion.hpp')],
      'provenance (reaching definitions) analysis of projection values and must-follow rules over the AST', 'The origin of each of about 440 projection arguments and 33 stored projections is traced through locals, conditionals and returned values; four places where a planar formula is meant are listed by file and called function with their number. Whether a formula treats its projection rightly is not decided.'),
]


def N(id, title, statement, quant, why, files, mech, reason):
    d = P(id, title, statement, quant, why, files, mech, '', '')
    d['reason'] = reason
    return d


KERNEL = 'libs/MeshKernel/src/'
NA = [
    N('N01', 'A mesh is always topologically valid after an operation',
      'After every operation each valid edge joins two different valid nodes, each face is a closed cycle of its edges, and every edge belongs to at most two faces.',
      q(['inputs', 'histories'], 'every mesh, every sequence of operations'),
      'Tests compare a few results with stored meshes; degenerate configurations are endless.',
      [KERNEL + 'Mesh.cpp', KERNEL + 'Mesh2D.cpp'], [('FindFaces and node administration', KERNEL + 'Mesh2D.cpp')],
      'The shape of the tables depends on floating-point coordinates and on loops over index data whose invariants (cycle closure, counts stored beside lists) no abstract domain at hand expresses; a sound analysis would flag nearly every write.'),
    N('N02', 'Orthogonalisation and smoothing improve the mesh and never fold it',
      'Each orthogonalisation iteration moves inner nodes only, keeps boundary nodes on the boundary, does not fold a cell and ends nearer to orthogonality and smoothness than it began.',
      q(['inputs'], 'every mesh and weight'), 'Tests compare a few meshes to ten digits with stored results.',
      [KERNEL + 'OrthogonalizationAndSmoothing.cpp', KERNEL + 'Smoother.cpp', KERNEL + 'Orthogonalizer.cpp'], [('iteration', KERNEL + 'OrthogonalizationAndSmoothing.cpp')],
      'A statement about convergence of a floating-point iteration; it is neither true for all meshes nor expressible over the source.'),
    N('N03', 'Geometric primitives compute the right values',
      'Distances, areas, circumcentres, intersections, inside tests and projections agree with their mathematical definition to rounding for cartesian and spherical coordinates.',
      q(['inputs'], 'every pair, triangle, segment and polygon'), 'Tests sample values; errors sit at poles, the date line, collinear and nearly coincident points.',
      [KERNEL + 'Operations.cpp', KERNEL + 'Polygon.cpp'], [('Operations', KERNEL + 'Operations.cpp')],
      'Correctness of floating-point formulas is a numerical statement; static analysis of the source gives no oracle for it (that the right projection reaches the formulas is C25).'),
    N('N04', 'Interpolation and refinement respect the samples and sizes asked for',
      'Interpolated values lie between the samples that determine them, and refinement by samples or polygon stops at the requested cell size.',
      q(['inputs'], 'every mesh and sample set'), 'Tests use a handful of sample sets.',
      [KERNEL + 'AveragingInterpolation.cpp', KERNEL + 'TriangulationInterpolation.cpp', KERNEL + 'MeshRefinement.cpp'], [('refinement masks', KERNEL + 'MeshRefinement.cpp')],
      'Quantifies over real values along data-dependent loops.'),
    N('N05', 'Every call ends',
      'Every C API call returns after finitely many steps, for any input it accepts.',
      q(['inputs'], 'every input'), 'A test that hangs is noticed only for the inputs it uses.',
      [KERNEL], [('while loops over mesh connectivity', KERNEL + 'Mesh2D.cpp')],
      'Several loops walk connectivity or iterate numerically until a tolerance is met; ranking functions depend on mesh invariants (N01) and floating-point progress.'),
    N('N06', 'No access is out of bounds for any input',
      'No kernel operation reads or writes outside a container, whatever mesh, polygon, spline or sample set it is given.',
      q(['inputs'], 'every input of every operation'), 'Out-of-bounds reads mostly go unnoticed in tests.',
      [KERNEL], [('tables indexed by node, edge and face numbers', 'libs/MeshKernel/include/MeshKernel/Mesh.hpp')],
      'In general needs the relation between index values stored in tables and sizes of other tables. What a static argument reaches is claimed separately: numbers given by the caller (C10), kinds of numbers and sizes of tables (C22).'),
    N('N07', 'An operation that fails inside the kernel leaves the mesh as it was',
      'When a kernel algorithm gives up half-way with an algorithm error, the mesh and grid are as before the call.',
      q(['inputs', 'fault_sequences'], 'every algorithm, every point at which it can fail'), 'Tests provoke only refusals at the start.',
      [KERNEL], [('algorithms that throw AlgorithmError', KERNEL)],
      'False for the present design: algorithms change the mesh in place and report errors while doing so; whether such an error is reachable depends on the data. Refusals before the first change are claimed as C21.'),
    N('N08', 'Grids from splines follow their splines',
      'Generated curvilinear grids follow the given splines, have the requested number of cells and grow at the requested rates.',
      q(['inputs'], 'every set of splines and parameters'), 'Tests compare stored grids.',
      [KERNEL + 'CurvilinearGrid/CurvilinearGridFromSplines.cpp'], [('front growing', KERNEL + 'CurvilinearGrid/CurvilinearGridFromSplines.cpp')],
      'A numerical statement about the result of an advancing-front algorithm.'),
]
