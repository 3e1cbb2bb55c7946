RULES = {
    'C01': ('c01_containment', 'escape analysis of exceptions over every C API entry point (path-sensitive, API layer inlined) and over noexcept functions, destructors and parallel regions'),
    'C02': ('c02_exitcode', 'path-sensitive status analysis: every return after a caught exception yields a non-zero code, every other return the success code set by this call'),
    'C03': ('c03_taxonomy', 'every kind of exception is pushed abstractly, type by type, through the handlers of every API function; codes, getters, message buffer bounds and message placeholders are compared'),
    'C04': ('c04_isolation', 'path-sensitive guard analysis: every access to the state map is dominated by an existence test of the id the caller passed; unknown ids never reach a success return; the set of states changes only in allocate, expunge and clear'),
    'C05': ('c05_sessions', 'null-state dataflow on the pointers of a state: geometry pointers are set by the constructor and never written null; session pointers are dereferenced only after a successful test or creation on that path'),
    'C06': ('c06_recorded', 'path-sensitive effect analysis: calls into the kernel are replaced by interprocedural mod/ref summaries; every path that changes the geometry of a state and succeeds records an undo action under the id of that state, and dropping a state drops its history'),
    'C07': ('c07_snapshot', 'undo coverage: each change on a successful path is matched with a recorded action that was taken of that object before the change or returned by the changing call; the snapshot action restores every geometry pointer'),
    'C08': ('c08_queries', 'path-sensitive effect analysis with interprocedural mod/ref summaries: no path of an information-only entry point writes the geometry of a state, replaces a pointer of it, records an undo action or advances the id counter; the normalisation steps they may trigger only mark nodes and edges invalid'),
    'C15': ('c15_parallel', 'access analysis of every parallel loop with all callees inlined: each shared element that any iteration changes is addressed only through the index of its own iteration (affine or through a growing offset table), thread-private variables are reset before use'),
    'C16': ('c16_determinism', 'whole-program effect analysis: no library function changes a variable that outlives a call except the states, the history and the status and error variables, and those feed no computation; no call of clocks, random sources, environment, console, files or process control'),
    'C23': ('c23_copies', 'field-completeness analysis of every user-written copy and move operation: each data field (search structures and their flags excepted) receives the value of the same field of the source'),
    'C24': ('c24_initialised', 'definite-assignment analysis of every local declared without a value (with summaries of callees that fill it in) and of every plain field in every constructor'),
    'C14': ('c14_index', 'flag/content typestate analysis: per object and search tree a composed transfer function over (flag set, tree fresh, consistent, stale); every change of content marks each dependent tree on every path, every search follows a rebuild'),
    'C13': ('c13_stack', 'effect analysis of the undo history: every path of every method is reduced to what it does to the ends of the two lists (append, take last, drop oldest, filter by id) and to the actions it runs, and compared with the stack discipline; state machine of an action; API functions that step the history'),
    'C12': ('c12_inverse', 'undo actions are inverse'),
    'C11': ('c11_kept', 'kernel undo actions are kept'),
    'C09': ('c09_outputs', 'path-sensitive must-write analysis of every C API function: each output parameter and output field (frozen table, agreed with the header documentation) is written on every path that reports success'),
    'C19': ('c19_caller', 'interprocedural mod/ref summaries of every C API function: the caller memory written is exactly its outputs (frozen table); reachability over field types: no object that outlives a call holds a raw pointer, view or reference to anything but library objects'),
    'C17': ('c17_parameters', 'constant propagation of boundary values: each field of each parameter struct is set to the values just outside (and just inside) its range and propagated through the call and every callee that receives the struct; outside values must not reach a success return, inside values must'),
    'C18': ('c18_options', 'constant propagation of option numbers: numbers outside the option list are propagated through the call, the casts to enumerations and every callee and object that receives them, and must not reach a success return; listed numbers must'),
    'C10': ('c10_indices', 'constant propagation of numbers outside the range: -1, a number far past the end and (as a symbol equal to the count) the first number past the end are propagated through the call and every callee that receives them, and must not reach a success return'),
    'C20': ('c20_abi', 'type-checked witness of static assertions on struct layouts and published numbers, plus comparison of the type-checked signatures of all exported functions and of the constants the getters hand out, against a frozen table'),
    'C21': ('c21_refused', 'path-sensitive order analysis: effects (mod/ref summaries) and refusals (explicit throws of the API layer, of called kernel functions and of their checking functions) on every path of every C API function; no refusal follows a change or a record'),
    'C22': ('c22_kinds', 'unification-based inference of index kinds (node, edge, face, place in a face, place around a node, ...) over every integer, container and call of the type-checked program'),
    'C25': ('c25_projection', 'provenance of every projection value, and structural must-follow rules for changes of a projection'),
}
