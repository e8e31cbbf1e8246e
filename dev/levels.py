"""Technique, level and note of each built check; reasons for the properties that are not claimed."""

COMMON = ('Decided on the type-checked clang AST of every library header, library source and binding source (module/main.cpp, which '
          'only assembles submodules, excepted), template instantiations included. Trusted: clang\'s AST, the documented behaviour of '
          'the standard library, Eigen, Boost and pybind11, and the engine of /verif/vp. ')

CHECKS = {
    'P01': ('static dataflow on the clang AST: exception flow through thread workers and their callers', 'other', COMMON +
            'Every worker passed to the dispatcher or to std::thread is found through the call graph; every potentially throwing '
            'operation in it, every handler and every normal exit of its caller is an obligation.'),
    'P02': ('static effect analysis on the clang AST: ownership of every location a worker writes or reads', 'other', COMMON +
            'Index ownership is decided by value numbering against the block bounds given to the worker; distinct memory of '
            'library containers is taken to be distinct elements.'),
    'P03': ('static dataflow on the clang AST: recurrences of the block bounds and loop coverage in each worker', 'other', COMMON +
            'The block recurrences of the dispatcher and of every other thread-starting loop, and the loop of every worker, are '
            'checked by value numbering; no bound on size or thread count.'),
    'P04': ('static reachability on the clang AST: Python operations reachable while the GIL is released', 'other', COMMON +
            'Scopes without the GIL are gil_scoped_release objects, bindings with a call_guard and thread workers; everything '
            'reachable from them through the call graph (virtual overriders included) is searched.'),
    'P05': ('static dataflow on the clang AST: index bounds against array extents under path facts', 'other', COMMON +
            'Every bound function is analysed from its arguments; each index into an argument or a new result that is bounded by '
            'the extent of another array needs an equality of extents established by the branches taken before. Indices bounded '
            'by quantities that are not extents (search results, counters) are outside the property.'),
    'P06': ('static dataflow on the clang AST: typestate of lookup results, and linear ranges of the positions searches return', 'other', COMMON +
            'Each dereference of an optional, iterator or first/last element and each index made from a search result needs a test of '
            'that result on the path; positions returned by the axis searches are proved inside the axis with linear integer facts. '
            'Indices that come neither from a lookup nor from an axis are outside the property.'),
    'P07': ('static dataflow on the clang AST: case analysis of the outcomes of the lookups at every result and error', 'other', COMMON +
            'At each store of a result, each error and each return of the interpolators, every combination of succeeded and failed '
            'lookups (and of bounds_error) that the branch facts allow is a case; the value in a failed case must be NaN, the error '
            'must name a failed axis. NaN produced by the arithmetic of valid lookups is outside this check.'),
    'P08': ('static dataflow on the clang AST: axis of every coordinate, position and dimension; corner identity of the kernels', 'other', COMMON +
            'Each term is typed by the axes it comes from (arguments named x, y, z, u in the interface, axis fields, axis lengths, arrays '
            'filled from them) and every search, index, point, blend and window copy is an obligation. The kernels are compared with '
            'the corner values by exact rational normal forms; rounding is outside the property.'),
    'P10': ('static provenance analysis on the clang AST: correspondence between the slots saved and the fields restored', 'other', COMMON +
            'The functions given to py::pickle are evaluated symbolically over sources (fields of the object, slots of the state) with '
            'calls inlined; slots, types, stream layouts and Python __getstate__/__setstate__ pairs are compared. A value computed '
            'from the right field (a size, a position) counts as that field: its arithmetic is not verified.'),
    'P12': ('static dataflow on the clang AST: branch facts at every accumulation of an observation', 'other', COMMON +
            'At each call of an accumulator with a value read from the arguments of a bound function: the NaN test of that value, '
            'the other conditions on the path, the positions read together and the loop over the observations are obligations. '
            'The arithmetic of the accumulators and the choice of the bin are outside this check.'),
    'P13': ('static conditional constant propagation on the clang AST and the Python AST: what each option value reaches', 'other', COMMON +
            'Each function that compares an expression with enumerators or texts is evaluated abstractly for each value; what only that '
            'value reaches must bear its name, a text outside the options must always end in a throw, and names documented, accepted '
            'by the wrappers, registered by the module and handled by the core must agree. Names are compared word by word; the '
            'formula behind a name is outside this check.'),
    'P11': ('static dataflow on the clang AST: case analysis of every merge operator; alias analysis of the Python operators', 'other', COMMON +
            'For every merge: which cells are combined with which, under which emptiness conditions (amounts 0, 1, 2, 3, 10 and 1000 on '
            'each side), what has been compared before the first change, and what is read after it has been changed when both operands '
            'are one object. Moments are compared as exact rational functions; rounding is outside the property.'),
    'P17': ('static exception-flow analysis on the clang AST and on the Python syntax trees', 'other', COMMON +
            'Every throw, every handler, every function that promises not to throw and every Python error set by hand is an '
            'obligation: thrown types derive from std::exception and carry a message, no handler ends a failure without '
            'reporting it, no exception reaches a noexcept function or destructor. The Python layer: raise and except statements.'),
    'P18': ('static dataflow on the clang AST: seeds, comparisons and updates of every running extremum', 'other', COMMON +
            'An assignment is the update of an extremum when it replaces a value by one that has been compared with it. Infinite data '
            'are outside the property.'),
    'P21': ('static dataflow on the clang AST with linear integer arithmetic over the facts of each path; the codec read as a function of its pass', 'other', COMMON +
            'Every geohash entry point is read with the calls it makes. Assumed: std::find and strnlen stay in their range, the strings of a '
            'numpy array have at least one byte. The number of codes of an array (as opposed to their length and spacing) is not decided.'),
    'P23': ('static dataflow on the clang AST: facts established on every way out of constructors and restorations', 'other', COMMON +
            'Every constructor of a class with axes and values, every setstate and every constructor of an axis is read with the '
            'calls it makes; on each way out without an error, the facts of the path must contain the equality of each extent with '
            'the size of its axis. Containers restored from a saved state are not tested again for the order of their points.'),
    'P24': ('static three-valued evaluation of comparisons, and value numbering of copied and cleared members, on the clang AST', 'other', COMMON +
            'Every ==, !=, copy and clear of the core and of its bindings is read with the calls it makes; each is evaluated for equal '
            'objects and for objects that differ by one member, every member that takes values from outside in turn. What '
            'boost::geometry::equals compares is taken to be the whole geometry; copies that share data by design (R-trees, axes of '
            'grids) are outside the property. The Python comparisons of Period are read from their syntax tree.'),
    'P25': ('static symbolic normal forms on the clang AST: inductive equality of rational functions', 'other', COMMON +
            'Each accumulated quantity after an observation or a merge is a rational function of the state before; it is compared '
            'exactly with the quantity of the pooled observations, which proves by induction every history. Arithmetic is exact: '
            'rounding and overflow are outside the property.'),
}

NA = {
    'N01': 'the values are floating-point results for arbitrary data: no static argument over the source bounds the rounding and '
           'formula correctness of the interpolation kernels',
    'N03': 'accuracy of the conversion is a numerical-analysis statement about an iterative closed form, not decidable from dataflow',
    'N04': 'containment of the point in its cell depends on bit-exact floating-point scaling, which no static rule in reach decides',
    'N05': 'nearest-neighbour correctness is established inside Boost.Geometry from runtime distances',
    'N06': 'the algebra of period lists quantifies over runtime orderings of dates in lists of any length; the loops need inductive '
           'invariants that this family does not produce',
    'N07': 'quantile bounds are numerical and depend on the history of merges',
    'N08': 'convergence and residual are numerical facts about an iteration on runtime data',
}
