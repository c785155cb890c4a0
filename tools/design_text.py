"""Prose of DESIGN.md per property: (enumerated and compared how, why beyond the tests)."""

TEXT = {
"C01": (
"Stateless exploration of the real `ParameterSet`/view objects: every history over an alphabet of view creation and every form of write (whole value, list, element, slice, in-place operator, numpy `out=`) through several views with different units and grids. After each history all views (those held, and new ones) and every way of reading a timeseries object obtained *earlier* (index, slice, iteration, numpy, arithmetic, comparison, repr, len) are compared with the reference `mc/refps.py`, which stores one series and converts it with an independent exact conversion (`mc/tsys.py`, rational breakpoints).",
"The tests write once or twice through one or two views; stale caches need particular interleavings of writes through one view and reads through an object obtained from another."),
"C02": (
"All histories of creating, writing and reading the leaves and inner nodes of small parameter trees (and all tree shapes up to the bound), reading through fresh views and through objects held since before; the oracle sums the leaves' data in the reference parameter set. Type and unit assignments of the leaves are enumerated completely for the refusals.",
"Depends on the order of view creation, child creation and writes and on the shape of the tree; tests use one tree of depth two in one order."),
"C03": (
"All access orders (requests as each type, on each name of a chain and of a branching tree, writes, reads) are executed; the reference keeps the documented access state and predicts the exact exception class of every call. At the end every form of write is tried on every parameter with children.",
"A history property; tests try some twenty orders."),
"C04": (
"Differential: for every history of valid operations and every position, each of the rejected calls is inserted; the history with and the one without the rejected call run side by side and every later result (value, error class, info, emptiness, further requests) must be equal. Two closing probes (read first, or extend and re-type first) observe the state.",
"Needs rejected calls at arbitrary points followed by arbitrary probes; the tests only assert that the exception is raised."),
"C05": (
"All ordered pairs (and triples) of (name, region) addresses in every spelling, written and read in every spelling, against a dictionary keyed by the canonical address; information before/after, two sets side by side.",
"Aliasing shows only for particular pairs and spellings."),
"C06": (
"All histories of lock/unlock/write/read over two views (and a read-only parent, and a view not covered by the storage grid) against a reference in which a locked view has a private copy.",
"Tests lock once and unlock once."),
"C07": (
"All pairs of source/target grids over a lattice of instants x basis vectors (conversion is linear in the data, which is itself checked with further patterns) x extrapolation types x directions x time representations; oracle: exact piecewise-linear evaluation with fractions.",
"A statement over all grids; tests use four or five."),
"C08": (
"As C07 for averages; the oracle integrates the mean-preserving curve exactly (rational arithmetic), and the consequences (identity, merging, splitting, constants) are checked separately from the oracle. Long series with a spike at every position, as the implementation integrates numerically.",
"As C07."),
"C09": (
"All combinations of offsets of both target ends relative to the source range x layouts x types x extrapolations, at every entry point (converter both ways, view read and write, frame interpolation); all spellings of type names.",
"Boundary cases (one second) at each entry point; tests use coarse ones on the converter."),
"C10": (
"Every year 1..9999 in every representation and calendar lattices in each representation, singly and in arrays, against Python's proleptic calendar (`mc/ref_time.py`); every day of several years for the calendar fields; all (start, period, length, type) for `create_time_points`; with today's date replaced.",
"Tests sample some dates; limits (pandas' range, leap years, year 1 and 9999, the current day) matter."),
"C11": (
"All ordered pairs over all gas names (documented aliases, upper-case and joint forms) and all non-gas units; oracle: factors transcribed from the documented definitions (exact fractions), not from the registry. Inverse, scalar/array agreement and composition follow from equality with the affine reference.",
"Hundreds of thousands of pairs; tests check some dozens."),
"C12": (
"Every gas x metric x form x direction, against the table read with the csv module; refusals without/with wrong contexts; all histories of conversions from a freshly imported module (forked) and in a running one, checking that no context leaks.",
"History property of a global registry, and a table of which tests sample a few cells."),
"C13": (
"All configurations within the bounds are run and every output compared with an independent transcription of the DICE recurrences (`mc/dice_ref.py`).",
"Tests compare one configuration with the original output."),
"C14": (
"All histories of run/reset/step/change over one and two models (interleaved, sharing input or output sets or nothing), against the DICE reference run on the inputs current at the last reset; failing runs are inserted at every position.",
"History and isolation property."),
"C15": (
"Fault injection: all histories of the adapter's public calls, with an exception injected at every (pair of) hook call(s); the trace of hook calls is compared with the reference automaton. All histories of loading.",
"Fault positions; tests run one good sequence."),
"C16": (
"All operation sequences on frames against a reference model that is just a list of (metadata dict, {time: value}); after each step every accessor of the frame *and of all its ancestors* is compared.",
"Sequences of operations; tests apply one operation to one frame."),
"C17": (
"Every call of a catalogue (all operations, constructors and accessors, valid and failing) on every frame: not in place, in place, with everything else (source, result, arguments) mutated afterwards; deep fingerprints before and after.",
"Aliasing and failure atomicity need every call x every mutation."),
"C18": (
"All patterns over a small alphabet against all metadata over a small alphabet (oracle: a direct recursive wildcard matcher), all levels, all calendar selectors over a lattice of times (oracle: datetime fields), all combinations and orders of criteria.",
"Regular-expression metacharacters, complement and order of criteria over all combinations."),
"C19": (
"All pairs/triples of frames over a 2x2 universe of (series, time) cells with all combinations of extra columns, in every order and way of appending; oracle: dictionary of lists of values.",
"Every overlap pattern; tests use one or two."),
"C20": (
"The same content is rendered in every layout, time representation and row/column order and constructed; the result must be the content. All sets of missing columns.",
"All permutations; tests use one per format."),
"C21": (
"All small frames and all small parameter sets (creation orders included) converted in both directions; oracle: `mc/refps.py`/`mc/tsys.py`.",
"Combinations of types, regions, nested names and grids."),
"C22": (
"All small frames over a set of series x grids x targets x extrapolations; oracle: conversion of each series alone by the reference; type guessing from an independently written table of names and dimensions.",
"Interaction of series within a frame."),
"C23": (
"All rules x starts x spans x eras; oracle: `mc/offsets_ref.py`, which decides for every day whether it is on the rule by the calendar and takes the days between.",
"All rules and eras beyond pandas' limits; tests use a few rules."),
"C24": (
"All small frames x targets x contexts x filters and sequences of conversions, against per-series factors (`mc/frames.py`).",
"Combination of units, filters and prior unit_context."),
"C25": (
"All small frames (with gaps and missing metadata) x sets of columns x statistics, against a dictionary-of-groups reference.",
"Interaction of missing data, groups and order."),
"C26": (
"All small sets of times, missing-value patterns, texts and values and sequences of conversions through CSV and pyam, compared with the original content.",
"Particular texts, times beyond pandas' limits, repeated round trips."),
"C27": (
"Frames reached by all short sequences of operations; export, pivot tables for all choices of rows and columns, and the lines of plots compared with tables computed from the reference frame.",
"Combinations of rows, columns, aggregates and history; the tests never look into tables or plots."),
}
