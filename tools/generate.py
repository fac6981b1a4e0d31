"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
I, H, F, C, S = 'inputs', 'histories', 'fault_sequences', 'configurations', 'schedules'


def p(id, title, statement, over, text, why, mech, technique, note, observe=(), state=()):
    files = []
    for _, where in mech:
        f = where.split(':')[0]
        if f not in files:
            files.append(f)
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors=dict(files=files, mechanism=[{'name': n, 'where': w} for n, w in mech],
                             state=[{'name': n, 'meaning': m, 'where': w} for n, m, w in state], observe_at=list(observe), hook_needed=None)), technique, note


ENUM = 'explicit enumeration of every case in the bound on the real code, judged by an independent reference'
BFS = 'breadth-first exploration of the real implementation with state merging, against a reference model'
HIST = 'all operation histories up to a depth, executed on a reference model and on the real code in lockstep'
SCHED = 'all thread schedules of the real code with a bounded number of preemptions, under a controlled scheduler'
INDEP = 'The reference (mc/ref.py) computes with Python lists and nested indexing only and shares no code with the package.'

P = [
 p('C01', 'Slice reduction and slice length agree with Python on every axis size',
   'Reducing a slice for an axis of size n gives a slice with plain integer start, stop and step that selects the same positions in the same order as '
   'Python\'s own slicing of a sequence of length n; reducing an already reduced slice changes nothing. The number of items that is computed for a slice, '
   'whether it was reduced before or not, is the length of that selection.',
   [I], 'every slice (start, stop, step present or not, any sign, beyond the ends, any non-zero step, huge values) and every axis size, also 0',
   'The tests take sizes up to a few and a handful of slices; the cases that break are corners of start, stop, step and size together.',
   [('reduced', SL + ':reduced'), ('nitems', SL + ':nitems')], ENUM,
   'Exhaustive for sizes up to 7 (thorough 13) and all start/stop/step near the ends; boundary values for large sizes. ' + INDEP),
 p('C02', 'Index arithmetic on strided layouts addresses what Python indexing addresses',
   'Applying an index (integers, slices, None, fewer items than dimensions) to a layout of shape, strides and offset gives a layout, and the memory positions of its '
   'elements are those of the elements which nested Python indexing selects, in the same order. Applying two indices one after the other gives the same positions '
   'as indexing twice, and no index yields a position outside the memory of the given layout.',
   [I, H], 'every layout and every index, one or two in sequence',
   'The tests compare some shapes with some slices; layouts with negative or permuted strides and offsets that earlier slicing left behind are not reached.',
   [('index_strided', SL + ':index_strided'), ('apply_slices', SL + ':apply_slices'), ('shape_strided', SL + ':shape_strided'), ('normalize_index', SL + ':normalize_index')],
   ENUM, 'Exhaustive within the bound on dimensions and sizes. ' + INDEP),
 p('C03', 'A memory position maps back to the right element of a strided view, or to none',
   'For a view that slicing reaches, asking which element lies at a memory position gives the index of that element if the view contains the position, and says that there is none otherwise. '
   'This holds for every position, also ones between, before and after the elements, and for views of any number of dimensions, also 0.',
   [I], 'every view reachable by slicing and every position',
   'The tests invert some views at positions that are inside; the answer "none" and views with mixed signs of strides need a search.',
   [('solve_index', SL + ':solve_index'), ('init_diophantine', SL + ':init_diophantine')], ENUM,
   'Exhaustive for the views reachable by slicing within the bound; a table of positions made by enumeration of the indices is the oracle. ' + INDEP),
 p('C04', 'Integer solutions of linear equations are sound and complete',
   'Solving a linear equation with non-zero integer coefficients gives a particular solution and a basis such that every integer combination solves the equation, and every integer '
   'solution is such a combination; it reports that there is no solution exactly when there is none.',
   [I], 'every vector of non-zero integer coefficients and every right-hand side',
   'The tests verify that returned values solve the equation for some vectors; that no solution is missed is a statement about all of them.',
   [('diophantine', SL + ':diophantine'), ('_init_diophantine', SL + ':_init_diophantine'), ('extgcd', SL + ':extgcd')], ENUM,
   'Exhaustive in a box of coefficients; completeness is decided by the minors of the basis and by expanding all solutions in a box.'),
 p('C05', 'Reduction and promotion of indices follow the documented formula, are inverse',
   'For every shape, permutation of its dimensions and partitioning, the reduced shape and the reduced index of every element are those of the documented formula, '
   'reduction is a bijection between the elements of the array and of the reduced array, and promotion is its inverse.',
   [I, C], 'all shapes, permutations of dimensions, partitionings and element indices',
   'The tests contain a few permutations of small shapes; a wrong stride shows only for particular permutations with unequal sizes.',
   [('create_reduction_metadata', GB + ':create_reduction_metadata'), ('reduction', GB + ':reduction'), ('promotion', GB + ':promotion')],
   ENUM, 'Exhaustive for shapes within the bound; the formula of the introduction is implemented independently with lists.'),
 p('C06', 'Compression of sorted row indices gives the row boundaries and loses nothing',
   'Compressing a sorted list of row indices for a number of rows gives a list with one more item than rows, whose k-th item is the number of indices that are less than k; '
   'uncompressing it gives the list of indices back. The input is not changed and may be any sequence of the package or of Python.',
   [I], 'every sorted index list (with empty rows at the start, the end, between) and every number of rows',
   'The tests compress one or two lists; empty leading, trailing and consecutive rows in combination are inputs to enumerate.',
   [('compress_indices', ST + ':compress_indices'), ('uncompress_indices', ST + ':uncompress_indices'), ('compress_indices', GB + ':compress_indices')],
   ENUM, 'Exhaustive for list lengths and numbers of rows in the bound.'),
 p('C07', 'Every format holds exactly the sequence that it was made from',
   'An array made from a nested sequence, in any storage format and any dimension mapping, reads at every index the element that the sequence has there, and the placeholder where it has '
   'no element specified. This holds for any placeholder, for falsy elements such as 0, and the given sequence is neither changed nor shared. With a smaller shape given it holds the leading part.',
   [I, C], 'every pattern of specified and unspecified elements, every shape, format, permutation, partitioning and placeholder',
   'The tests build several fixed matrices; patterns such as empty rows, first or last elements only, falsy values, and combinations with mappings are not sampled.',
   [('fromobject of the formats', ST + ':Buffer.fromobject'), ('COO.fromobject', ST + ':COO.fromobject'), ('FlatCOO.fromobject', ST + ':FlatCOO.fromobject'),
    ('CSR.fromobject', ST + ':CSR.fromobject'), ('DM.fromobject', ST + ':DM.fromobject'), ('get_unspecified', ST + ':get_unspecified')],
   ENUM, 'Every subset of specified cells up to the bound of cells. ' + INDEP),
 p('C08', 'Conversions between formats keep every element',
   'Converting an array, fresh or a slice or itself a result of conversions, to any other format or dimension mapping gives an array of that format with the same shape and the same elements at the same places; '
   'unspecified positions read the placeholder, or the new one when another is asked for. The source reads the same as before.',
   [H, C, I], 'every chain of conversions, from every format, mapping and slice, with and without a change of placeholder',
   'The tests convert fresh arrays once; chains through several formats, starting at slices with offsets or negative strides, are histories.',
   [('as_* conversions', ST + ':Storage.as_COO'), ('fromobject of the target formats', ST + ':COO.fromobject'), ('as_DM', ST + ':Storage.as_DM'), ('elements', ST + ':Storage.elements')],
   BFS, 'The conversion graph is explored breadth first on the real arrays; states with the same storage are merged. ' + INDEP),
 p('C09', 'Slicing any format gives the elements that nested Python slicing gives',
   'Indexing an array with integers and slices, in any storage format and any dimension mapping, gives an array whose shape and elements are those that the same indexing of the nested sequence gives, or the element when all items are integers. '
   'This includes negative steps, empty selections, axes of size 0 and 1, None as whole axis, and indices with fewer items than dimensions.',
   [I, C], 'every index of every array in every format and dimension mapping',
   'The tests slice a few matrices; the code takes different paths by stride signs, by pattern of specified elements and by which mapped dimensions are fixed.',
   [('Storage.__getitem__', ST + ':Storage.__getitem__'), ('get_slice of the formats', ST + ':COO.get_slice'), ('CSR.get_slice', ST + ':CSR.get_slice'),
    ('DM.__getitem__', ST + ':DM.__getitem__'), ('slice_indices_and_data_position', ST + ':Storage.slice_indices_and_data_position'), ('make_reduction', ST + ':make_reduction')],
   ENUM, 'All indices of a per-axis menu that has one slice for every distinct selection. ' + INDEP),
 p('C10', 'Slices of slices compose',
   'An array reached by any sequence of slicing operations reads at every index the element that the same sequence of slicing of the nested sequence gives, in every format and dimension mapping.',
   [H, C], 'every sequence of slicing operations of any length, from every format and mapping',
   'The tests slice once or twice; offsets and strides accumulate along a chain, and errors need a prefix that leaves them non-trivial.',
   [('Storage.__getitem__', ST + ':Storage.__getitem__'), ('DM.__getitem__', ST + ':DM.__getitem__'), ('index_strided', SL + ':index_strided'), ('Strided.get_slice', ST + ':Strided.get_slice')],
   BFS, 'Breadth-first search that closes (no new array appears) for small shapes; bounded chains for larger ones. ' + INDEP,
   state=[('strides and offset of a view', 'where the elements of a slice lie', ST + ':Strided'), ('roffset of a mapping', 'what fixed dimensions add to the reduced index', ST + ':DM')]),
 p('C11', 'Assignment changes exactly the addressed elements, to the given values',
   'Assigning to an index or a slice, directly or through a slice, makes every addressed specified element read the value that was given for it and leaves all other elements as they were. '
   'The set of specified elements of a sparse array never changes by assignment, whatever the value. The value may be a nested sequence, an array of any format, or overlap the array that is assigned.',
   [I, H, C], 'every index, value form and pattern, in every format and mapping and through slices',
   'The tests assign single elements and few slices; that nothing else changes needs a complete read after every assignment.',
   [('Storage.__setitem__', ST + ':Storage.__setitem__'), ('Buffer.__setitem__', ST + ':Buffer.__setitem__'), ('get_data_position', ST + ':COO.get_data_position'),
    ('get_coo_position', ST + ':get_coo_position'), ('get_csr_position', ST + ':get_csr_position')],
   ENUM, 'After every assignment every element of the array and of its source is read. ' + INDEP),
 p('C12', 'Views share elements with their source, copies and conversions do not',
   'Along every history of slicing, conversion, copying and assignment, an assignment through one array is seen by exactly those arrays that share the element: slices of dense arrays and slices of dimension mappings that fix no whole '
   'group of dimensions are views of their source, slices of sparse storages, copies and conversions to other formats are independent. Nothing else ever changes.',
   [H, C], 'all interleavings of slicing, conversion, copy and assignment on any of the arrays that exist',
   'The tests check single assignments; sharing is a relation among all arrays that a history has produced.',
   [('get_slice', ST + ':Strided.get_slice'), ('Buffer.__getitem__', ST + ':Buffer.__getitem__'), ('DM.__getitem__', ST + ':DM.__getitem__'), ('copy', ST + ':Storage.copy'), ('as_* conversions', ST + ':Storage.as_Strided')],
   HIST, 'A model with shared cells is run in lockstep with the implementation; all arrays are read completely after every operation. ' + INDEP),
 p('C13', 'A copy is equal, independent and has the requested placeholder',
   'A copy has the same format, shape and specified elements as the array, fresh or a slice or a copy, and unspecified positions read the old placeholder, or the new one if one is given. '
   'No later assignment to either side changes the other.',
   [I, H, C], 'every array reachable by slicing and copying, every old and new placeholder, every later assignment',
   'The tests copy a few arrays without writing to both sides afterwards or changing the placeholder of slices.',
   [('Storage.copy', ST + ':Storage.copy'), ('Buffer.copy', ST + ':Buffer.copy'), ('Strided.copy', ST + ':Strided.copy')], ENUM,
   'Each copy is followed by an assignment to every element of either side. ' + INDEP),
 p('C14', 'Sparse arrays are canonical: sorted, unique, complete, consistent row pointers',
   'However a sparse array was made (from a sequence, by conversion, by slicing, within a dimension mapping), it lists every specified element exactly once in row-major order and no unspecified one, with as many values as coordinates. '
   'In compressed rows the row pointers start at 0, never decrease, end at the number of values and delimit the columns of each row in increasing order.',
   [I, H, C], 'every pattern of specified elements and every way to make a sparse array',
   'Reads can be right while the layout is not; other code relies on the order. The tests compare a few layouts literally.',
   [('COO.get_slice', ST + ':COO.get_slice'), ('FlatCOO.get_slice', ST + ':FlatCOO.get_slice'), ('CSR.get_slice', ST + ':CSR.get_slice'), ('slice_indices_and_data_position', ST + ':Storage.slice_indices_and_data_position'),
    ('CSR.fromobject', ST + ':CSR.fromobject')], ENUM, 'All patterns up to the bound of cells. ' + INDEP,
   state=[('indices, findices, crow_indices, col_indices, data', 'the stored layout', ST + ':CSR')]),
 p('C15', 'Enumeration, counts, fullness and length agree with the elements',
   'Listing the elements of an array yields each specified element once, in row-major order, with the index and value that reading gives; the size is their number, the array is full exactly when all positions are specified, '
   'an element that is specified stays so when the placeholder is assigned to it, the length is the size of the first axis, and iteration yields the items that indexing with 0, 1, 2... gives. This holds for fresh arrays and for slices of every format.',
   [I, C], 'every pattern of specified elements, shape, format, mapping and slice',
   'The tests look at the size and the listing of few arrays; views and mappings compute them differently.',
   [('elements', ST + ':Storage.elements'), ('indices_and_data_position', ST + ':Storage.indices_and_data_position'), ('DM.size', ST + ':DM.size'), ('is_full', ST + ':Storage.is_full')],
   ENUM, 'All patterns up to 6 cells, and slices. Dense formats and mappings may list all positions. ' + INDEP),
 p('C16', 'Comparison tells equal arrays from different ones',
   'Arrays of one format that were made equally compare equal with == and arrays with different shape or elements do not; != is the opposite of ==. Element-wise equality holds for two arrays of any formats '
   'with the same shape and placeholder exactly when all elements are equal, no matter which positions are stored.',
   [I, C], 'all pairs of small arrays in all pairs of formats, all pairs of slices',
   'The tests compare equal arrays; false positives need pairs that differ in one element, one stride or one stored position.',
   [('equal', ST + ':Storage.equal'), ('__eq__', ST + ':Storage.__eq__'), ('Strided.__eq__', ST + ':Strided.__eq__'), ('Buffer.__eq__', ST + ':Buffer.__eq__')],
   ENUM, 'All pairs over a three-valued alphabet up to 4 cells. ' + INDEP),
 p('C17', 'A window of a buffer reads and writes the underlying data at its place',
   'Slicing a buffer gives a window whose size is the length of the slice of the data and whose items are those of the data, for any nesting of windows; a write through a window changes exactly that item of the data and is seen by all windows. '
   'A slice that reaches outside of the data raises IndexError.',
   [H, I], 'every nesting of windows over data of every length, every read and write',
   'The tests cut one or two windows; offsets add up over windows of windows, at the end and of size zero.',
   [('Buffer.__getitem__', ST + ':Buffer.__getitem__'), ('Buffer.__setitem__', ST + ':Buffer.__setitem__'), ('_get_complete_index', ST + ':Buffer._get_complete_index')],
   BFS, 'Search over windows of windows until no new window appears.'),
 p('C18', 'A dimension mapping stores the documented reduced array',
   'The storage of a dimension mapping holds, at the reduced index of every element, that element, for every permutation, partitioning and storage format; the reduced shape is the documented one. '
   'Writing through the mapping shows in the storage at that place, and the reverse.',
   [I, C], 'all permutations, partitionings and storages of all shapes',
   'The tests show several 2-D and 3-D mappings; the layout is a promise for every permutation and partitioning.',
   [('DM.fromobject', ST + ':DM.fromobject'), ('make_reduction', ST + ':make_reduction'), ('reduce_index', ST + ':reduce_index'), ('promote_index', ST + ':promote_index')],
   ENUM, 'All permutations and partitionings up to 4 dimensions. ' + INDEP),
 p('C19', 'Concurrent queries and open iterations do not disturb each other',
   'Threads that query arrays at the same time (reading, slicing, converting, copying, listing, comparing, printing), the same array or different ones, get the answers that they get alone, and nothing changes. '
   'Several open iterations over arrays may be advanced in any order, abandoned and mixed with queries, and each yields what it yields alone.',
   [S, H], 'every interleaving of two threads, every merge of the steps of two iterations',
   'The tests are sequential; shared scratch state or caches break only when a switch falls between certain two steps.',
   [('elements', ST + ':Storage.elements'), ('Storage.__getitem__', ST + ':Storage.__getitem__'), ('init_diophantine', SL + ':init_diophantine'), ('DM.__getitem__', ST + ':DM.__getitem__')],
   SCHED, 'All schedules with one preemption (thorough: at every bytecode and with two for small queries), executed on the real code; a switch is tried at every source line of the package.'),
 p('C20', 'The version tells exactly which commit of which history is running',
   'In a git checkout the version is the closest version tag reachable from the current commit, followed by the number of commits since and the abbreviated revision unless the commit is tagged and unchanged, and marked dirty exactly when tracked files differ from the commit; the full revision and date are those of the commit. '
   'Without version tags it counts all commits. The tree exported by git archive reports a version tag of that commit, or unknown with the full revision; installer and run-time module agree.',
   [H], 'every history of commits, tags, branches, merges, checkouts and changes of files',
   'No test touches the version machinery; it depends on the history of the repository.',
   [('git_pieces_from_vcs', VE + ':git_pieces_from_vcs'), ('render_pep440', VE + ':render_pep440'), ('git_versions_from_keywords', VE + ':git_versions_from_keywords'), ('get_versions', VE + ':get_versions'),
    ('versioneer.get_versions', VZ + ':get_versions')],
   'breadth-first enumeration of an abstract model of git histories, each history replayed on a real repository with the code under test',
   'All histories up to the depth; the expected version is computed from the model\'s commit graph. Trusts git and tar.'),
 p('C21', 'Version fallbacks: archives, rendering styles, and failing or missing git',
   'From expanded archive keywords the version is one of the version tags listed there, or unknown when there is none, and from tag, distance, revision and dirty state each rendering style gives the documented text. '
   'Whatever git does (missing, not executable, failing at any call), without repository or with one without commits, importing the package works and the version is either the right one or unknown with an error told. Where a prefix of directory names is configured, a tree without repository has the version that its directory, or one of the two above, tells. '
   'A version file that the installer writes reports what was written.',
   [F, I, C], 'every failing git call in every way, every combination of refs, every state in every style',
   'No test touches these paths; they run where git is not available or broken.',
   [('get_versions', VE + ':get_versions'), ('run_command', VE + ':run_command'), ('render', VE + ':render'), ('git_versions_from_keywords', VE + ':git_versions_from_keywords'), ('versions_from_file', VZ + ':versions_from_file'),
    ('write_to_version_file', VZ + ':write_to_version_file'), ('LONG_VERSION_PY', VZ + ':LONG_VERSION_PY')],
   'enumeration of every failing call of a fault injector (a git that fails at its k-th call) and of all keyword and render states, on the real code',
   'The run-time module, the installer and the module that the installer generates are all driven. Trusts git.'),
 p('C22', 'Indices out of range raise, negative ones count from the end, iteration ends',
   'Reading or assigning an element with an integer outside -n..n-1 in any axis raises IndexError and changes nothing, in every format and mapping and for slices of arrays; a negative integer within the range addresses the same element as in Python. '
   'Iterating over an array visits its items along the first axis once and ends. Buffers address integers relative to their window and are included for positions of the window.',
   [I, C], 'every integer in every axis, alone or mixed with slices, for reads and writes',
   'The tests read valid indices; a wrapped index silently gives another element.',
   [('normalize_int', SL + ':normalize_int'), ('is_element_index', ST + ':is_element_index'), ('Storage.__getitem__', ST + ':Storage.__getitem__'), ('Storage.__setitem__', ST + ':Storage.__setitem__')],
   ENUM, 'All integer tuples of a box around the shape. ' + INDEP),
 p('C23', 'A failing operation leaves every array as it was, and can be repeated',
   'When an operation fails (the assigned value raises when it is read, is too short or too flat, stored data raise when they are read, or an element raises when it is compared or printed), all arrays involved read as before the operation; '
   'an assignment takes effect completely or not at all. Repeating the operation after the cause is gone gives the result that it gives without failure.',
   [F, C], 'a failure at every single access that the operation makes, for every operation, format and mapping',
   'The tests contain no failing assigned values; atomicity is a statement about every point at which the operation can stop.',
   [('Storage.__setitem__', ST + ':Storage.__setitem__'), ('Buffer.__setitem__', ST + ':Buffer.__setitem__'), ('get_value', ST + ':get_value')],
   'fault injection at every access of every operation of the real code, judged by complete reads against a reference',
   'Every access of the value and of the stored data is a fault point. ' + INDEP),
 p('C24', 'The text of an array shows its elements, never fails and never changes it',
   'The string and the representation of every array, fresh or a slice, can be made without error and do not change the array. The text of dense one- and two-dimensional arrays shows exactly the elements that reading gives, in order, long rows shortened in the middle; '
   'the representation of a buffer shows the items of its window.',
   [I, C], 'every array and slice in every format, many sizes of arrays and elements',
   'The tests print one array; layout depends on widths and counts, and slices on offsets.',
   [('__str__', ST + ':Storage.__str__'), ('__repr__', ST + ':Storage.__repr__'), ('Buffer.__repr__', ST + ':Buffer.__repr__')],
   ENUM, 'All slices of a menu, 1..60 elements. ' + INDEP),
 p('C25', 'Concurrent assignments to different elements are all kept',
   'When two threads assign different elements of one array, directly, through slices of it or by assigning slices, afterwards every element reads the value that was assigned to it and all others are unchanged. '
   'Each thread reads its own assignments back, and a thread that only reads sees for every element the old or the new value and never the old one after the new one.',
   [S], 'every interleaving of the two threads, for every format and mapping',
   'The tests are sequential; a lost update appears only when a switch falls between reading and writing.',
   [('Storage.__setitem__', ST + ':Storage.__setitem__'), ('Buffer.__setitem__', ST + ':Buffer.__setitem__'), ('get_data_position', ST + ':COO.get_data_position')],
   SCHED, 'All schedules with one preemption (thorough: every bytecode, two preemptions, three threads), executed on the real code.'),
 p('C26', 'Indices translate between an array and its slices, and to memory positions',
   'Translating the index of an element of a slice to the array that it was cut from gives the index of the same element there, and translating back gives the index in the slice, or tells that the element is not in the slice. '
   'Index and memory position of an element of an array with row-major layout are inverse to each other.',
   [I], 'every array, every slice and every element of either',
   'The tests have few slices; negative steps and steps over one need care.',
   [('get_slice_index', ST + ':get_slice_index'), ('get_index_slice', ST + ':get_index_slice'), ('get_index', ST + ':get_index'), ('get_position', ST + ':get_position')],
   ENUM, 'All elements of all slices within the bound. The helper functions are skipped when a refactoring removes them. ' + INDEP),
 p('C27', 'Lookup in sparse arrays finds every element and only those',
   'In a sparse array every specified element reads its value and every unspecified position reads the placeholder, whatever the pattern of specified elements: empty and full rows, first and last columns, long runs and gaps, many elements. '
   'Assigning an element changes that element only.',
   [I], 'every pattern of specified elements, every element',
   'The tests use matrices with few elements; search errors depend on the position of the element among the stored ones.',
   [('get_coo_position', ST + ':get_coo_position'), ('get_flatcoo_position', ST + ':get_flatcoo_position'), ('get_csr_position', ST + ':get_csr_position')],
   ENUM, 'All 2^12 patterns (thorough 2^15) in 7 shapes and 3 formats, rows of up to 200 elements. ' + INDEP),
 p('C28', 'Every answer reflects the current elements, after any history',
   'Whatever was asked before, a listing, count, comparison, text, conversion, copy or slice of an array reflects the elements that it has now, after every history of assignments to it or to arrays that share elements with it, and of slicing, copying and conversions.',
   [H, C], 'all histories of queries and writes on all arrays that a history has produced',
   'The tests ask fresh arrays; a remembered answer goes stale only when a query comes before a write that reaches the array by another way.',
   [('Storage', ST + ':Storage'), ('elements', ST + ':Storage.elements'), ('Storage.__setitem__', ST + ':Storage.__setitem__'), ('as_* conversions', ST + ':Storage.as_CSR')],
   HIST, 'Every query is asked of every array after every operation of the history. ' + INDEP),
 p('C29', 'Arrays without elements behave as such in every format',
   'An array with an axis of size 0, made from a sequence without elements or by slicing that selects nothing, has the shape that Python\'s slicing implies, lists no elements, has size 0, is full, has the length of its first axis, keeps its placeholder and can be printed, compared and iterated. '
   'Its copies, conversions and slices are again arrays without elements of the implied shape; reading or assigning an element raises IndexError, and assigning nothing to it succeeds and changes nothing.',
   [I, C, H], 'every slice that selects nothing of every array in every format and mapping, and chains of operations on what it gives',
   'The tests have next to no empty arrays; strides, offsets and searches over nothing are special in every format.',
   [('Storage.__getitem__', ST + ':Storage.__getitem__'), ('get_shape', ST + ':get_shape'), ('make_reduction', ST + ':make_reduction'), ('reduced', SL + ':reduced'), ('index_strided', SL + ':index_strided'),
    ('get_coo_position', ST + ':get_coo_position'), ('DM.__getitem__', ST + ':DM.__getitem__')],
   ENUM, 'All empty selections of the complete menu of slices, followed by all operations and pairs of them. ' + INDEP),
 p('C30', 'Arrays put together from their parts mean what the formats define',
   'An array constructed from its parts (shape, strides and data; coordinates and values; row pointers, columns and values; dimensions, strides, offsets and storage of a mapping) reads at every index the element that the definition of the format gives. '
   'The parts may be windows of larger data, stored with any strides, backwards or with gaps, and a mapping may use a part of its storage. Listing, slicing, copying, converting and assigning work as for other arrays, and assignments reach exactly the data of the element and nothing beside it.',
   [I, C], 'all layouts of the parts: strides of any order and sign, gaps, offsets, windows, for every pattern of elements',
   'The tests construct few arrays with compact parts that own their data; offsets and strides of the parts are zero and compact there.',
   [('Strided', ST + ':Strided'), ('COO', ST + ':COO'), ('FlatCOO', ST + ':FlatCOO'), ('CSR', ST + ':CSR'), ('DM', ST + ':DM'), ('Buffer', ST + ':Buffer'), ('get_position', ST + ':get_position')],
   ENUM, 'All parts lie in one list between sentinels, which is compared item by item after every assignment. ' + INDEP),
 p('C31', 'Answers depend on the array alone, not on what else was done in the process',
   'What an array tells (elements, listing, counts, text, slices, copies, conversions, comparison, iteration) is the same as in a process that has done nothing else, whatever queries, assignments and failing operations on other arrays came before or between, '
   'alive or deleted, of equal or different shape, strides, format, values and placeholder; and whatever was asked of the array itself before.',
   [H, C], 'all pairs of arrays that agree in some respects and differ in others, all pairs of queries of one array',
   'Every test asks a few arrays in a fixed order; a remembered answer under a key that is too coarse shows only for a particular earlier array.',
   [('Storage', ST + ':Storage'), ('make_reduction', ST + ':make_reduction'), ('make_strides', ST + ':make_strides'), ('index_strided', SL + ':index_strided'), ('init_diophantine', SL + ':init_diophantine')],
   HIST, 'The answers are those of a new process (fork), compared with type and value, after every first array of the menu.',
   state=[('module-level and class-level variables', 'whatever the process remembers', ST + ':Storage')]),
 p('C32', 'A packaged tree tells the version of the source that it was made from',
   'A build, source distribution (with hard links or copies) or frozen executable made from a checkout tells the version, full revision, date, dirty state and error that the checkout tells, the version is also in the name of the source distribution, and so on along every chain: '
   'what is made from a source distribution or a git archive, or copied, tells what that tells. Packaging again after commits, tags or changes tells the new version, earlier results keep theirs, and packaging does not change the tree that it works on, also when it fails. The version command prints the version, revision, dirty state, date and any error.',
   [H, C], 'every chain of packaging steps from every git history, and every sequence of git operations and packaging with the same target directories',
   'No test packages anything; what can break depends on hard links, on earlier results and on the history.',
   [('get_cmdclass', VZ + ':get_cmdclass'), ('write_to_version_file', VZ + ':write_to_version_file'), ('versions_from_file', VZ + ':versions_from_file'), ('get_versions', VZ + ':get_versions'), ('get_keywords', VE + ':get_keywords')],
   'breadth-first enumeration of packaging chains over an abstract model of git histories, each replayed on real trees with the code under test',
   'The commands run on stand-ins for distutils, setuptools, cx_Freeze and py2exe that copy and link as the real ones; the result is compared with real setuptools for some histories. Trusts git and tar.'),
 p('C33', 'Installing the version machinery is complete, repeatable and keeps the files',
   '"versioneer.py setup" in a project with any state of its package file, MANIFEST.in, .gitattributes and settings writes the version file, sets the attribute for git archive, includes both files in source distributions, and gives the files to git; '
   'all lines that were there stay as they are, nothing is added twice, and a second run changes nothing. Afterwards the package tells its version in the chosen style, also from a git archive. Without settings it only adds a sample of them to setup.cfg, once, and fails. As a program it ends with status 1 also when setup.py lacks one of the three uses of versioneer or still sets options, and with status 0 otherwise.',
   [H, I], 'every combination of states of the files, one run, two, and changes between two runs',
   'No test installs it; what can break depends on what the files contain and on a second run.',
   [('do_setup', VZ + ':do_setup'), ('do_vcs_install', VZ + ':do_vcs_install'), ('LONG_VERSION_PY', VZ + ':LONG_VERSION_PY'), ('get_config_from_root', VZ + ':get_config_from_root'), ('scan_setup_py', VZ + ':scan_setup_py')],
   'enumeration of all initial states and of sequences of runs and changes, executed with the code under test on real projects', 'Every file is compared after every run, git is asked for the attributes. Trusts git.'),
]


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for prop, _, _ in P:
            assert len(prop['title']) <= 80, prop['title']
            f.write(json.dumps(prop) + '\n')
    checks = [{'property': prop['id'], 'quick_cmd': 'python3 check.py %s quick' % prop['id'], 'thorough_cmd': 'python3 check.py %s thorough' % prop['id'],
               'evidence_file': 'evidence/%s.json' % prop['id'], 'technique': technique, 'level': 'model_checking', 'level_note': note}
              for prop, technique, note in P if os.path.exists(os.path.join(V, 'mc', 'props', prop['id'].lower() + '.py'))]
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
         'notes': 'Pure Python: the checks import the package from /repo\'s working tree in fresh processes; nothing is built. No hooks in /repo.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
