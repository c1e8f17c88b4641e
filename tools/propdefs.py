"""The properties: texts for properties.jsonl.  tools/mkmeta.py writes properties.jsonl and MANIFEST.json from here."""
def P(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                             **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {})))

DEFS = [
P('C01', 'Row-oriented formats: multiplication yields exactly y + A x',
  'For every matrix held in a coordinate, compressed-row, compressed-nonempty-row, wide-row or dense format, multiplication adds to every y[i] the sum of A[i][j]*x[j] over the stored entries of row i, each stored entry counted once (repeated positions included), on top of the value y[i] already held. Nothing but y is changed and no memory outside x, y and the matrix is touched.',
  ['inputs', 'configurations'], 'all well-formed matrices in these formats (any dimensions, empty rows, repeated positions, no entries), all x and y, any number of threads',
  'The tests multiply a handful of small matrices and compare two formats of the library with each other; a fault that depends on the sparsity pattern, on a nonzero initial y, or common to formats is out of their reach.',
  ['include/spmv/coo.h', 'include/spmv/csr.h', 'include/spmv/dense.h', 'include/spmv/crcsr.h', 'include/spmv/omp/csr.h', 'include/spmv/omp/dense.h', 'include/spmv/omp/crcsr.h', 'include/matrix/cswr.h'],
  [('row accumulation kernels, serial and parallel', 'include/spmv/, include/spmv/omp/')], ['y after the call']),
P('C02', 'Blocked formats: multiplication yields exactly y + A x',
  'For every matrix held in a blocked format (blocks stored as coordinate, compressed-row or dense; uniform or irregular block boundaries; empty blocks and block rows; any division of a block row into work chunks, flagged balanced or not), multiplication adds to every y[i] exactly the sum of A[i][j]*x[j] over the stored entries of row i, on top of the previous value of y[i]. Nothing but y is changed and nothing outside x, y and the matrix is touched.',
  ['inputs', 'configurations', 'schedules'], 'all well-formed blocked matrices, all chunk divisions, all x and y, any number of threads',
  'The tests reach one block layout per matrix and almost only undivided block rows; the recursive chunk splitting with private partial results depends on load, thread count and layout.',
  ['include/spmv/omp/gsb.h', 'include/matrix/csbr.h', 'include/matrix/csbr.2.h', 'include/matrix/cgbr.h', 'include/matrix/cgbr.2.h', 'include/matrix/blocks.h'],
  [('block-row loop and recursive chunk multiplication', 'include/spmv/omp/gsb.h'), ('dispatch on the block type', 'include/matrix/cgbr.h, include/matrix/blocks.h')], ['y after the call']),
P('C03', 'Parallel operations are race free and independent of schedule and threads',
  'Every parallel operation (multiplication, permutation, inversion of permutations, index expansion) is free of data races: no two concurrently executed iterations or tasks access the same element with at least one of them writing it. Its result therefore is the same for every thread count and schedule, up to the order of floating-point additions where partial results of one block row are combined.',
  ['schedules', 'configurations', 'inputs'], 'all interleavings of all iterations and tasks, any thread count, all inputs',
  'A test run sees one schedule; a race shows up only on particular interleavings.',
  ['include/spmv/omp/csr.h', 'include/spmv/omp/dense.h', 'include/spmv/omp/crcsr.h', 'include/spmv/omp/gsb.h', 'include/permute.h', 'include/expand.h', 'include/matrix/cswr.h', 'include/matrix/csbr.2.h'],
  [('work-sharing loops and tasks', 'include/spmv/omp/, include/permute.h, include/expand.h')], ['results under different thread counts']),
P('C04', 'Block rows are divided into contiguous, exhaustive chunks',
  'The chunks computed for a block row start at its first block, follow one another without gap or overlap, never go back, and end after its last block, so together they contain every block exactly once. A new chunk starts exactly at a block (other than the last) at which the nonzeros counted since the previous division point, that block included, exceed the per-worker threshold of total nonzeros / (2 x workers). Every block row of a constructed matrix that is not flagged balanced has such a division.',
  ['inputs', 'configurations'], 'all distributions of nonzeros over blocks, any number of blocks, any worker count',
  'The division depends on nonzero counts and worker count; the tests check a few fixed sequences.',
  ['include/partition.h'], [('chunk division', 'include/partition.h'), ('per-block-row initialisation', 'include/partition.h')], ['chunk boundaries of every block row']),
P('C05', 'Coordinate conversions and element access preserve every entry in order',
  'Converting between coordinate storages (from separate arrays, triplet arrays or another coordinate matrix) yields a matrix of the same dimensions holding the same (row, column, value) entries in the same order; the source is unchanged. Reading an entry returns exactly what was last written to that position and writing one entry or field alters no other.',
  ['inputs', 'histories'], 'all matrices (also without entries), all sequences of reads and writes of entries',
  'The tests convert a few matrices; they do not establish that every field of every entry survives.',
  ['include/generic/coo.h', 'include/matrix/coo.1.h', 'include/matrix/coo.2.h', 'include/matrix/coo.3.h', 'include/matrix/block_coo.1.h', 'include/matrix/block_coo.2.h'],
  [('element-wise copy', 'include/generic/coo.h'), ('getters and setters', 'include/matrix/coo.*.h')], ['entries of the target']),
P('C06', 'Compressed-row construction stores exactly the given entries',
  'Building a compressed-row matrix from coordinate entries (sorted or unsorted, into own or caller-provided arrays, as a whole matrix or as a block with narrow column indices) gives row boundaries that start at 0, never decrease and end at the number of entries, such that the segment of row i holds exactly the (column, value) pairs of the entries of row i, with multiplicity. Dimensions are recorded, and the source is at most reordered.',
  ['inputs', 'configurations'], 'all entry lists with valid indices, including repeated positions, empty rows, no entries; all variants',
  'The tests compare a few matrices after multiplication; an off-by-one in an empty, first or last row, or a lost duplicate, needs a specific pattern.',
  ['include/matrix/csr.1.h', 'include/matrix/csr.2.h', 'include/matrix/block_csr.h', 'include/matrix/blocks.h', 'include/generic/csr.h'],
  [('count, prefix sum, copy', 'include/matrix/csr.1.h, csr.2.h, block_csr.h, blocks.h')], ['row boundaries, columns and values']),
P('C07', 'Dense construction represents the same matrix',
  'A dense matrix or dense block built from coordinate entries holds at every position the sum of the values of the entries given for it, and zero where none was given, so that multiplication with it equals multiplication with the entries. Dimensions are recorded and the source is unchanged.',
  ['inputs'], 'all entry lists with valid indices, with repeated positions, of any dimensions whose product fits the index type',
  'Whether a block becomes dense depends on its density, and repeated positions matter only there; the tests hold no such case.',
  ['include/matrix/dense.h'], [('scatter into a zeroed array', 'include/matrix/dense.h')], ['dense values']),
P('C08', 'Wide-row construction stores exactly the given entries',
  'Building a wide-row matrix groups the rows into ceil(rows/width) bands of the given width; band boundaries start at 0, never decrease and end at the number of entries, and band b holds exactly the (row within the band, column, value) data of the entries whose row lies in it, with multiplicity. Dimensions, width, band count and entry count are recorded, and the source is at most reordered.',
  ['inputs', 'configurations'], 'all entry lists with valid indices, all widths from 1 up to what the narrow row index holds',
  'The tests use one width on a few matrices; the last, partial band and large widths are not covered.',
  ['include/matrix/cswr.h'], [('band count, prefix sum, copy', 'include/matrix/cswr.h')], ['band boundaries and entries']),
P('C09', 'Compressed-nonempty-row construction stores exactly the given entries',
  'Building the format that keeps only nonempty rows lists every row with at least one entry exactly once in increasing order, with boundaries that start at 0, strictly increase and end at the number of entries, such that the segment of each listed row holds exactly its (column, value) pairs. This holds for entries in any order.',
  ['inputs'], 'all nonempty entry lists, sorted or not, any set of empty rows',
  'No test exercises this format.',
  ['include/matrix/crcsr.h', 'include/utils.h'], [('nonempty-row detection, count, prefix sum', 'include/matrix/crcsr.h'), ('counting of distinct rows', 'include/utils.h')], ['row list, boundaries and entries']),
P('C10', 'Blocks-of-compressed-rows construction represents the same matrix',
  'Building either blocked compressed-row format from coordinate entries and block boundaries represents exactly the given matrix: every entry lies in the one block whose row and column ranges contain it, at the right place relative to that block, with its value and multiplicity; blocks without entries are not stored; blocks of a block row are stored in column order; and recorded dimensions, entry and block counts are right.',
  ['inputs', 'configurations'], 'all nonempty entry lists with valid indices, all strictly increasing block boundaries covering the matrix, uniform or not',
  'The tests use uniform blocks on a few matrices; irregular boundaries and empty block rows are not covered.',
  ['include/matrix/csbr.h', 'include/matrix/csbr.2.h', 'include/utils.h'], [('sort by block, then split', 'include/matrix/csbr.h, csbr.2.h')], ['blocks and their entries']),
P('C11', 'Mixed-block construction represents the same matrix whatever block kinds it picks',
  'Building either mixed-block format (whole or per block, with the default choice of block kinds) represents exactly the given matrix: every entry lies in the block whose ranges contain it, relative to that block, with its value and multiplicity, whichever of coordinate, compressed-row or dense storage is picked for the block (in dense storage repeated positions count with their sum). Recorded dimensions, entry and block counts, the per-kind statistics and the recorded kind of each block are right.',
  ['inputs', 'configurations'], 'all nonempty entry lists with valid indices, all strictly increasing block boundaries with blocks no larger than the narrow index can address',
  'Which kind a block becomes depends on its density and shape; the tests reach few combinations.',
  ['include/matrix/cgbr.h', 'include/matrix/cgbr.2.h', 'include/matrix/blocks.h', 'include/matrix/block_coo.1.h', 'include/matrix/block_csr.h', 'include/matrix/dense.h'],
  [('sort by block, split, choose kind', 'include/matrix/cgbr.h, cgbr.2.h, blocks.h')], ['blocks, kinds, statistics']),
P('C12', 'Uniform blocking covers the matrix; the chosen block size is usable',
  'Blocking a matrix uniformly with a requested block height and width gives boundaries that start at 0, end at the dimension and increase strictly, with every block but the last of exactly the requested size and the last one less than twice that (a single block when the dimension is smaller than the request). A requested size of 0 gives a single block. The automatically chosen block size is either 0 (matrix too small to block) or a power of two smaller than both dimensions, such that a block\'s share of x and y fits the cache limit and, with several workers, every worker gets several block rows.',
  ['inputs', 'configurations'], 'all dimensions, requested sizes, value sizes up to 8 bytes and worker counts',
  'The result depends on bit arithmetic over the full range of dimensions and worker counts; the tests call it on a few small matrices.',
  ['include/generic/gsb.h', 'include/matrix/csbr.h', 'include/utils.h'], [('boundary construction', 'include/generic/gsb.h, include/matrix/csbr.h'), ('block size heuristic', 'include/utils.h')], ['boundaries, block size']),
P('C13', 'Entries are located in their block; blocks and rows are counted exactly',
  'Locating an index among block boundaries returns the one block whose range contains it, the block identifier of an entry is block row times number of block columns plus block column (for irregular and uniform blocks), and turning block sizes into boundaries yields their running sums. Counting blocks of a list sorted by block, or nonempty rows of a list sorted by row, gives the number of distinct values (0 blocks for an empty list).',
  ['inputs'], 'all boundary sequences, indices and entry lists',
  'Only a few indices and lists are tested; first, last and empty blocks and empty lists are corner cases.',
  ['include/utils.h'], [('binary search, identifiers, counting', 'include/utils.h')], ['returned indices, identifiers and counts']),
P('C14', 'Sorting yields an ordered permutation of the entries',
  'Each sort of entries (row-major, column-major, Morton, by wide row, by block identifier, by block boundaries) reorders the array into a permutation of its former contents that is ordered by its documented key; except for the sort by block boundaries, entries with equal keys keep their relative order. Neighbouring memory is not touched, whatever the length (including 0) and number of threads.',
  ['inputs', 'schedules'], 'all entry arrays and lengths, all thread counts',
  'Tests sort a few short arrays; the parallel sort switches algorithm with length and thread count.',
  ['include/utils.h', 'dep/pss/parallel_stable_sort.h', 'dep/pss/pss_common.h'], [('comparators', 'include/utils.h'), ('parallel merge sort', 'dep/pss/')], ['array after sorting']),
P('C15', 'Permutations are inverted and applied exactly',
  'Inverting a permutation gives the array whose composition with it is the identity both ways. Applying a permutation to an index array or to entries replaces every row and column index i by the permutation\'s value at i and leaves values, order and everything else unchanged, so applying a permutation and then its inverse restores the matrix.',
  ['inputs', 'schedules'], 'all permutations and entry lists, any length (including 0), any thread count',
  'No test exercises permutations.',
  ['include/permute.h'], [('parallel scatter and gather', 'include/permute.h')], ['indices after the call']),
P('C16', 'Block expansion maps indices order-preservingly into equal blocks',
  'Expanding variable-size blocks to a common size uses the smallest power of two not below the largest block, and maps an index at distance d into block b to b times the new size plus d; distinct indices stay distinct and in order, every index stays in its block, and values and entry order are unchanged. The index-array form and the entry-list form agree.',
  ['inputs', 'schedules'], 'all block size lists and indices, any thread count',
  'No test exercises expansion.',
  ['include/expand.h', 'src/common.cpp'], [('new size and new index', 'include/expand.h')], ['expanded indices']),
P('C17', 'Bit utilities: powers of two, highest set bit, interleaving',
  'Rounding up to a power of two returns the smallest power of two not below its positive argument (as far as one exists in 64 bits); the highest-set-bit functions return floor(log2 v) for positive v and -1 for negative v of the signed types; interleaving two 16-bit numbers puts bit i of the first at bit 2i and of the second at bit 2i+1 of the result, hence is one-to-one.',
  ['inputs'], 'all argument values of the respective widths',
  'Tests can sample only few of 2^64 values.',
  ['src/common.cpp', 'include/utils.h'], [('bit smearing, binary search, magic masks', 'src/common.cpp, include/utils.h')], ['returned values']),
P('C18', 'Binary matrix and array files round-trip exactly',
  'A matrix written in the documented binary format, as one file or as three, has exactly the documented layout and reads back with the same entries in the same order (and the same dimensions; for three files the smallest that contain the entries), with bit-identical values, in every coordinate storage; so do plain arrays. A row-sorted one-file matrix read as compressed rows holds the same entries. A missing file, a one-file matrix that ends early, an index file shorter than the value file calls for, and an unknown file suffix are reported as failure (a negative result, or exit with an error for a missing array or value file), not as success.',
  ['inputs', 'fault_sequences'], 'all matrices, all truncation points of a file',
  'Tests read no generated files in this way and no damaged ones.',
  ['include/io/input.h', 'include/io/output.h', 'src/common.cpp'], [('binary readers and writers', 'include/io/')], ['file bytes, matrix read back, return codes']),
P('C19', 'Matrix Market files are read and written faithfully',
  'Reading a coordinate Matrix Market file yields exactly the matrix it describes: indices shifted to start at 0, symmetric entries mirrored once (the diagonal not duplicated), dimensions and entry count right; formats that are not supported (array, complex, pattern, skew-symmetric, hermitian) and files with a damaged banner or no numeric size line are reported as failure. A written file has a valid header and reads back as the same matrix with the same values.',
  ['inputs'], 'all matrices and values, general and symmetric, integer and real',
  'Tests read a few fixed files and write none.',
  ['include/io/input.h', 'include/io/output.h', 'dep/mm_io/mm_io.c'], [('Matrix Market reader and writer', 'include/io/')], ['matrix read, file written, return codes']),
P('C20', 'Blocked matrix files read back as the same blocked matrix',
  'A matrix sorted by block and row, written in the blocked file format, gives a file of the documented layout, and read into any of the blocked formats that can be multiplied (both blocked compressed-row formats, mixed blocks) it represents exactly the written matrix: every entry in its block, with its value, and the recorded dimensions and counts; multiplication with it equals multiplication with the original entries.',
  ['inputs'], 'all nonempty matrices and block boundaries',
  'No test reads or writes blocked files.',
  ['include/io/blocked.h', 'include/io/output.h'], [('blocked readers', 'include/io/blocked.h')], ['matrix read back']),
P('C21', 'Building, using and releasing a matrix neither leaks nor corrupts memory',
  'Every array a construction, conversion or utility allocates is released exactly once, by the matching deallocator, when the matrix is released (or before the call returns, for temporary arrays), for every storage format and block kind; caller-owned arrays are never released, except that the blocked compressed-row formats take over the block boundaries they are given (from malloc). Building, using and releasing matrices repeatedly leaves no memory behind.',
  ['inputs', 'histories'], 'all formats, block layouts and matrices, any sequence of build, multiply, release',
  'The tests run without memory checking; a leak or mismatched release passes unnoticed.',
  ['include/matrix/', 'include/partition.h', 'include/utils.h', 'include/expand.h'], [('allocate / release pairs', 'include/matrix/*.h')], ['allocator events']),
]
