"""Which contracts and which harness decide each property."""
H = ' A replay harness on the real code looks for a concrete failing input beside the proof.'
PROPS = {
    'C01': dict(title='Row-oriented multiplication', specs=['spec_spmv'], harness='c01',
                note='Proof for all inputs and thread counts that each multiplication routine adds exactly the row sums and touches nothing else; reals for floats.' + H),
    'C04': dict(title='Division into chunks', specs=['spec_part'], harness='c04',
                note='Proof for all distributions of nonzeros, numbers of blocks and worker counts that the chunk boundaries of each block row are exactly the division points, in order, from its first to its last block, for every blocked format that is divided; that the constructors divide is replayed by the harness.' + H,
                bounded=['that each constructor that leaves a matrix not flagged balanced calls the division: harness only']),
    'C05': dict(title='Coordinate conversions and access', specs=['spec_coo'], harness='c05',
                note='Proof for all inputs that each conversion, getter and setter of the coordinate storages does exactly what is stated.' + H),
    'C08': dict(title='Wide-row construction', specs=['spec_wide'], harness='c08',
                note='Proof that every wide-row constructor stores exactly the given entries band by band, against the assumed contract of the parallel stable sort.' + H),
    'C09': dict(title='Nonempty-row construction', specs=['spec_crcsr'], harness='c09',
                note='Proof that the nonempty-row constructors list every row once and store exactly the given entries, against the assumed contract of the parallel stable sort; the form that is told the number of rows is covered through its callers.' + H),
    'C02': dict(title='Blocked multiplication', harness='c02',
                specs=['spec_gsb', ('spec_spmv', ('CsrSpmv', 'BlockCoo1Spmv', 'BlockCoo14Spmv', 'BlockCsrSpmv', 'BlockCsrSpmvSerial', 'BlockCsr4Spmv', 'BlockCsr4SpmvSerial', 'DenseBlockSpmv', 'DenseBlockSpmvSerial',
                                                  'CooSmallSpmv', 'BlockCsrSerialSpmv', 'BlockCsrParallelSpmv', 'DenseParallelSpmv', 'DenseSerialSpmv', 'FreeCsrSerial'))],
                note='Proof for all matrices, block layouts, chunk divisions (recursion and tasks included), inputs and thread counts that each blocked multiplication adds exactly the row sums of its blocks, each block kind against its own contract; reals for floats.' + H,
                assumptions=['a block row that is not flagged balanced has a division into ordered, exhaustive chunks (C04)', 'the blocks are well formed (C10, C11)']),
    'C03': dict(title='Race freedom', kinds=('race', 'alias'), harness='c03', tsan=True,
                specs=[('spec_spmv', ('CsrSpmv', 'Csr2Spmv', 'BlockCsrSpmv', 'BlockCsr4Spmv', 'BlockCsrParallelSpmv', 'CrCsrSpmvPar', 'DenseBlockSpmv', 'DenseParallelSpmv', 'CswrSpmv')), 'spec_gsb', 'spec_perm', 'spec_expand'],
                note='Proof for all inputs and schedules that no two iterations of the parallel loops and no two tasks that may run side by side, in multiplication (blocked or not), permutation, inversion and expansion, access the same element with a write, and that no task outlives its function.' + H),
    'C06': dict(title='CSR construction', specs=['spec_csr'], harness='c06',
                note='Proof that every compressed-row constructor stores exactly the given entries, against the assumed contract of the parallel stable sort.' + H),
    'C07': dict(title='Dense construction', specs=['spec_dense', ('spec_blocks', ('DenseSerialCtor', 'DenseParallelCtor'))], harness='c07',
                note='Proof for all inputs that each cell of a dense matrix or block is the sum of the entries given for it; reals for floats.' + H),
    'C12': dict(title='Uniform blocking', specs=['spec_size', ('spec_bits', ('NextPow2', 'HighestU32'))], harness='c12',
                note='Proof for all dimensions and requested sizes that the boundaries handed to each constructor have the stated shape, and with exact machine arithmetic that the chosen block size is usable for every dimension up to 2^31, worker count up to 2^20 and value size up to 8 bytes.' + H,
                assumptions=['the constructors keep the boundaries they are given (C10, C11)']),
    'C13': dict(title='Locating and counting', specs=['spec_index'], harness='c13',
                note='Proof for all inputs of the index arithmetic and counting functions.' + H),
    'C14': dict(title='Sorting', specs=['spec_sort', ('spec_bits', ('Interleave', 'Interleave16'))], harness='c14',
                note='Proof, against the assumed contract of the parallel stable sort, that each sort orders by its documented key and permutes; the sort by block boundaries is a bounded stand-in.' + H,
                bounded=['sort_triplets_blocks: not under contract yet']),
    'C15': dict(title='Permutations', specs=['spec_perm'], harness='c15', note='Proof for all permutations, indices and thread counts, and a lemma for the round trip.' + H),
    'C16': dict(title='Block expansion', specs=['spec_expand'], harness='c16', note='Proof for all inputs and thread counts, and lemmas for order and block.' + H),
    'C17': dict(title='Bit utilities', specs=['spec_bits'], harness='c17', note='Proof with exact machine arithmetic (bit vectors) for every argument.' + H),
    'C11': dict(title='Mixed blocks construction', specs=['spec_blocks', 'spec_build', 'spec_factory'], harness='c11',
                note='Proof for all inputs that the construction of both mixed-block formats hands each block exactly its entries, relative to the block, and records it rightly; that the default choices of block kinds (BlockFactoryDefault::create, Coo_to_MatrixBlock) build the kind they report from exactly the entries given; and that the construction of one block of each kind stores exactly its entries.' + H,
                assumptions=['a block factory of the user builds a new object from the window it is given, counts its entries, returns one of the kinds, and at most reorders the window (the contract of BlockFactory::create; proved for the default factory)',
                             'a window of an array behaves as an array of its own for the function it is passed to', 'Coo_to_MatrixBlock stores no block as dense (with the instance verified it never does: proved)'],
                bounded=['the overloads that take a block size instead of boundaries: composition of C12 and this property, harness only']),
    'C21': dict(title='No leaks, no misuse of memory', kinds=('leak', 'dealloc', 'release', 'lifetime'), harness='c21',
                specs=['spec_release', 'spec_coo', 'spec_csr', 'spec_dense', 'spec_wide', 'spec_crcsr', 'spec_blocks', 'spec_size', 'spec_part', 'spec_perm', 'spec_expand', 'spec_sort', 'spec_index', 'spec_gsb', 'spec_build', 'spec_factory', 'spec_io', 'spec_mm'],
                note='Proof for every storage that its release gives back each array it owns exactly once, by the call that matches how the constructors obtain it, and nothing else; and that no construction, conversion, utility or multiplication under contract keeps, frees twice or uses after release any memory it allocates.' + H,
                assumptions=['arrays of different objects are distinct allocations'],
                bounded=['the loops over blocks in the construction of blocked formats: harness only (construction of each block, of the boundaries and of the division is under contract)', 'readers of blocked files: harness only']),
    'C18': dict(title='Binary files', specs=['spec_io'], harness='c18',
                note='Proof for all matrices, arrays and files, whole or cut off anywhere, that each binary writer leaves exactly the documented sequence of numbers and each binary reader (one file, three files, compressed rows, arrays) yields exactly what the file holds or reports failure, against the assumed contract of fopen/fread/fwrite/fclose.' + H,
                assumptions=['a file is a sequence of numbers of known types, read and written in order; writing to an open file succeeds; a file does not change while it is read',
                             'a value is transferred bit for bit (the harness compares bits)'],
                bounded=['the choice of reader by suffix (read_COO), and instances with other index and value types: harness only']),
    'C19': dict(title='Matrix Market files', specs=['spec_mm'], harness='c19',
                note='Proof for all matrices and files, general and symmetric, with any number of data lines up to the announced one, that the writer leaves a valid header, the sizes and one line per entry counted from 1, and that the reader succeeds exactly on the supported kinds and yields exactly the entries described, each off-diagonal entry of a symmetric file mirrored once, in bounds of what it allocates, against the assumed contracts of mm_io, fprintf and fscanf.' + H,
                assumptions=['mm_write_banner, mm_write_mtx_crd_size, mm_read_banner and mm_read_mtx_crd_size (dep/mm_io/mm_io.c) write and read the typecode and the sizes; the harness runs them on well-formed and damaged headers',
                             'a printed decimal integer, or double with 17 digits, is read back as the same number; data lines hold three numbers; a file does not change while it is read'],
                bounded=['the text of headers (mm_io) and the choice of reader by suffix (read_COO): harness only']),
    'C20': dict(title='Blocked matrix files', level='exploration', specs=[('spec_io', ('Blocked_write', 'Blocked_write_d', 'Head_Csbr', 'Head_Csbr2', 'Head_Cgbr'))], harness='c20',
                technique='contracts on the writer and on the reading of the header, discharged by gsbv; the readers\' data section: bounded stand-in, replay of the property on generated inputs under sanitizers',
                note='Bounded for the data section of the readers: files of generated matrices are read into every format and compared, entry by entry and by multiplication. The writer and the reading of the header (dimensions, counts, boundaries, position at the first entry) are proved for all matrices and files.',
                assumptions=['a file is a sequence of numbers of known types, read and written in order'],
                bounded=['the data section of read_bin_blocked for Csbr, Csbr2 and Cgbr: harness only']),
}
BND = 'Bounded so far: the property is replayed on generated inputs against an oracle; contracts are being added.'
for _i in range(1, 22):
    _p = 'C%02d' % _i
    PROPS.setdefault(_p, dict(harness=_p.lower(), level='exploration', note=BND, technique='bounded stand-in: replay of the property on generated inputs under sanitizers'))
NOT_APPLICABLE = {}

# statements about the verifier itself that every proof relies on
TRUSTED = [
    'the VC generator in gsbv/ (symbolic execution of the clang 18 AST of the real headers) and the solvers z3 / cvc5',
    'template instances verified: T=float, IT=uint32_t, SIT=uint16_t (uint8_t for wide rows)',
    'floating-point addition and multiplication are treated as the mathematical operations on reals (order of summation and rounding are not modelled)',
    'distinct array arguments do not overlap; arrays do not overlap objects (the callers\' obligation, restrict in the code)',
    'memory obtained from the allocator is in bounds of the address space; allocation succeeds',
    'sizes whose wrap-around is excluded by a precondition are listed in the contract as preconditions',
]
