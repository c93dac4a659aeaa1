P("P09", "Permutations are applied, converted and composed exactly",
  "Applying a permutation given as a transposition sequence moves whole rows or columns of the matrix exactly as the sequence prescribes, on either side, forwards or inverted, for any index window and any number of vectors, and changes nothing else. Conversions between transposition sequences and index arrays are mutually inverse, compositions equal the sequential application, and the block and cyclic shifts used between elimination steps move exactly the prescribed blocks.",
  [I, C], "all permutations, windows, sides, directions, numbers of vectors and block sizes",
  "a permutation error is visible only for particular transposition patterns (repeated targets, fixed points, empty blocks) and blockings; random pivoting at test sizes produces few of them, and factorization tests may cancel an error that is applied twice",
  [FP + "ffpack_permutation.inl", FP + "ffpack.h"], [("blocked application of transposition sequences", FP + "ffpack_permutation.inl"), ("block moves between recursive calls", FP + "ffpack_permutation.inl")], ["FFPACK::applyP", "FFPACK::MonotonicApplyP", "FFPACK::LAPACKPerm2MathPerm", "FFPACK::MathPerm2LAPACKPerm", "FFPACK::composePermutationsLLL", "FFPACK::MatrixApplyS", "FFPACK::MatrixApplyT"])
P("P10", "Parallel variants compute the sequential result under every schedule",
  "Every parallel entry point (matrix product with its cutting strategies, triangular solve, matrix-vector product, dot product, permutation, symmetric update and factorization, PLUQ and everything built on it) returns what its definition prescribes, for any number of threads and any order in which the runtime executes the tasks it creates. Results do not depend on the schedule, and tasks only touch their own blocks.",
  [I, C, S], "all entries, shapes and thread counts, and all orders of ready tasks",
  "the tests run with few threads on one machine, and sizes below the parallel thresholds never create a task; a missing synchronisation or a wrong block offset shows only for some schedules, cutting shapes or thread counts",
  ["fflas-ffpack/paladin/", FF + "fflas_pfgemm.inl", FF + "fflas_pftrsm.inl", FP + "ffpack_ppluq.inl", FP + "ffpack_permutation.inl", FF + "fflas_fgemm/schedule_winograd.inl"], [("task macros and synchronisation groups", "fflas-ffpack/paladin/parallel.h"), ("recursive and blocked parallel products", "fflas-ffpack/paladin/pfgemm_variants.inl"), ("parallel elimination", FP + "ffpack_ppluq.inl")], ["FFLAS::fgemm with ParSeqHelper::Parallel", "FFLAS::ftrsm with TRSMHelper", "FFPACK::pPLUQ", "FFPACK::pRank", "FFLAS::fgemv with ParSeqHelper::Parallel"])
P("P11", "Parallel loop splitting tiles the iteration space exactly",
  "For every range length or matrix shape, cutting strategy and thread count or grain size, the blocks a one- or two-dimensional parallel loop iterates over are non-empty, lie inside the range, do not overlap and cover it completely, in order, and the reported block counts and indices match. With a one-dimensional per-thread split there are never more blocks than threads.",
  [I, C], "all lengths and shapes up to the stated bounds, all strategies, thread counts and grain sizes",
  "a split goes wrong only for particular remainders of the shape modulo the block size or thread count; tests use a handful of dimensions and a fixed number of threads",
  ["fflas-ffpack/paladin/blockcuts.inl"], [("block size and remainder computation", "fflas-ffpack/paladin/blockcuts.inl"), ("block iterators", "fflas-ffpack/paladin/blockcuts.inl")], ["FFLAS::ForStrategy1D", "FFLAS::ForStrategy2D", "FFLAS::BlockCuts"])
P("P12", "Reduction and conversion return the canonical representative",
  "Reducing a vector, a matrix or the selected triangle of a matrix, in place or from a source buffer, replaces each element of any value exactly representable in the element type by the unique canonical representative of its class, for any length, stride, leading dimension and alignment, and touches nothing else. Converting elements into the field from floating-point or integer buffers, and back, likewise preserves the class and yields the canonical representative.",
  [I, C], "all representable values, lengths, strides, alignments and leading dimensions",
  "vectorised reductions err only at quotient-rounding boundaries, at extreme magnitudes or in the remainder loop after the vector body; random samples almost never hit a boundary value at a remainder position",
  [FF + "fflas_freduce.inl", FF + "fflas_freduce.h", "fflas-ffpack/field/modular-*.h"], [("vectorised reduction with floating-point quotient", FF + "fflas_freduce.inl"), ("conversions between a buffer and the field", FF + "fflas_level1.inl")], ["FFLAS::freduce", "FFLAS::freduce_constoverride", "FFLAS::finit", "FFLAS::fconvert"])
P("P13", "Transposition moves every entry to its mirrored position",
  "Transposing a matrix, out of place, in place for a square matrix, or in place for a rectangular one, moves entry (i,j) to (j,i) bit for bit, for every shape, leading dimension and block size, with the vectorised and the scalar kernels. Nothing outside the result is modified and the source of an out-of-place transposition is unchanged.",
  [I], "all entries, shapes, leading dimensions and block sizes",
  "blocked and vectorised transposition treats full blocks, partial block rows, partial block columns and the corner separately, and cycle-following handles each shape differently; tests use few shapes",
  [FF + "fflas_transpose.h"], [("blocked kernels and borders", FF + "fflas_transpose.h"), ("in-place rectangular transposition by cycles", FF + "fflas_transpose.h")], ["FFLAS::ftranspose", "FFLAS::ftransposein"])
P("P14", "Sparse products equal the dense definition in the basic formats",
  "For every sparse matrix given by coordinates, each of the basic storage formats (CSR, COO, ELL, and the all-ones or all-minus-ones variants of CSR and COO) yields beta*y + A*x for a vector and, where provided, for a block of vectors, with canonical results, for all sparsity patterns (including empty and dense rows), values, scalars, leading dimensions and alignments. Inputs and surrounding memory stay unchanged.",
  [I, C], "all patterns, values, vectors, scalars, block sizes and alignments",
  "the sparse test program is not part of the suite; delayed reduction depends on row lengths against the field size, and chunked formats depend on the row count modulo the vector width",
  [FF + "fflas_sparse/", FF + "fflas_sparse.inl"], [("format construction", FF + "fflas_sparse/"), ("delayed reduction and kernels", FF + "fflas_sparse/"), ("dispatch on field category", FF + "fflas_sparse.inl")], ["FFLAS::sparse_init", "FFLAS::fspmv", "FFLAS::fspmm"])
P("P15", "Products over the integers and large moduli are exact",
  "Matrix products and linear algebra over the integers or over primes beyond one machine word, computed through residue number systems and Chinese remaindering, return exactly the mathematically defined result for all entries of any magnitude and sign.",
  [I], "all integers and moduli of any size, all shapes",
  "the number of residues is chosen from size estimates; only extreme entries reach the reconstruction bound",
  ["fflas-ffpack/field/rns-double.h", "fflas-ffpack/field/rns-integer-mod.h", FF + "fflas_fgemm/fgemm_classical_mp.inl"], [("reconstruction bound and number of moduli", FF + "fflas_fgemm/fgemm_classical_mp.inl")], ["FFLAS::fgemm over ZRing<Integer> and Modular<Integer>"])
NA["P15"] = "the values are GMP integers: every arithmetic step happens inside the precompiled, hand-written assembly of libgmp on limb arrays of data-dependent length, which the IR-level executor cannot encode; replacing it by a model would verify the model, not this code"
P("P16", "Characteristic and minimal polynomials are exact",
  "The characteristic polynomial of every square matrix equals det(xI - A), whichever algorithm variant is selected, and the minimal polynomial of a matrix and vector is the monic generator of least degree of their Krylov sequence; randomised variants return a correct result for every random choice on which they return.",
  [I], "all square matrices and all random choices",
  "block structures in the Krylov-based variants need derogatory matrices and unlucky random vectors, which sampling does not produce",
  [FP + "ffpack_charpoly.inl", FP + "ffpack_charpoly_kglu.inl", FP + "ffpack_minpoly.inl"], [("Krylov profile and companion blocks", FP + "ffpack_charpoly_kgfast.inl")], ["FFPACK::CharPoly", "FFPACK::MinPoly"])
NA["P16"] = "the entry points return polynomials through Givaro's polynomial domain and multiply factors with its precompiled and recursive polynomial arithmetic, and the randomised variants retry until a probabilistic condition holds, so the path set is unbounded in the random choices; within this effort no terminating encoding was reached"
P("P17", "Matrix files round-trip",
  "Writing a matrix and reading it back yields the same matrix for every supported file format, shape and entries, and malformed input is rejected without reading or writing out of bounds.",
  [I], "all matrices and all byte sequences as input",
  "a parser goes wrong on particular malformed inputs that no test contains",
  ["fflas-ffpack/utils/fflas_io.h", FF + "fflas_sparse/read_sparse.h"], [("format detection and parsing", "fflas-ffpack/utils/fflas_io.h")], ["FFLAS::ReadMatrix", "FFLAS::WriteMatrix"])
NA["P17"] = "reading and writing go through libstdc++ iostreams and locale facets, which exist only as a precompiled library: their number parsing and formatting cannot be executed symbolically here, and a model of iostreams would decide the model rather than this code"
