#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand after editing it; no check runs it)."""
import json, os
import jobs as J
V = os.path.dirname(os.path.abspath(__file__))
FF, FP, FD = "fflas-ffpack/fflas/", "fflas-ffpack/ffpack/", "fflas-ffpack/field/"
T = []
def P(id, title, st, over, q, why, files, mech, obs=None): T.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs or [], hook_needed=None)))
I, C, S, H = "inputs", "configurations", "schedules", "histories"
P("P01", "Matrix product is exact over every supported field",
  "Computing alpha*op(A)*op(B)+beta*C over a prime field returns, for every shape, transposition, scalar and algorithm (classical, Winograd recursion, delayed or split reductions, conversions between element types), exactly the reduced field elements the definition gives. A zero beta makes the prior contents of C irrelevant. The operands A and B and everything outside the m x n window of C are left untouched.",
  [I, C], "all reduced matrix entries and scalars, all shapes, leading dimensions, transpositions, element types, primes up to the largest one each field supports",
  "the test program draws a few random matrices per field; exactness depends on accumulated magnitudes that random data rarely brings near 2^24, 2^53 or 2^63, and on scalar special cases and shapes a run does not enumerate",
  [FF + "fflas_fgemm.inl", FF + "fflas_fgemm/", FF + "fflas_helpers.inl", FF + "fflas_bounds.inl", FF + "fflas_igemm/"], [("delayed-reduction bounds carried by the multiplication helper", FF + "fflas_helpers.inl"), ("Winograd schedules and dynamic peeling", FF + "fflas_fgemm/"), ("conversion to a smaller floating-point field", FF + "fflas_fgemm.inl")], ["FFLAS::fgemm"])
P("P02", "Triangular (rank-revealing) factorizations reproduce the input",
  "For every matrix, of any shape and rank including empty and zero ones, the rank-revealing factorizations return the exact rank r and in-place factors whose product with the returned row and column permutations is the original matrix, with the requested diagonal made of ones. The permutations are valid and only the m x n window is written.",
  [I, C], "all matrices (every rank and pivoting pattern), both diagonal conventions, both transpositions, recursive and base-case code",
  "random test matrices have a prescribed rank but essentially one pivoting pattern per run; rank-deficient leading blocks interacting with block recursion are sampled, not covered",
  [FP + "ffpack_pluq.inl", FP + "ffpack_ludivine.inl", FP + "ffpack_permutation.inl", FP + "ffpack_ppluq.inl"], [("recursive block elimination with rank-revealing base cases", FP + "ffpack_pluq.inl"), ("CUP/PLE recursion", FP + "ffpack_ludivine.inl")], ["FFPACK::PLUQ", "FFPACK::LUdivine"])
P("P03", "Echelon forms and their transformations are correct",
  "Row and column echelon forms, reduced or not, computed by any of the offered algorithms with or without the transformation matrix, have the exact rank and pivot positions of the input, are in echelon form, and satisfy the documented identity between the input, the form and the invertible transformation extracted from the result.",
  [I, C], "all matrices of any rank, all four forms, all algorithm choices, transformation wanted or not",
  "tests check random matrices of fixed rank for a few shapes; the accessors that extract forms and transformations are combined with one algorithm each",
  [FP + "ffpack_echelonforms.inl", FP + "ffpack_ludivine.inl", FP + "ffpack.inl"], [("echelon form drivers", FP + "ffpack_echelonforms.inl"), ("Gauss-Jordan recursion", FP + "ffpack_echelonforms.inl"), ("extraction of forms and transforms", FP + "ffpack.inl")], ["FFPACK::RowEchelonForm", "FFPACK::ReducedRowEchelonForm", "FFPACK::ColumnEchelonForm", "FFPACK::ReducedColumnEchelonForm"])
P("P04", "Rank, determinant, solving, inverse and nullspace are exact",
  "Rank, singularity and determinant are those of the matrix; linear solving returns a solution exactly when one exists and reports inconsistency or singularity otherwise; the inverse times the matrix is the identity and singular matrices are reported as such; the nullspace basis spans exactly the kernel on the requested side.",
  [I, C], "all matrices and right-hand sides of any shape and rank, left and right variants",
  "singular, inconsistent and rectangular cases depend on exact rank coincidences that random dense data over a large field does not produce by itself",
  [FP + "ffpack.inl", FP + "ffpack_fgesv.inl", FP + "ffpack_fgetrs.inl", FP + "ffpack_invert.inl", FP + "ffpack.h"], [("drivers over the rank-revealing factorization", FP + "ffpack.inl"), ("multiple right-hand side solving", FP + "ffpack_fgetrs.inl"), ("inversion", FP + "ffpack_invert.inl")], ["FFPACK::Rank", "FFPACK::Det", "FFPACK::Solve", "FFPACK::fgesv", "FFPACK::Invert", "FFPACK::NullSpaceBasis"])
P("P05", "Rank profiles and rank-profile submatrices are the true ones",
  "The row and column rank profiles returned for a matrix, or extracted from a factorization for the matrix or any leading submatrix, are the lexicographically smallest index sets of independent rows and columns. The index and submatrix extraction functions select an invertible submatrix of maximal size consistent with those profiles.",
  [I, C], "all matrices of any shape, rank and rank profile",
  "needs every echelon pattern, including those where the pivot order differs from the profile order; a random matrix of given rank almost always has the generic profile",
  [FP + "ffpack_rankprofiles.inl", FP + "ffpack_pluq.inl", FP + "ffpack_permutation.inl"], [("profile extraction from permutations", FP + "ffpack_rankprofiles.inl")], ["FFPACK::RowRankProfile", "FFPACK::ColumnRankProfile", "FFPACK::LeadingSubmatrixRankProfiles"])
P("P06", "Triangular solves, products and inverses are exact",
  "For every side, triangle, transposition and diagonal convention, triangular system solving, triangular products (in place and accumulating), triangular inversion and the combined triangular operations satisfy their defining equations exactly. Entries of the opposite triangle and of a unit diagonal never influence the result, and operands documented as constant are unchanged.",
  [I, C], "all triangular matrices, right-hand sides and scalars; all 16 flag combinations; delayed-reduction block splittings for primes up to the field limit",
  "32 specialised solver variants with size-dependent splitting; tests sample a few sizes and leave parts of the flag space (zero scalars, empty dimensions) out",
  [FF + "fflas_ftrsm.inl", FF + "fflas_ftrsm_src.inl", FF + "fflas_ftrmm.inl", FF + "fflas_ftrmm_src.inl", FF + "fflas_ftrsv.inl", FP + "ffpack_ftrtr.inl", FP + "ffpack_ftrstr.inl", FP + "ffpack_ftrssyr2k.inl"], [("delayed block solver", FF + "fflas_ftrsm_src.inl"), ("triangular inversion and products", FP + "ffpack_ftrtr.inl")], ["FFLAS::ftrsm", "FFLAS::ftrmm", "FFLAS::ftrsv", "FFPACK::ftrtri", "FFPACK::ftrtrm"])
P("P07", "Vector and elementwise matrix operations meet their definitions",
  "Every vector or elementwise routine (copy, move, swap, negate, scale, add, subtract, scaled add, dot, matrix-vector, rank-one update, zero, identity, comparisons) returns reduced elements equal to its definition for every length, stride and leading dimension, including zero lengths and lengths that are not a multiple of the vector width. Only the addressed elements are read or written.",
  [I, C], "all entries, lengths, strides, leading dimensions and scalars",
  "hand-written vector code has separate alignment prologue, body and remainder; tests use a few lengths, mostly contiguous data and no check on bytes outside the operand",
  [FF + "fflas_fadd.inl", FF + "fflas_fscal.inl", FF + "fflas_faxpy.inl", FF + "fflas_fdot.inl", FF + "fflas_fgemv.inl", FF + "fflas_fger.inl", FF + "fflas_freduce.inl", FF + "fflas_level1.inl", FF + "fflas_level2.inl", FF + "fflas_fassign.inl"], [("vectorised loops with scalar remainder", FF + "fflas_fadd.inl"), ("delayed matrix-vector products", FF + "fflas_fgemv.inl")], ["FFLAS level 1 and 2 routines"])
P("P08", "Symmetric updates and symmetric factorizations are exact",
  "Symmetric rank-k and rank-2k updates, plain or with a diagonal or block-diagonal scaling, produce in the requested triangle exactly the symmetric product, and symmetric triangular factorizations succeed on every matrix of generic rank profile and reproduce it. The rank-profile-revealing symmetric factorization returns the exact rank and factors reproducing any symmetric matrix in odd characteristic.",
  [I, C], "all symmetric matrices and scalars, both triangles and transpositions, recursive and base-case code",
  "off-diagonal pivots and rank-deficient symmetric blocks need coincidences random symmetric matrices do not have; thresholds hide the recursion at test sizes",
  [FF + "fflas_fsyrk.inl", FF + "fflas_fsyrk_strassen.inl", FF + "fflas_fsyr2k.inl", FP + "ffpack_fsytrf.inl"], [("recursive symmetric updates", FF + "fflas_fsyrk.inl"), ("symmetric elimination with 2x2 pivots", FP + "ffpack_fsytrf.inl")], ["FFLAS::fsyrk", "FFLAS::fsyr2k", "FFPACK::fsytrf", "FFPACK::fsytrf_RPM"])
NA = {}
HOOK = "bc1f1ff"
exec(open(V + "/gen_docs_more.py").read()) if os.path.exists(V + "/gen_docs_more.py") else None
with open(V + "/properties.jsonl", "w") as f:
    for p in T: f.write(json.dumps(p) + "\n")
claimed = [p for p in T if p["id"] in J.PROPS and p["id"] not in NA]
NOTE = "Within the bounds stated in the evidence (sizes, primes, element types, flags) the property is shown for all input values: every path of the real code's LLVM IR is executed with symbolic entries and its obligations are discharged by z3 or by exact residue-class algebra over GF(p). Trusted: the vse interpreter (validated by replaying sampled path models natively), the BLAS reference model, clang, z3. Reported violations are always confirmed by running the real code natively."
M = dict(version=1, setup_cmd="python3 /verif/run.py setup", checks=[dict(property=p["id"], quick_cmd="python3 /verif/run.py %s --tier quick" % p["id"], thorough_cmd="python3 /verif/run.py %s --tier thorough" % p["id"], technique="bounded symbolic execution of the real code's LLVM IR with SMT (z3) discharge and native replay of counterexamples", level="other", level_note=NOTE) for p in claimed],
  not_applicable=[dict(property=p["id"], reason=NA[p["id"]]) for p in T if p["id"] in NA], hooks=dict(guard="__FFLASFFPACK_SEQPARTHRESHOLD", enable="-D__FFLASFFPACK_SEQPARTHRESHOLD=1 (passed by jobs.py to the P10 harness only; without it the threshold keeps its original value 220)", source_commits=[HOOK]), notes="Bounds, stubs and assumptions: DESIGN.md.")
missing = [p["id"] for p in T if p["id"] not in J.PROPS and p["id"] not in NA]
assert not missing, missing
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(T), "properties,", len(claimed), "claimed")
