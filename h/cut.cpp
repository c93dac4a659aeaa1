// loop splitters of the parallel layer: the blocks tile the iteration space exactly once, in order
#include "common.h"
using namespace FFLAS; namespace CS = FFLAS::CuttingStrategy; namespace SP = FFLAS::StrategyParameter;
template <class C, class P> void sp1(size_t n, size_t t, size_t maxb) { ParSeqHelper::Parallel<C, P> H(t); ForStrategy1D<size_t, C, P> it(n, H); size_t pos = 0, cnt = 0;
  for (it.initialize(); !it.isTerminated() && cnt < maxb; ++it) { size_t b = it.begin(), e = it.end(); vs_check2(b == pos, "block starts where the previous one ended", cnt, 0); vs_check2(e > b && e <= n, "block is non-empty and inside the range", cnt, 0); vs_check2(it.blockindex() == cnt && cnt < it.numblocks(), "block index", cnt, 0); pos = e; cnt++; }
  vs_assume(it.isTerminated()); vs_check(pos == n, "blocks cover the whole range"); vs_check(cnt == it.numblocks(), "block count"); if (std::is_same<P, SP::Threads>::value) vs_check(cnt <= t, "no more blocks than threads"); vs_reach("end"); }
template <class C, class P> void sp2(size_t m, size_t n, size_t t, size_t maxb) { ParSeqHelper::Parallel<C, P> H(t); ForStrategy2D<size_t, C, P> it(m, n, H); size_t cnt = 0, rows = 0, pe = 0, pj = 0, rb = 0;
  for (it.initialize(); !it.isTerminated() && cnt < maxb; ++it) { size_t ib = it.ibegin(), ie = it.iend(), jb = it.jbegin(), je = it.jend();
    if (jb == 0) { vs_check2(cnt == 0 || pj == n, "block row covers all columns", cnt, 0); vs_check2(ib == rows, "block row starts where the previous one ended", cnt, 0); rb = ib; rows = ie; } else { vs_check2(jb == pj, "block starts where its left neighbour ended", cnt, 0); vs_check2(ib == rb && ie == rows, "blocks of a row share their rows", cnt, 0); }
    vs_check2(ie > ib && ie <= m && je > jb && je <= n, "block is non-empty and inside the matrix", cnt, 0); vs_check2(it.blockindex() == cnt, "block index", cnt, 0); vs_check2(it.rowblockindex() < it.rownumblocks() && it.colblockindex() < it.colnumblocks(), "block row and column index", cnt, 0); pj = je; pe = ie; cnt++; }
  vs_assume(it.isTerminated()); if (m && n) { vs_check(rows == m && pj == n, "blocks cover the whole matrix"); vs_check(cnt == it.rownumblocks() * it.colnumblocks(), "block count"); } else vs_check(cnt == 0, "no block for an empty matrix"); (void)pe; vs_reach("end"); }
extern "C" void vs_main() {
  vs_modulus(101); vs_integers(); int dim = vs_choose("dim", 1, 2), st = vs_choose("str", 0, 9); size_t t = (size_t)vs_choose("t", 1, 300), maxb = (size_t)vs_choose("maxb", 1, 400);
  size_t n = (size_t)vs_i64("n", 0, vs_choose("nlo", 0, 1000000), vs_choose("nhi", 0, 1000000)), m = dim == 1 ? 0 : (size_t)vs_i64("m", 0, vs_choose("mlo", 0, 1000000), vs_choose("mhi", 0, 1000000));
#define ALL(X) switch (st) { case 0: X(CS::Block, SP::Threads); break; case 1: X(CS::Row, SP::Threads); break; case 2: X(CS::Column, SP::Threads); break; case 3: X(CS::Block, SP::Grain); break; case 4: X(CS::Row, SP::Grain); break; case 5: X(CS::Column, SP::Grain); break; case 6: X(CS::Block, SP::Fixed); break; case 7: X(CS::Row, SP::Fixed); break; case 8: X(CS::Column, SP::Fixed); break;
#define X1(C, P) sp1<C, P>(n, t, maxb)
#define X2(C, P) sp2<C, P>(m, n, t, maxb)
  if (dim == 1) { ALL(X1) default: vs_assume(0); } } else { ALL(X2) default: vs_assume(t == 1); sp2<CS::Single, SP::Threads>(m, n, t, maxb); } }
}
