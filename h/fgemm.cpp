#include "common.h"
using namespace FFLAS;
typedef FIELD Field; typedef Field::Element El;
extern "C" void vs_main() {
  Field F(PRIME); dom<Field> D(F);
  size_t m = vs_choose("m", 0, MAXD), n = vs_choose("n", 0, MAXD), k = vs_choose("k", 0, MAXD);
  int ta = vs_choose("ta", 0, 1), tb = vs_choose("tb", 0, 1), al = vs_choose("alpha", 0, 5), be = vs_choose("beta", 0, 5);
#ifdef BIGP
  vs_assume(al != 3 && be != 3);  // large p: the scalars range over concrete extreme values
#else
  vs_assume(al <= 3 && be <= 3);
#endif
  mat<Field> A(D, "A", ta ? k : m, ta ? m : k, 1), B(D, "B", tb ? n : k, tb ? k : n, 2), C(D, "C", m, n, 3, be == 0);
  El alpha = D.scalar("alpha", al), beta = D.scalar("beta", be); ZM a = A.spec(), b = B.spec(), c = be == 0 ? ZM(m, n) : C.spec();
  fgemm(F, ta ? FflasTrans : FflasNoTrans, tb ? FflasTrans : FflasNoTrans, m, n, k, alpha, A.p, A.ld, B.p, B.ld, beta, C.p, C.ld);
  if (ta) a = ztr(a); if (tb) b = ztr(b); ZM r = a * b; Z za = zof(alpha), zb = zof(beta);
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { Z e = za * r(i, j); if (be) e = e + zb * c(i, j); zeq(zof(C.at(i, j), "C"), e, "C", i, j); D.canon(C.at(i, j), "C", i, j); }
  A.unchanged(); B.unchanged(); C.padding(); vs_reach("end");
}
