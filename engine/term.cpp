#include "term.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>

std::string i128s(i128 v) {
  if (v == 0) return "0";
  bool n = v < 0; u128 u = n ? (u128)(-v) : (u128)v; std::string s;
  while (u) { s.push_back('0' + (int)(u % 10)); u /= 10; }
  if (n) s.push_back('-');
  std::reverse(s.begin(), s.end()); return s;
}
// ------------------------------------------------------------------ monomials
std::vector<VarInfo> gVars; i128 gP = 0; uint32_t gSubstVer = 1;
std::vector<Residual> gResid; std::vector<SubstRec> gSubsts; std::vector<std::pair<PolyP,bool>> gPathConds;
typedef std::vector<std::pair<uint32_t,int>> Mono;
static std::vector<Mono> gMonos; static std::unordered_map<std::string, uint32_t> gMonoIdx;
static std::unordered_map<uint64_t, uint32_t> gMonoMul;
static const size_t MAXTERMS = 60000;
static uint32_t internMono(const Mono& m) {
  std::string k((const char*)m.data(), m.size() * sizeof(m[0]));
  auto it = gMonoIdx.find(k); if (it != gMonoIdx.end()) return it->second;
  uint32_t id = gMonos.size(); gMonos.push_back(m); gMonoIdx.emplace(k, id); return id;
}
const Mono& monoOf(uint32_t id) { return gMonos[id]; }
static int redExp(uint32_t v, i128 e) {
  if (gP >= 2 && gP <= 1000) {
    i128 q = gP - 1;
    if (gVars[v].unit) { e %= q; if (e < 0) e += q; if (2 * e > q) e -= q; }
    else if (e >= gP) e = (e - 1) % q + 1;
  }
  if (e > 30000 || e < -30000) throw Unsupported("exponent too large");
  return (int)e;
}
static uint32_t mulMono(uint32_t a, uint32_t b) {
  if (a > b) std::swap(a, b);
  if (gMonos[a].empty()) return b; if (gMonos[b].empty()) return a;
  uint64_t k = ((uint64_t)a << 32) | b; auto it = gMonoMul.find(k); if (it != gMonoMul.end()) return it->second;
  Mono r; const Mono x = gMonos[a], y = gMonos[b]; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { int e = redExp(x[i].first, (i128)x[i].second + y[j].second); if (e) r.push_back({x[i].first, e}); i++; j++; }
  }
  uint32_t id = internMono(r); gMonoMul.emplace(k, id); return id;
}
// ------------------------------------------------------------------ polynomials
struct PHash { size_t operator()(PolyP p) const { return p->h; } };
struct PEq { bool operator()(PolyP a, PolyP b) const { return a->t == b->t; } };
static std::unordered_map<size_t, std::vector<PolyP>> gPolys;
i128 modInv(i128 a, i128 p) {
  i128 r0 = p, r1 = ((a % p) + p) % p, s0 = 0, s1 = 1;
  while (r1) { i128 q = r0 / r1; i128 t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; }
  if (r0 != 1) throw Unsupported("modInv of non-unit");
  return ((s0 % p) + p) % p;
}
i128 coefNorm(i128 c) { if (gP) { c %= gP; if (c < 0) c += gP; } return c; }
static i128 cMul(i128 a, i128 b) {
  if (gP) return coefNorm(a * b);   // |a|,|b| < P < 2^63
  i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Unsupported("coefficient overflow over Z"); return r;
}
static i128 cAdd(i128 a, i128 b) {
  if (gP) return coefNorm(a + b);
  i128 r; if (__builtin_add_overflow(a, b, &r)) throw Unsupported("coefficient overflow over Z"); return r;
}
static PolyP intern(std::vector<std::pair<uint32_t,i128>>&& t) {
  size_t h = 1469598103934665603ull;
  for (auto& x : t) { h ^= x.first; h *= 1099511628211ull; h ^= (uint64_t)x.second; h *= 1099511628211ull; }
  auto& v = gPolys[h]; for (auto p : v) if (p->t == t) return p;
  Poly* p = new Poly; p->t = std::move(t); p->h = h; static uint32_t n = 0; p->id = n++; v.push_back(p); return p;
}
void setModulus(i128 p) { if (gP == p) return; gP = p; gSubstVer++; }
uint32_t newVar(const std::string& n, bool unit) { VarInfo v; v.name = n; v.unit = unit; gVars.push_back(v); return gVars.size() - 1; }
PolyP pConst(i128 c) { c = coefNorm(c); std::vector<std::pair<uint32_t,i128>> t; if (c) t.push_back({internMono({}), c}); return intern(std::move(t)); }
PolyP pVar(uint32_t v, int e) { e = redExp(v, e); if (!e) return pConst(1); return intern({{internMono({{v, e}}), 1}}); }
PolyP pAdd(PolyP a, PolyP b, int sb) {
  if (b->t.empty()) return a; if (a->t.empty() && sb == 1) return b;
  std::vector<std::pair<uint32_t,i128>> r; r.reserve(a->t.size() + b->t.size()); size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j == b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.push_back(a->t[i++]);
    else if (i == a->t.size() || b->t[j].first < a->t[i].first) { r.push_back({b->t[j].first, coefNorm(sb * b->t[j].second)}); j++; }
    else { i128 c = cAdd(a->t[i].second, sb * b->t[j].second); if (c) r.push_back({a->t[i].first, c}); i++; j++; }
  }
  if (r.size() > MAXTERMS) throw Unsupported("polynomial too large");
  return intern(std::move(r));
}
PolyP pScale(PolyP a, i128 c) {
  c = coefNorm(c); if (c == 0) return pConst(0); if (c == 1) return a;
  std::vector<std::pair<uint32_t,i128>> r; for (auto& x : a->t) { i128 k = cMul(x.second, c); if (k) r.push_back({x.first, k}); }
  return intern(std::move(r));
}
static std::unordered_map<uint64_t, PolyP> gPMul;
PolyP pMul(PolyP a, PolyP b) {
  if (a->t.empty()) return a; if (b->t.empty()) return b;
  if (a->t.size() == 1 && gMonos[a->t[0].first].empty()) return pScale(b, a->t[0].second);
  if (b->t.size() == 1 && gMonos[b->t[0].first].empty()) return pScale(a, b->t[0].second);
  uint64_t key = ((uint64_t)std::min(a->id, b->id) << 32) | std::max(a->id, b->id);
  auto it = gPMul.find(key); if (it != gPMul.end()) return it->second;
  if ((double)a->t.size() * b->t.size() > 4e6) throw Unsupported("polynomial product too large");
  std::unordered_map<uint32_t, i128> m; m.reserve(a->t.size() * b->t.size());
  for (auto& x : a->t) for (auto& y : b->t) { i128& c = m[mulMono(x.first, y.first)]; c = cAdd(c, cMul(x.second, y.second)); }
  std::vector<std::pair<uint32_t,i128>> r; for (auto& x : m) if (x.second) r.push_back(x);
  if (r.size() > MAXTERMS) throw Unsupported("polynomial too large");
  std::sort(r.begin(), r.end()); PolyP p = intern(std::move(r)); gPMul.emplace(key, p); return p;
}
static PolyP pPow(PolyP a, int e) { PolyP r = pConst(1); while (e) { if (e & 1) r = pMul(r, a); e >>= 1; if (e) a = pMul(a, a); } return r; }
static bool coefUnit(i128 c) { return gP ? c != 0 : (c == 1 || c == -1); }
static i128 coefInv(i128 c) { return gP ? modInv(c, gP) : c; }
bool pIsUnitMono(PolyP a) {
  if (a->t.size() != 1 || !coefUnit(a->t[0].second)) return false;
  for (auto& v : gMonos[a->t[0].first]) if (!gVars[v.first].unit) return false;
  return true;
}
static bool pIsNonzeroMono(PolyP a) { // nonzero though maybe not invertible (over Z)
  if (a->t.size() != 1) return false;
  for (auto& v : gMonos[a->t[0].first]) if (!gVars[v.first].unit) return false;
  return true;
}
PolyP pInvMono(PolyP a) {
  Mono m = gMonos[a->t[0].first]; Mono r; for (auto& v : m) { int e = redExp(v.first, -(i128)v.second); if (e) r.push_back({v.first, e}); }
  return intern({{internMono(r), coefInv(a->t[0].second)}});
}
bool pIsConst(PolyP a, i128& c) {
  if (a->t.empty()) { c = 0; return true; }
  if (a->t.size() == 1 && gMonos[a->t[0].first].empty()) { c = a->t[0].second; return true; }
  return false;
}
PolyP pNorm(PolyP a) {
  if (a->ver == gSubstVer) return a->nf;
  PolyP cur = a;
  for (int round = 0; round < 200; round++) {
    bool hit = false;
    for (auto& x : cur->t) { for (auto& v : gMonos[x.first]) if (gVars[v.first].subst) { hit = true; break; } if (hit) break; }
    if (!hit) break;
    std::vector<std::pair<uint32_t,i128>> keep; PolyP acc = pConst(0);
    for (auto& x : cur->t) {
      const Mono m = gMonos[x.first]; bool h2 = false; for (auto& v : m) if (gVars[v.first].subst) h2 = true;
      if (!h2) { keep.push_back(x); continue; }
      PolyP t = pConst(x.second); Mono rest;
      for (auto& v : m) {
        PolyP s = gVars[v.first].subst;
        if (!s) rest.push_back(v);
        else { s = pNorm(s); if (v.second >= 0) t = pMul(t, pPow(s, v.second)); else { if (!pIsUnitMono(s)) throw Unsupported("inverse of substituted non-unit"); t = pMul(t, pPow(pInvMono(s), -v.second)); } }
      }
      if (!rest.empty()) t = pMul(t, intern({{internMono(rest), 1}}));
      acc = pAdd(acc, t);
    }
    cur = pAdd(intern(std::move(keep)), acc);
  }
  a->ver = gSubstVer; a->nf = cur; cur->ver = gSubstVer; cur->nf = cur; return cur;
}
std::string pStr(PolyP a, size_t maxT) {
  if (a->t.empty()) return "0"; std::string s; size_t n = 0;
  for (auto& x : a->t) {
    if (n++) s += " + "; if (n > maxT) { s += "...(" + std::to_string(a->t.size()) + " terms)"; break; }
    i128 c = x.second; if (gP && c > gP / 2) c -= gP;
    const Mono& m = gMonos[x.first]; if (c != 1 || m.empty()) s += i128s(c);
    bool f = !(c != 1 || m.empty()); for (auto& v : m) { if (!f) s += "*"; f = false; s += gVars[v.first].name; if (v.second != 1) s += "^" + std::to_string(v.second); }
  }
  return s;
}
bool pEval(PolyP a, std::vector<i128>& val, i128& out) {
  i128 r = 0;
  for (auto& x : a->t) {
    i128 t = x.second;
    for (auto& v : gMonos[x.first]) {
      i128 b = val[v.first]; int e = v.second; if (e < 0) { if (coefNorm(b) == 0 || !gP) return false; b = modInv(b, gP); e = -e; }
      while (e--) t = cMul(t, coefNorm(b));
    }
    r = cAdd(r, t);
  }
  out = r; return true;
}
static void addSubst(uint32_t v, PolyP d) { gVars[v].subst = d; gSubsts.push_back({v, d}); gSubstVer++; }
static uint32_t gUnitN = 0;
static bool containsVar(PolyP p, uint32_t v) { for (auto& x : p->t) for (auto& y : gMonos[x.first]) if (y.first == v) return true; return false; }

// multiply by a unit monomial so that every unit variable has minimal exponent 0
static PolyP shiftUnits(PolyP p) {
  std::map<uint32_t, int> mn; bool first = true;
  for (auto& x : p->t) { std::map<uint32_t, int> cur; for (auto& v : gMonos[x.first]) if (gVars[v.first].unit) cur[v.first] = v.second;
    if (first) { mn = cur; first = false; } else { for (auto& m : mn) { auto j = cur.find(m.first); m.second = std::min(m.second, j == cur.end() ? 0 : j->second); } for (auto& c : cur) if (!mn.count(c.first)) mn[c.first] = std::min(0, c.second); } }
  Mono m; for (auto& x : mn) if (x.second) { int e = redExp(x.first, -(i128)x.second); if (e) m.push_back({x.first, e}); } if (m.empty()) return p; return pMul(p, intern({{internMono(m), 1}})); }
int gConcretize = 0; bool gOrdConsistent();
static void checkResid() { for (auto& rs : gResid) { PolyP q = pNorm(rs.p); if (rs.zero ? pIsNonzeroMono(q) : q->t.empty()) throw PathKill("infeasible residual"); } if (!gOrdConsistent()) throw PathKill("infeasible order"); }
static bool decideRec(PolyP p, int depth) {
  p = shiftUnits(pNorm(p));
  if (p->t.empty()) return true;
  if (pIsNonzeroMono(p)) return false;
  if (depth > 60) throw Unsupported("zero-test recursion too deep");
  // common monomial factor in non-unit variables
  {
    std::map<uint32_t,int> common; bool first = true;
    for (auto& x : p->t) {
      std::map<uint32_t,int> cur; for (auto& v : gMonos[x.first]) if (!gVars[v.first].unit) cur[v.first] = v.second;
      if (first) { common = cur; first = false; }
      else { for (auto it = common.begin(); it != common.end();) { auto j = cur.find(it->first); if (j == cur.end()) it = common.erase(it); else { it->second = std::min(it->second, j->second); ++it; } } }
      if (common.empty()) break;
    }
    if (!common.empty()) {
      uint32_t v = common.begin()->first;
      if (forkBool("x=0")) { addSubst(v, pConst(0)); return true; }
      uint32_t q = newVar("u" + std::to_string(gUnitN++) , true); addSubst(v, pVar(q)); return decideRec(p, depth + 1);
    }
  }
  // look for a variable that is linear with a unit coefficient
  std::map<uint32_t, std::pair<int,int>> occ;  // var -> (number of terms, max |exp|)
  for (auto& x : p->t) for (auto& v : gMonos[x.first]) if (!gVars[v.first].unit) { auto& o = occ[v.first]; o.first++; o.second = std::max(o.second, std::abs(v.second)); }
  auto split = [&](uint32_t v, PolyP& C, PolyP& R) {
    std::vector<std::pair<uint32_t,i128>> c, r;
    for (auto& x : p->t) { const Mono& m = gMonos[x.first]; bool in = false; Mono rest; for (auto& y : m) { if (y.first == v) in = true; else rest.push_back(y); }
      if (in) c.push_back({internMono(rest), x.second}); else r.push_back(x); }
    std::sort(c.begin(), c.end()); std::sort(r.begin(), r.end()); C = intern(std::move(c)); R = intern(std::move(r));
  };
  int64_t best = -1; 
  for (auto it = occ.rbegin(); it != occ.rend(); ++it) if (it->second.first == 1 && it->second.second == 1) {
    PolyP C, R; split(it->first, C, R); if (pIsUnitMono(C)) { best = it->first; break; } }
  auto solve = [&](uint32_t v) -> bool {
    PolyP C, R; split(v, C, R); PolyP Ci = pInvMono(C);
    if (forkBool("p=0")) { addSubst(v, pMul(pScale(R, -1), Ci)); return true; }
    uint32_t q = newVar("u" + std::to_string(gUnitN++), true);
    addSubst(v, pMul(pAdd(pVar(q), R, -1), Ci)); return false;
  };
  if (best >= 0) return solve((uint32_t)best);
  // linear variable with non-unit coefficient polynomial: first decide whether the coefficient vanishes
  {
    int64_t bv = -1; size_t bs = SIZE_MAX; PolyP bC = nullptr;
    for (auto it = occ.rbegin(); it != occ.rend(); ++it) if (it->second.second == 1) {
      PolyP C, R; split(it->first, C, R);
      if (C->t.size() < bs) { bs = C->t.size(); bv = it->first; bC = C; } }
    if (bv >= 0 && gP && bs <= 64) {
      bool z = decideRec(bC, depth + 1);
      PolyP p2 = pNorm(p);
      if (z) return decideRec(p2, depth + 1);
      PolyP C2 = pNorm(bC);
      if (pIsUnitMono(C2) && gVars[bv].subst == nullptr) { p = p2; PolyP C, R; split((uint32_t)bv, C, R); if (pIsUnitMono(C)) return solve((uint32_t)bv); return decideRec(p2, depth + 1); }
      if (p2 != p) return decideRec(p2, depth + 1);
    }
  }
  // unit-only polynomials such as u0 - 1: solve for a unit appearing once with exponent +-1 if the rest is a unit monomial
  if (p->t.size() == 2) {
    for (int w = 0; w < 2; w++) {
      auto& x = p->t[w]; auto& y = p->t[1 - w];
      for (auto& v : gMonos[x.first]) if (gVars[v.first].unit && std::abs(v.second) == 1) {
        bool iny = false; for (auto& u : gMonos[y.first]) if (u.first == v.first) iny = true; if (iny) continue;
        bool allu = true; for (auto& u : gMonos[x.first]) if (!gVars[u.first].unit) allu = false; for (auto& u : gMonos[y.first]) if (!gVars[u.first].unit) allu = false;
        if (!allu || !coefUnit(x.second) || !coefUnit(y.second)) continue;
        // x.c * v^e * m + y = 0  ->  v^e = -y/(x.c*m)
        for (auto& rs : gResid) if (rs.p == p) return rs.zero;
        if (forkBool("unit eq")) {
          Mono m; for (auto& u : gMonos[x.first]) if (u.first != v.first) m.push_back(u);
          PolyP num = pScale(intern({{y.first, y.second}}), -1); PolyP den = intern({{internMono(m), x.second}});
          PolyP q = pMul(num, pInvMono(den)); if (v.second < 0) q = pInvMono(q);
          addSubst(v.first, q); return true;
        }
        gResid.push_back({p, false}); return false;
      }
    }
  }
  // a unit with linear occurrence: u*C + R = 0 (not needed for soundness; keep as residual)
  for (auto& rs : gResid) { PolyP q = pNorm(rs.p); if (q == p) return rs.zero; if (!q->t.empty() && q->t.size() == p->t.size()) { // proportional?
      i128 k = 0; bool ok = gP != 0; if (ok) { k = cMul(p->t[0].second, modInv(q->t[0].second, gP)); ok = pScale(q, k) == p; } if (ok) return rs.zero; } }
  if (gConcretize && gP && gP <= gConcretize) { // finite-domain case split: fix one variable, then decide again
    int64_t bv = -1; int be = 0; for (auto& x : p->t) for (auto& v : gMonos[x.first]) if (std::abs(v.second) > be) { be = std::abs(v.second); bv = v.first; }
    if (bv >= 0) { bool u = gVars[bv].unit; for (i128 c = u ? 1 : 0; c < gP; c++) if (c + 1 == gP || forkBool("case split")) { addSubst((uint32_t)bv, pConst(c)); checkResid(); return decideRec(p, depth + 1); } } }
  if (forkBool("residual")) { gResid.push_back({p, true}); return true; }
  gResid.push_back({p, false}); return false;
}
// make the (nonzero) polynomial a unit monomial by fixing variables, when the case-split mode is on
PolyP pMakeUnit(PolyP a) { PolyP p = pNorm(a); while (gConcretize && gP && gP <= gConcretize && !pIsUnitMono(p)) { int64_t bv = -1; int be = 0; for (auto& x : p->t) for (auto& v : gMonos[x.first]) if (std::abs(v.second) > be) { be = std::abs(v.second); bv = v.first; } if (bv < 0) break;
    bool u = gVars[bv].unit; for (i128 c = u ? 1 : 0; c < gP; c++) if (c + 1 == gP || forkBool("case split")) { addSubst((uint32_t)bv, pConst(c)); checkResid(); break; } p = pNorm(a); if (p->t.empty()) throw PathKill("infeasible case"); } return p; }
// fix every remaining input (case-split mode): afterwards all conditions of the path can be evaluated
bool splitAll() { if (!gConcretize || !gP || gP > gConcretize) return false; bool any = false; for (size_t i = 0; i < gVars.size(); i++) if (gVars[i].input) for (;;) { PolyP p = pNorm(pVar((uint32_t)i)); i128 c0; if (p->t.empty() || pIsConst(p, c0)) break; uint32_t bv = gMonos[p->t.back().first].empty() ? gMonos[p->t[0].first][0].first : gMonos[p->t.back().first][0].first; bool u = gVars[bv].unit; any = true;
      for (i128 c = u ? 1 : 0; c < gP; c++) if (c + 1 == gP || forkBool("case split")) { addSubst(bv, pConst(c)); checkResid(); break; } } 
  for (auto& pc : gPathConds) { PolyP q = pNorm(pc.first); i128 c; if (q->t.empty() ? !pc.second : pIsConst(q, c) && pc.second) throw PathKill("infeasible case"); } checkResid(); return any; }
bool pDecideZero(PolyP a) { PolyP n = pNorm(a); if (n->t.empty()) return true; if (pIsNonzeroMono(n)) return false; bool r = decideRec(n, 0); checkResid(); gPathConds.push_back({a, r}); return r; }

// ------------------------------------------------------------------ terms
static std::vector<Term*> gTerms;
static std::unordered_map<std::string, TermP> gCons;
std::map<TermP, Iv> gRefine; uint64_t nLemma = 0; double lemmaTime = 0;
static TermP cons(Term t) {
  // interval/class are functions of the structure except for fresh nodes
  std::string k; k.reserve(80);
  auto put = [&](const void* p, size_t n) { k.append((const char*)p, n); };
  put(&t.k, 1); put(&t.pr, 1); put(&t.r1, 1); put(&t.r2, 1); put(&t.w, 2); put(&t.a, 8); put(&t.b, 8); put(&t.c, 8); put(&t.imm, 16); put(&t.imm2, 16); put(&t.d, 8); put(&t.z, 8);
  auto it = gCons.find(k); if (it != gCons.end()) return it->second;
  Term* n = new Term(t); n->id = gTerms.size(); gTerms.push_back(n); gCons.emplace(k, n); return n;
}
static TermP consHave(Term& t) {
  std::string k; k.reserve(80);
  auto put = [&](const void* p, size_t n) { k.append((const char*)p, n); };
  put(&t.k, 1); put(&t.pr, 1); put(&t.r1, 1); put(&t.r2, 1); put(&t.w, 2); put(&t.a, 8); put(&t.b, 8); put(&t.c, 8); put(&t.imm, 16); put(&t.imm2, 16); put(&t.d, 8); put(&t.z, 8);
  auto it = gCons.find(k); return it == gCons.end() ? nullptr : it->second;
}
static Term base(TK k) { Term t; memset((void*)&t, 0, sizeof t); t.k = k; return t; }
static Term mkB(TK k) { Term t = base(k); return t; }
static TermP initBool(bool v) { Term* t = new Term(base(T_CONST)); t->w = 1; t->iv = {v, v}; t->imm = v; t->id = 0; return t; }
const Term* tTrue = initBool(true); const Term* tFalse = initBool(false);
const Term* tUndef = [] { Term* t = new Term(base(T_UNDEF)); t->iv = {-IVINF, IVINF}; return t; }();
bool isBool(TermP t) { return t == tTrue || t == tFalse || (t->k >= T_CMP && t->k <= T_ZB); }
static i128 clampi(i128 v) { return v > IVINF ? IVINF : v < -IVINF ? -IVINF : v; }
static i128 satMul(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) return ((a < 0) != (b < 0)) ? -IVINF : IVINF; return clampi(r); }
static Iv ivAdd(Iv a, Iv b) { return {clampi(a.lo + b.lo), clampi(a.hi + b.hi)}; }
static Iv ivSub(Iv a, Iv b) { return {clampi(a.lo - b.hi), clampi(a.hi - b.lo)}; }
static Iv ivMul(Iv a, Iv b) { i128 p[4] = {satMul(a.lo, b.lo), satMul(a.lo, b.hi), satMul(a.hi, b.lo), satMul(a.hi, b.hi)}; return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)}; }
static Iv ivMeet(Iv a, Iv b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
static Iv ivJoin(Iv a, Iv b) { if (a.empty()) return b; if (b.empty()) return a; return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static Iv ivRemT(Iv a, i128 m) {
  if (m < 0) m = -m;
  if (a.lo > -m && a.hi < m) return a;
  if (a.lo >= 0 && a.hi < IVINF && a.lo / m == a.hi / m) return {a.lo % m, a.hi % m};
  Iv r{a.lo < 0 ? std::max(-(m - 1), a.lo) : 0, a.hi > 0 ? std::min(m - 1, a.hi) : 0}; return r;
}
Iv ivOf(TermP t) { auto it = gRefine.find(t); return it == gRefine.end() ? t->iv : ivMeet(t->iv, it->second); }
PolyP clsOf(TermP t) { return pNorm(t->cls); }
typedef std::map<TermP, Iv> RMap; typedef std::map<TermP, bool> CMap;
static Iv evalIv(TermP t, const RMap& r, const CMap& cm, int depth) {
  Iv b = ivOf(t); auto it = r.find(t); if (it != r.end()) b = ivMeet(b, it->second);
  if (depth <= 0 || b.empty()) return b;
  switch (t->k) {
    case T_ADD: return ivMeet(b, ivAdd(evalIv(t->a, r, cm, depth - 1), evalIv(t->b, r, cm, depth - 1)));
    case T_SUB: return ivMeet(b, ivSub(evalIv(t->a, r, cm, depth - 1), evalIv(t->b, r, cm, depth - 1)));
    case T_MUL: if (t->a->k == T_CONST || t->b->k == T_CONST) return ivMeet(b, ivMul(evalIv(t->a, r, cm, depth - 1), evalIv(t->b, r, cm, depth - 1))); return b;
    case T_ITE: { auto c = cm.find(t->a); if (c != cm.end()) return ivMeet(b, evalIv(c->second ? t->b : t->c, r, cm, depth - 1)); return ivMeet(b, ivJoin(evalIv(t->b, r, cm, depth - 1), evalIv(t->c, r, cm, depth - 1))); }
    case T_REMT: { Iv a = evalIv(t->a, r, cm, depth - 1); if (a.empty()) return a; return ivMeet(b, ivRemT(a, t->imm)); }
    default: return b;
  }
}
static bool setDown(TermP t, Iv iv, RMap& r, int depth) { // refine a term and, for invertible structure, its operands
  auto j = r.find(t); if (j == r.end()) r[t] = iv; else { j->second = ivMeet(j->second, iv); iv = j->second; } iv = ivMeet(ivOf(t), iv); if (iv.empty()) return false; if (depth == 0) return true;
  auto cdiv = [](i128 a, i128 b) { return -fdiv(-a, b); };
  auto cur = [&](TermP x) { Iv i = ivOf(x); auto q = r.find(x); return q == r.end() ? i : ivMeet(i, q->second); };
  switch (t->k) {
    case T_ADD: if (t->a->k != T_CONST && !setDown(t->a, ivSub(iv, cur(t->b)), r, depth - 1)) return false; if (t->b->k != T_CONST) return setDown(t->b, ivSub(iv, cur(t->a)), r, depth - 1); return true;
    case T_SUB: if (t->a->k != T_CONST && !setDown(t->a, ivAdd(iv, cur(t->b)), r, depth - 1)) return false; if (t->b->k != T_CONST) return setDown(t->b, ivSub(cur(t->a), iv), r, depth - 1); return true;
    case T_MUL: { TermP c = t->b, x = t->a; if (c->k != T_CONST) return true; i128 m = c->imm; if (m == 0 || iv.lo <= -IVINF || iv.hi >= IVINF) return true; if (m > 0) return setDown(x, {cdiv(iv.lo, m), fdiv(iv.hi, m)}, r, depth - 1); return setDown(x, {cdiv(iv.hi, m), fdiv(iv.lo, m)}, r, depth - 1); }
    case T_FLOORQ: { if (t->b || t->imm != 1 || t->d <= 0 || t->d != std::floor(t->d) || t->d > 1e18) return true; Iv x = cur(t->a); i128 m = (i128)t->d; if (x.lo < 0 || (t->w != 0 && t->w != 2)) return true; return setDown(t->a, {iv.lo <= 0 ? x.lo : iv.lo * m, iv.hi >= IVINF / (m + 1) ? x.hi : iv.hi * m + m - 1}, r, depth - 1); }
    default: return true; } }
// add the consequences of boolean c having value v to the maps; false if contradictory
static bool assumeB(TermP c, bool v, RMap& r, CMap& cm, int depth = 4) {
  if (c == tTrue || c == tFalse) return (c == tTrue) == v;
  auto it = cm.find(c); if (it != cm.end()) return it->second == v; cm[c] = v;
  if (depth == 0) return true;
  switch (c->k) {
    case T_NOT: return assumeB(c->a, !v, r, cm, depth - 1);
    case T_AND: if (v) return assumeB(c->a, true, r, cm, depth - 1) && assumeB(c->b, true, r, cm, depth - 1); return true;
    case T_OR: if (!v) return assumeB(c->a, false, r, cm, depth - 1) && assumeB(c->b, false, r, cm, depth - 1); return true;
    case T_CMP: {
      TermP a = c->a, b = c->b; Iv ia = evalIv(a, r, cm, 6), ib = evalIv(b, r, cm, 6); if (ia.empty() || ib.empty()) return false;
      auto set = [&](TermP t, Iv iv) { return setDown(t, iv, r, 5); };
      Pred p = c->pr; 
      if ((p == P_EQ && v) || (p == P_NE && !v)) { Iv m = ivMeet(ia, ib); return !m.empty() && set(a, m) && set(b, m); }
      if ((p == P_EQ && !v) || (p == P_NE && v)) {
        if (ib.single() && ia.single() && ia.lo == ib.lo) return false;
        if (ib.single()) { Iv m = ia; if (m.lo == ib.lo) m.lo++; if (m.hi == ib.lo) m.hi--; return set(a, m); }
        if (ia.single()) { Iv m = ib; if (m.lo == ia.lo) m.lo++; if (m.hi == ia.lo) m.hi--; return set(b, m); }
        return true; }
      bool lt = (p == P_LT && v), le = (p == P_LE && v), ge = (p == P_LT && !v), gt = (p == P_LE && !v);
      if (lt) return set(a, {ia.lo, std::min(ia.hi, ib.hi - 1)}) && set(b, {std::max(ib.lo, ia.lo + 1), ib.hi});
      if (le) return set(a, {ia.lo, std::min(ia.hi, ib.hi)}) && set(b, {std::max(ib.lo, ia.lo), ib.hi});
      if (ge) return set(a, {std::max(ia.lo, ib.lo), ia.hi}) && set(b, {ib.lo, std::min(ib.hi, ia.hi)});
      if (gt) return set(a, {std::max(ia.lo, ib.lo + 1), ia.hi}) && set(b, {ib.lo, std::min(ib.hi, ia.hi - 1)});
      return true; }
    default: return true;
  }
}
static void collectConds(TermP t, std::vector<TermP>& cs, int depth) {
  if (depth == 0 || cs.size() >= 4) return;
  if (t->k == T_ITE) { if (std::find(cs.begin(), cs.end(), t->a) == cs.end()) cs.push_back(t->a); collectConds(t->b, cs, depth - 1); collectConds(t->c, cs, depth - 1); }
  else if (t->k == T_ADD || t->k == T_SUB) { collectConds(t->a, cs, depth - 1); collectConds(t->b, cs, depth - 1); }
  else if (t->k == T_MUL && (t->a->k == T_CONST || t->b->k == T_CONST)) { collectConds(t->a, cs, depth - 1); collectConds(t->b, cs, depth - 1); }
}
static Iv caseIv(const std::vector<TermP>& roots, const RMap& r0, const CMap& cm0, std::function<Iv(const RMap&, const CMap&)> f) {
  std::vector<TermP> cs; for (auto t : roots) collectConds(t, cs, 3);
  if (cs.empty()) return f(r0, cm0);
  Iv res{1, 0};
  for (unsigned m = 0; m < (1u << cs.size()); m++) {
    RMap r = r0; CMap cm = cm0; bool ok = true;
    for (int pass = 0; pass < 1 && ok; pass++) for (size_t i = 0; i < cs.size() && ok; i++) ok = assumeB(cs[i], (m >> i) & 1, r, cm);
    if (!ok) continue;
    Iv x = f(r, cm); if (!x.empty()) res = ivJoin(res, x);
  }
  return res;
}
TermP mkConst(i128 v) { Term t = mkB(T_CONST); t.imm = v; t.iv = {v, v}; t.w = 0; if (auto e = consHave(t)) return e; t.cls = pConst(v); return cons(t); }
TermP mkVar(const std::string& name, i128 lo, i128 hi, bool input) {
  if (lo == hi) return mkConst(lo);
  uint32_t v = newVar(name); gVars[v].lo = lo; gVars[v].hi = hi; gVars[v].input = input;
  Term t = mkB(T_VAR); t.imm = v; t.iv = {lo, hi}; t.cls = pVar(v); return cons(t);
}
TermP mkOpaque(const std::string& why, Iv iv, bool inex) {
  uint32_t v = newVar(why); Term t = mkB(T_OPQ); t.imm = v; t.iv = iv; t.cls = pVar(v); t.inex = inex; return cons(t);
}
static bool isU(TermP a) { return a->k == T_UNDEF; }
static void chk(TermP a) { if (a->k >= T_FMULC && a->k != T_UNDEF) throw Unsupported(std::string("arithmetic on non-integer symbolic value kind ") + std::to_string(a->k)); }
// relational interval of x - m*floor(x*c)
static bool floorRel(TermP x, TermP y, bool sub, Iv& out) {
  // recognise y = m * FLOORQ(x, c)   (sub: x - y)  or y = -m*FLOORQ (add)
  if (y->k != T_MUL) return false; TermP q = y->a, mm = y->b; if (q->k != T_FLOORQ) std::swap(q, mm);
  if (q->b) return false;
  if (q->k != T_FLOORQ || mm->k != T_CONST || q->a != x) return false;
  i128 m = mm->imm; if (!sub) m = -m; if (m <= 0) return false;
  Iv ix = ivOf(x); long double ax = std::max(std::fabs((long double)ix.lo), std::fabs((long double)ix.hi));
  long double eps = q->imm2 == 24 ? ldexpl(1, -24) : ldexpl(1, -53);
  long double c = q->d; long double B;
  if (q->imm == 1) { if (c != (long double)m) return false; B = ax * eps; }               // quotient x / m
  else { long double e2 = fabsl(1.0L - (long double)m * c) + ldexpl(1, -63); B = ax * e2 + (long double)m * (ax * fabsl(c) * eps); }
  B = B * (1 + 1e-9L) + 1e-12L;
  i128 lo = -(i128)ceill(B), hi = m + (i128)ceill(B) - 1;
  if (q->w == 1) { i128 l = lo - m, h = hi; lo = l; hi = h; }          // ceil
  if (q->w == 2) { i128 l = lo - m, h = hi; lo = l; hi = h; if (ix.lo >= 0) lo += m; }  // trunc
  if (q->w == 3) { i128 h2 = m / 2 + 1 + (i128)ceill(B); lo = -h2; hi = h2; }
  out = {lo, hi}; nLemma++; return true;
}
static TermP bin(TK k, TermP a, TermP b) {
  Term t = mkB(k); t.a = a; t.b = b; if (auto e = consHave(t)) return e;
  t.inex = a->inex || b->inex;
  auto f = [&](const RMap& r, const CMap& cm) -> Iv { Iv x = evalIv(a, r, cm, 6), y = evalIv(b, r, cm, 6); if (x.empty() || y.empty()) return Iv{1, 0};
    return k == T_ADD ? ivAdd(x, y) : k == T_SUB ? ivSub(x, y) : ivMul(x, y); };
  t.iv = caseIv({a, b}, {}, {}, f); if (t.iv.empty()) t.iv = {0, 0};
  if (k == T_MUL && a == b && t.iv.lo < 0) t.iv.lo = 0;
  if (k != T_MUL) { Iv rel; if (floorRel(a, b, k == T_SUB, rel)) t.iv = ivMeet(t.iv, rel); else if (k == T_ADD && floorRel(b, a, false, rel)) t.iv = ivMeet(t.iv, rel); }
  PolyP ca = pNorm(a->cls), cb = pNorm(b->cls);
  t.cls = k == T_ADD ? pAdd(ca, cb) : k == T_SUB ? pAdd(ca, cb, -1) : pMul(ca, cb);
  if (t.iv.single() ) return mkConst(t.iv.lo);
  return cons(t);
}
TermP mkAdd(TermP a, TermP b) { if (isU(a) || isU(b)) return tUndef; chk(a); chk(b);
  if (a->k == T_CONST && b->k == T_CONST) return mkConst(a->imm + b->imm); if (a->k == T_CONST && a->imm == 0) return b; if (b->k == T_CONST && b->imm == 0) return a;
  if (a->k == T_CONST) std::swap(a, b);
  if (b->k == T_CONST && a->k == T_ADD && a->b->k == T_CONST) return mkAdd(a->a, mkConst(a->b->imm + b->imm));
  return bin(T_ADD, a, b); }
TermP mkSub(TermP a, TermP b) { if (isU(a) || isU(b)) return tUndef; chk(a); chk(b);
  if (a->k == T_CONST && a->imm == 0 && b->k != T_CONST) return mkMul(b, mkConst(-1));
  if (a->k == T_CONST && b->k == T_CONST) return mkConst(a->imm - b->imm); if (b->k == T_CONST) return mkAdd(a, mkConst(-b->imm)); if (a == b) return mkConst(0); return bin(T_SUB, a, b); }
TermP mkMul(TermP a, TermP b) { if (isU(a) || isU(b)) return tUndef; chk(a); chk(b);
  if (a->k == T_CONST && b->k == T_CONST) { i128 r; if (__builtin_mul_overflow(a->imm, b->imm, &r)) throw Unsupported("const overflow"); return mkConst(r); }
  if (a->k == T_CONST) std::swap(a, b); if (b->k == T_CONST) { if (b->imm == 0) return b; if (b->imm == 1) return a;
    if (a->k == T_MUL && a->b->k == T_CONST) { i128 r; if (!__builtin_mul_overflow(a->b->imm, b->imm, &r) && r < IVINF && r > -IVINF) return mkMul(a->a, mkConst(r)); } }
  if (b->k != T_CONST && a->id > b->id) std::swap(a, b);
  return bin(T_MUL, a, b); }
TermP mkDivT(TermP a, i128 m) { if (isU(a)) return a; chk(a); if (m == 1) return a; if (a->k == T_CONST) return mkConst(a->imm / m);
  Iv i = ivOf(a); Iv q{i.lo / m, i.hi / m}; if (m < 0) std::swap(q.lo, q.hi); if (q.single()) return mkConst(q.lo);
  Term t = mkB(T_DIVT); t.a = a; t.imm = m; if (auto e = consHave(t)) return e; t.iv = q; t.inex = a->inex; uint32_t v = newVar("quo" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
TermP mkRemT(TermP a, i128 m) { if (isU(a)) return a; chk(a); if (m < 0) m = -m; if (a->k == T_CONST) return mkConst(a->imm % m);
  Iv i = ivOf(a); if (i.lo > -m && i.hi < m) return a;
  Term t = mkB(T_REMT); t.a = a; t.imm = m; if (auto e = consHave(t)) return e; t.inex = a->inex;
  t.iv = caseIv({a}, {}, {}, [&](const RMap& r, const CMap& cm) { Iv x = evalIv(a, r, cm, 6); return x.empty() ? x : ivRemT(x, m); });
  if (gP && m % gP == 0) t.cls = pNorm(a->cls);
  else { TermP q = mkDivT(a, m); t.cls = pAdd(pNorm(a->cls), pScale(pNorm(q->cls), m), -1); }
  if (gP && m % gP == 0 && pIsUnitMono(t.cls)) { if (t.iv.lo == 0) t.iv.lo = 1; if (t.iv.hi == 0) t.iv.hi = -1; }
  if (t.iv.single()) return mkConst(t.iv.lo);
  return cons(t); }
TermP mkFDiv2(TermP a, int k) { if (isU(a)) return a; chk(a); if (k == 0) return a; i128 m = (i128)1 << k; if (a->k == T_CONST) return mkConst(fdiv(a->imm, m));
  Iv i = ivOf(a); Iv q{fdiv(i.lo, m), fdiv(i.hi, m)}; if (q.single()) return mkConst(q.lo);
  Term t = mkB(T_FDIV2); t.a = a; t.imm = k; if (auto e = consHave(t)) return e; t.iv = q; t.inex = a->inex; uint32_t v = newVar("fd" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
TermP mkFMod2(TermP a, int k) { if (isU(a)) return a; chk(a); i128 m = (i128)1 << k; Iv i = ivOf(a); if (i.lo >= 0 && i.hi < m) return a;
  TermP q = mkFDiv2(a, k); TermP r = mkSub(a, mkMul(q, mkConst(m))); if (r->k == T_CONST) return r;
  Term* w = const_cast<Term*>(r); w->iv = ivMeet(w->iv, {0, m - 1}); return r; }
TermP mkInv(TermP a, i128 m) { if (isU(a)) return a; chk(a); if (!gP || m != gP) throw Unsupported("inverse for other modulus");
  i128 v; if (tryConst(a, v)) { if (coefNorm(v) == 0) throw Candidate("inverse of zero"); i128 r = modInv(v, gP); return mkConst(r); }
  PolyP c = clsOf(a); if (pDecideZero(c)) throw Candidate("inverse of zero");
  pMakeUnit(clsOf(a)); if (tryConst(a, v)) return mkConst(modInv(v, gP)); c = clsOf(a); Term t = mkB(T_INV); t.a = a; t.imm = m; t.iv = {1, m - 1};
  if (pIsUnitMono(c)) { if (auto e = consHave(t)) return e; t.cls = pInvMono(c); }
  else { // residual non-zero polynomial: introduce an inverse variable with relation  y*c = 1
    if (auto e = consHave(t)) return e; uint32_t y = newVar("inv" + std::to_string(gVars.size()), true); t.cls = pVar(y); gResid.push_back({pAdd(pMul(pVar(y), c), pConst(1), -1), true}); }
  t.inex = a->inex; return cons(t); }
TermP mkFMulC(TermP a, double c, bool isdiv, bool isf32) { if (isU(a)) return a; chk(a); Term t = mkB(T_FMULC); t.a = a; t.d = c; t.imm = isdiv; t.imm2 = isf32 ? 24 : 53; t.inex = a->inex; t.iv = {-IVINF, IVINF}; return cons(t); }
// floating quotient by a symbolic (positive or negative, nonzero) divisor
TermP mkFDivS(TermP a, TermP b, bool isf32) { if (isU(a) || isU(b)) return tUndef; chk(a); chk(b); Term t = mkB(T_FMULC); t.a = a; t.b = b; t.imm = 1; t.imm2 = isf32 ? 24 : 53; t.inex = a->inex || b->inex; t.iv = {-IVINF, IVINF}; return cons(t); }
static Iv ivQuot(Iv x, Iv y) { // hull of truncated quotients, divisor interval excludes 0 on the path
  std::vector<i128> ds; if (y.lo > 0 || y.hi < 0) ds = {y.lo, y.hi}; else { if (y.lo < 0) { ds.push_back(y.lo); ds.push_back(-1); } if (y.hi > 0) { ds.push_back(1); ds.push_back(y.hi); } }
  Iv r{1, 0}; for (i128 d : ds) for (i128 n : {x.lo, x.hi}) { i128 q = n / d; r = ivJoin(r, {q, q}); } if (r.empty()) r = {0, 0}; return r; }
bool gLIA = false; int gLIAQuot = 64; TermP mkCmp(Pred, TermP, TermP); bool decide(TermP);
TermP mkDivS(TermP a, TermP b) { if (isU(a) || isU(b)) return tUndef; chk(a); chk(b);
  if (gLIA && ivOf(a).lo >= 0 && ivOf(b).lo >= 0) { // case split on the quotient: k*b <= a < (k+1)*b is linear for each constant k
    for (int k = 0; k < gLIAQuot; k++) if (decide(mkCmp(P_LT, a, mkMul(b, mkConst(k + 1))))) return mkConst(k);
    throw PathKill("quotient beyond the bound"); }
  Term t = mkB(T_DIVT); t.a = a; t.b = b; if (auto e = consHave(t)) return e; t.iv = ivQuot(ivOf(a), ivOf(b)); if (t.iv.single()) return mkConst(t.iv.lo); t.inex = a->inex || b->inex; uint32_t v = newVar("quo" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
TermP mkFloor(TermP a, int mode) { if (isU(a)) return a; if (a->k != T_FMULC) { chk(a); return a; }
  if (a->b) { Term t = mkB(T_FLOORQ); t.a = a->a; t.b = a->b; t.w = mode; if (auto e = consHave(t)) return e; t.iv = ivQuot(ivOf(a->a), ivOf(a->b)); if (mode != 2 || 1) { t.iv.lo -= mode == 2 ? 0 : 1; t.iv.hi += mode == 2 ? 0 : 1; } if (t.iv.single()) return mkConst(t.iv.lo); t.inex = a->inex; uint32_t v = newVar("fq" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
  Term t = mkB(T_FLOORQ); t.a = a->a; t.d = a->d; t.imm = a->imm; t.imm2 = a->imm2; t.w = mode; if (auto e = consHave(t)) return e; t.inex = a->inex;
  Iv i = ivOf(a->a); if (i.lo <= -IVINF || i.hi >= IVINF) throw Unsupported("floor of unbounded");
  auto ev = [&](i128 v) -> double { double x = (double)v; if (a->imm2 == 24) { float y = a->imm ? (float)x / (float)a->d : (float)x * (float)a->d; x = y; } else x = a->imm ? x / a->d : x * a->d; 
    return mode == 0 ? floor(x) : mode == 1 ? ceil(x) : mode == 2 ? trunc(x) : rint(x); };
  double l = ev(i.lo), h = ev(i.hi); if (l > h) std::swap(l, h); t.iv = {(i128)l, (i128)h}; if (t.iv.single()) return mkConst(t.iv.lo);
  uint32_t v = newVar("fq" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
// concrete value of a term whose inputs have all been fixed on this path (case-split mode)
std::vector<std::pair<TermP, bool>> gOrd;
struct GEv { uint32_t ver = 0; bool ok = false; i128 v = 0; }; static std::unordered_map<TermP, GEv> gEvMemo;
static bool gEval(TermP t, i128& v);
static int gEvalB(TermP c) { if (c == tTrue) return 1; if (c == tFalse) return 0; switch (c->k) {
    case T_NOT: { int r = gEvalB(c->a); return r < 0 ? r : !r; } case T_AND: { int x = gEvalB(c->a), y = gEvalB(c->b); if (x == 0 || y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; } case T_OR: { int x = gEvalB(c->a), y = gEvalB(c->b); if (x == 1 || y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
    case T_CMP: { i128 u, w; if (!gEval(c->a, u) || !gEval(c->b, w)) return -1; switch (c->pr) { case P_EQ: return u == w; case P_NE: return u != w; case P_LT: return u < w; default: return u <= w; } } default: return -1; } }
static bool gEval0(TermP t, i128& v) { i128 a, b;
  switch (t->k) {
    case T_CONST: v = t->imm; return true;
    case T_VAR: { i128 c; if (!gP || !t->cls || !pIsConst(clsOf(t), c)) return false; v = t->iv.lo + (((c - t->iv.lo) % gP) + gP) % gP; return v <= t->iv.hi && v + gP > t->iv.hi; }
    case T_ADD: if (!gEval(t->a, a) || !gEval(t->b, b)) return false; v = a + b; return true;
    case T_SUB: if (!gEval(t->a, a) || !gEval(t->b, b)) return false; v = a - b; return true;
    case T_MUL: if (!gEval(t->a, a) || !gEval(t->b, b)) return false; return !__builtin_mul_overflow(a, b, &v);
    case T_REMT: if (!gEval(t->a, a)) return false; if (t->b) { if (!gEval(t->b, b) || !b) return false; } else b = t->imm; v = a % b; return true;
    case T_DIVT: if (!gEval(t->a, a)) return false; if (t->b) { if (!gEval(t->b, b) || !b) return false; } else b = t->imm; v = a / b; return true;
    case T_FDIV2: if (!gEval(t->a, a)) return false; v = fdiv(a, (i128)1 << (int)t->imm); return true;
    case T_ITE: { int c = gEvalB(t->a); return c >= 0 && gEval(c ? t->b : t->c, v); }
    case T_INV: if (!gEval(t->a, a) || !gP || t->imm != gP || coefNorm(a) == 0) return false; v = modInv(coefNorm(a), gP); return t->iv.has(v);
    case T_FLOORQ: { if (t->b || !gEval(t->a, a)) return false; double x = (double)a; if (t->imm2 == 24) { float y = t->imm ? (float)x / (float)t->d : (float)x * (float)t->d; x = y; } else x = t->imm ? x / t->d : x * t->d; x = t->w == 0 ? floor(x) : t->w == 1 ? ceil(x) : t->w == 2 ? trunc(x) : rint(x); v = (i128)x; return true; }
    default: return false; } }
static bool gEval(TermP t, i128& v) { if (t->k == T_CONST) { v = t->imm; return true; } auto& e = gEvMemo[t]; if (e.ver == gSubstVer + 1) { v = e.v; return e.ok; } if (e.ok) { v = e.v; return true; } i128 x = 0; bool ok = gEval0(t, x); auto& e2 = gEvMemo[t]; e2.ver = gSubstVer + 1; e2.ok = ok; e2.v = x; v = x; return ok; }
bool gOrdConsistent() { if (!gConcretize) return true; for (auto& o : gOrd) { int r = gEvalB(o.first); if (r >= 0 && r != (int)o.second) return false; } return true; }
bool tryConst(TermP t, i128& v) {
  if (t->k == T_CONST) { v = t->imm; return true; }
  if (!t->cls || t->k >= T_FMULC) return false;
  Iv i = ivOf(t); if (i.single()) { v = i.lo; return true; }
  i128 c; if (!pIsConst(clsOf(t), c)) return gConcretize && gEval(t, v);
  if (!gP) { v = c; return true; }
  // unique representative in the interval?
  if (i.lo <= -IVINF || i.hi >= IVINF) return gConcretize && gEval(t, v);
  i128 x = i.lo + (((c - i.lo) % gP) + gP) % gP; if (x <= i.hi && x + gP > i.hi) { v = x; return true; }
  return gConcretize && gEval(t, v);
}
static int gLinDepth = 6;
static void linOf(TermP t, i128 k, std::map<TermP, i128>& m, i128& c, int d = 0) {
  if (t->k == T_CONST) { c += k * t->imm; return; } if (d < gLinDepth) { if (t->k == T_ADD) { linOf(t->a, k, m, c, d + 1); linOf(t->b, k, m, c, d + 1); return; } if (t->k == T_SUB) { linOf(t->a, k, m, c, d + 1); linOf(t->b, -k, m, c, d + 1); return; } }
  m[t] += k; }
static Iv linDiff1(TermP a, TermP b) { std::map<TermP, i128> m; i128 c = 0; linOf(a, 1, m, c); linOf(b, -1, m, c); i128 lo = c, hi = c; for (auto& q : m) if (q.second) { Iv i = ivOf(q.first); if (i.lo <= -IVINF || i.hi >= IVINF || q.second > 1000 || q.second < -1000) return Iv{-IVINF, IVINF}; lo += q.second > 0 ? q.second * i.lo : q.second * i.hi; hi += q.second > 0 ? q.second * i.hi : q.second * i.lo; } return Iv{lo, hi}; }
static Iv linDiff(TermP a, TermP b) { Iv r{-IVINF, IVINF}; for (int d : {1, 2, 3, 6}) { gLinDepth = d; r = ivMeet(r, linDiff1(a, b)); } gLinDepth = 6; return r; }
TermP mkCmp(Pred p, TermP a, TermP b) {
  if (isU(a) || isU(b)) return tUndef;
  if (a->k == T_FMULC || b->k == T_FMULC) { // x*c or x/y against an integer
    if (a->k == T_FMULC && b->k == T_FMULC) throw Unsupported("comparison of two scaled values");
    TermP f = a->k == T_FMULC ? a : b, o = a->k == T_FMULC ? b : a; bool left = a->k == T_FMULC; TermP n, d; bool flip = false;
    if (f->b) { Iv i = ivOf(f->b); n = f->a; d = f->b; flip = i.hi <= 0; if (i.lo < 0 && i.hi > 0) flip = decide(mkCmp(P_LT, d, mkConst(0))); }
    else if (f->imm && f->d == std::floor(f->d) && std::fabs(f->d) < 1e30) { n = f->a; d = mkConst((i128)f->d); flip = f->d < 0; }
    else { // x*c < t with real c: move to the integer threshold
      i128 k; if (!tryConst(o, k)) throw Unsupported("comparison of scaled value with symbolic value"); if (p == P_EQ || p == P_NE) throw Unsupported("equality on scaled value");
      long double c = f->imm ? 1.0L / f->d : (long double)f->d; long double th = (long double)k / c; if (fabsl(th) > 1e35L) th = th > 0 ? 1e35L : -1e35L;
      bool lessThan = left != (c < 0); // x < th (or <=) when true, x > th otherwise
      if (p == P_LT) return lessThan ? mkCmp(P_LT, f->a, mkConst((i128)ceill(th))) : mkCmp(P_LT, mkConst((i128)floorl(th)), f->a);
      return lessThan ? mkCmp(P_LE, f->a, mkConst((i128)floorl(th))) : mkCmp(P_LE, mkConst((i128)ceill(th)), f->a); }
    TermP m = mkMul(o, d); if (left != flip) return mkCmp(p, n, m); return mkCmp(p, m, n); }
  chk(a); chk(b);
  if (a == b) return (p == P_EQ || p == P_LE) ? tTrue : tFalse;
  Iv x = ivOf(a), y = ivOf(b);
  switch (p) {
    case P_EQ: if (x.single() && y.single()) return x.lo == y.lo ? tTrue : tFalse; if (ivMeet(x, y).empty()) return tFalse; break;
    case P_NE: if (x.single() && y.single()) return x.lo != y.lo ? tTrue : tFalse; if (ivMeet(x, y).empty()) return tTrue; break;
    case P_LT: if (x.hi < y.lo) return tTrue; if (x.lo >= y.hi) return tFalse; break;
    case P_LE: if (x.hi <= y.lo) return tTrue; if (x.lo > y.hi) return tFalse; break;
  }
  if ((p == P_LT || p == P_LE) && a->k != T_CONST && b->k != T_CONST) { Iv d = linDiff(a, b); if (p == P_LT) { if (d.hi < 0) return tTrue; if (d.lo >= 0) return tFalse; } else { if (d.hi <= 0) return tTrue; if (d.lo > 0) return tFalse; } }
  Term t = mkB(T_CMP); t.pr = p; t.a = a; t.b = b; t.inex = a->inex || b->inex; t.iv = {0, 1}; return cons(t);
}
TermP mkNot(TermP a) { if (isU(a)) return a; if (a == tTrue) return tFalse; if (a == tFalse) return tTrue; if (a->k == T_NOT) return a->a;
  if (a->k == T_CMP) { Term t = *a; if (a->pr == P_EQ) return mkCmp(P_NE, a->a, a->b); if (a->pr == P_NE) return mkCmp(P_EQ, a->a, a->b); if (a->pr == P_LT) return mkCmp(P_LE, a->b, a->a); return mkCmp(P_LT, a->b, a->a); }
  Term t = mkB(T_NOT); t.a = a; t.iv = {0, 1}; return cons(t); }
TermP mkAndB(TermP a, TermP b) { if (a == tFalse || b == tFalse) return tFalse; if (isU(a) || isU(b)) return tUndef; if (a == tTrue) return b; if (b == tTrue) return a; if (a == b) return a; Term t = mkB(T_AND); t.a = a; t.b = b; t.iv = {0, 1}; return cons(t); }
TermP mkOrB(TermP a, TermP b) { if (a == tTrue || b == tTrue) return tTrue; if (isU(a) || isU(b)) return tUndef; if (a == tFalse) return b; if (b == tFalse) return a; if (a == b) return a; Term t = mkB(T_OR); t.a = a; t.b = b; t.iv = {0, 1}; return cons(t); }
int decideIv(TermP c) {
  if (c == tTrue) return 1; if (c == tFalse) return 0;
  if (gConcretize) { int r = gEvalB(c); if (r >= 0) return r; }
  switch (c->k) {
    case T_NOT: { int r = decideIv(c->a); return r < 0 ? r : !r; }
    case T_AND: { int x = decideIv(c->a), y = decideIv(c->b); if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; return -1; }
    case T_OR: { int x = decideIv(c->a), y = decideIv(c->b); if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; return -1; }
    case T_CMP: {
      i128 u, v; if (tryConst(c->a, u) && tryConst(c->b, v)) { switch (c->pr) { case P_EQ: return u == v; case P_NE: return u != v; case P_LT: return u < v; default: return u <= v; } }
      TermP q = mkCmp(c->pr, c->a, c->b); if (q == tTrue) return 1; if (q == tFalse) return 0;
      if (c->pr == P_EQ || c->pr == P_NE) { PolyP d = pNorm(pAdd(clsOf(c->a), clsOf(c->b), -1)); bool eq = c->pr == P_EQ;
        if (pIsNonzeroMono(d)) return eq ? 0 : 1;
        if (d->isZero()) { if (!gP) return eq; Iv w = ivSub(ivOf(c->a), ivOf(c->b)); if (w.lo > -gP && w.hi < gP) return eq; } }
      { RMap r; CMap cm; if (!assumeB(c, true, r, cm)) return 0; } { RMap r; CMap cm; if (!assumeB(c, false, r, cm)) return 1; }
      return -1; }
    default: return -1;
  }
}
bool infeasible2(TermP c1, TermP c2) { RMap r; CMap cm; if (!assumeB(c1, true, r, cm)) return true; if (!assumeB(c2, true, r, cm)) return true; return false; }
// linear relation between a comparison and an arm of the select it guards: X = R + k (a - b) with the sign of a - b known
static Iv linArm1(TermP cd, bool v, TermP x) { Iv none{-IVINF, IVINF}; if (cd->k == T_NOT) return linArm1(cd->a, !v, x); if (cd->k != T_CMP || (cd->pr != P_LT && cd->pr != P_LE)) return none;
  Iv ia = ivOf(cd->a), ib = ivOf(cd->b); Iv L = ivSub(ia, ib); if (v) { i128 h = cd->pr == P_LT ? -1 : 0; if (L.hi > h) L.hi = h; } else { i128 l = cd->pr == P_LT ? 0 : 1; if (L.lo < l) L.lo = l; } if (L.lo > L.hi) return none;
  std::map<TermP, i128> lm, xm; i128 lc = 0, xc = 0; linOf(cd->a, 1, lm, lc); linOf(cd->b, -1, lm, lc); linOf(x, 1, xm, xc); i128 k = 0; for (auto& q : lm) if (q.second) { auto f = xm.find(q.first); if (f == xm.end() || f->second % q.second) return none; k = f->second / q.second; break; } if (k == 0 || k > 4 || k < -4) return none;
  for (auto& q : lm) xm[q.first] -= k * q.second; i128 lo = xc - k * lc, hi = lo; lo += k > 0 ? k * L.lo : k * L.hi; hi += k > 0 ? k * L.hi : k * L.lo;
  for (auto& q : xm) if (q.second) { Iv i = ivOf(q.first); if (i.lo <= -IVINF || i.hi >= IVINF || q.second > 1000 || q.second < -1000) return none; lo += q.second > 0 ? q.second * i.lo : q.second * i.hi; hi += q.second > 0 ? q.second * i.hi : q.second * i.lo; }
  return Iv{lo, hi}; }
static Iv linArm(TermP c, bool v, TermP x) { Iv r{-IVINF, IVINF}; for (int d : {1, 2, 3, 6}) { gLinDepth = d; r = ivMeet(r, linArm1(c, v, x)); } gLinDepth = 6; return r; }
TermP mkITE(TermP c, TermP x, TermP y) {
  if (isU(c)) return tUndef;
  int d = decideIv(c); if (d == 1) return x; if (d == 0) return y; if (x == y) return x;
  if (isU(x) || isU(y)) return nullptr; chk(x); chk(y);
  Term t = mkB(T_ITE); t.a = c; t.b = x; t.c = y; if (auto e = consHave(t)) return e;
  PolyP cx = clsOf(x), cy = clsOf(y); PolyP cls = nullptr;
  if (cx == cy && gP) cls = cx;
  else if (c->k == T_CMP && (c->pr == P_EQ || c->pr == P_NE)) {
    PolyP E = pNorm(pAdd(clsOf(c->a), clsOf(c->b), -1)), D = pNorm(pAdd(cx, cy, -1));
    bool prop = false; if (!E->isZero() && D->t.size() == E->t.size()) { if (gP) prop = pScale(E, cMul(D->t[0].second, modInv(E->t[0].second, gP))) == D; else prop = D == E || pScale(E, -1) == D; }
    if (prop) cls = c->pr == P_EQ ? cy : cx;
  }
  if (!cls) return nullptr;
  t.cls = cls; t.inex = x->inex || y->inex || c->inex;
  auto arm = [&](TermP a, bool v) -> Iv { RMap r; CMap cm; if (!assumeB(c, v, r, cm)) return Iv{1, 0}; return caseIv({a}, r, cm, [&](const RMap& r2, const CMap& c2) { return evalIv(a, r2, c2, 6); }); };
  Iv i1 = arm(x, true), i2 = arm(y, false); if (!i1.empty()) i1 = ivMeet(i1, linArm(c, true, x)); if (!i2.empty()) i2 = ivMeet(i2, linArm(c, false, y)); if (i1.empty() && !i2.empty()) return y; if (i2.empty() && !i1.empty()) return x;
  t.iv = ivJoin(i1, i2); if (t.iv.empty()) t.iv = {0, 0}; if (t.iv.single()) return mkConst(t.iv.lo);
  return cons(t);
}
TermP mkMin(TermP a, TermP b, bool mx) { TermP c = mkCmp(P_LT, a, b); return mx ? mkITE(c, b, a) : mkITE(c, a, b); }
TermP mkMask(TermP c, int w) { if (isU(c)) return c; Term t = mkB(T_MASK); t.a = c; t.w = w; t.iv = {-IVINF, IVINF}; return cons(t); }
TermP mkRawIte(TermP c, u128 xb, TermP xt, int xr, u128 yb, TermP yt, int yr, int w) { Term t = mkB(T_RAWITE); t.a = c; t.b = xt; t.c = yt; t.imm = (i128)xb; t.imm2 = (i128)yb; t.r1 = xr; t.r2 = yr; t.w = w; t.iv = {-IVINF, IVINF}; return cons(t); }

TermP gForkWhat = nullptr;
bool decide(TermP c) {
  int d = decideIv(c); if (d >= 0) return d;
  switch (c->k) {
    case T_UNDEF: throw Candidate("branch depends on uninitialised data");
    case T_NOT: return !decide(c->a);
    case T_AND: return decide(c->a) && decide(c->b);
    case T_OR: return decide(c->a) || decide(c->b);
    case T_ZB: return zDecide(c->z);
    case T_CMP: {
      if (gLIA) { int f = liaFeasible(c); if (f == 0) throw PathKill("infeasible"); bool b = f == 3 ? (gForkWhat = c, forkBool("integer order")) : f == 1; gForkWhat = nullptr; gOrd.push_back({c, b}); RMap r; CMap cm; if (!assumeB(c, b, r, cm)) throw PathKill("infeasible"); for (auto& x : r) { auto j = gRefine.find(x.first); if (j == gRefine.end()) gRefine[x.first] = x.second; else j->second = ivMeet(j->second, x.second); } return b; }
      auto refineTo = [&](bool v) -> bool { gOrd.push_back({c, v}); RMap r; CMap cm; if (!assumeB(c, v, r, cm)) return false; for (auto& x : r) { auto j = gRefine.find(x.first); if (j == gRefine.end()) gRefine[x.first] = x.second; else j->second = ivMeet(j->second, x.second); } return true; };
      if (c->pr == P_EQ || c->pr == P_NE) {
        bool eq = c->pr == P_EQ; PolyP E = pAdd(clsOf(c->a), clsOf(c->b), -1); Iv w = ivSub(ivOf(c->a), ivOf(c->b));
        bool exact = !gP || (w.lo > -gP && w.hi < gP);
        bool z = pDecideZero(E);
        if (!z) { refineTo(!eq); return !eq; }
        if (exact) { refineTo(eq); return eq; }
        // class zero but the integers may still differ: both possible
        bool b = forkBool("eq beyond modulus"); refineTo(b ? eq : !eq); return b ? eq : !eq;
      }
      gForkWhat = c; bool b = forkBool("order"); gForkWhat = nullptr; refineTo(b); return b; }
    default: throw Unsupported("branch on unsupported symbolic value kind " + std::to_string(c->k));
  }
}
std::string tStr(TermP t, int depth) {
  static const char* nm[] = {"const", "var", "+", "-", "*", "%", "/", "fdiv2", "ite", "inv", "opq", "floorq", "fmulc", "cmp", "not", "and", "or", "zb", "mask", "rawite", "undef", "z"};
  if (t == tTrue) return "true"; if (t == tFalse) return "false"; if (t->k == T_CONST) return i128s(t->imm); if (t->k == T_VAR || t->k == T_OPQ) return gVars[(size_t)t->imm].name;
  if (depth == 0) return "#" + std::to_string(t->id);
  std::string s = std::string("(") + nm[t->k]; if (t->k == T_CMP) s += std::to_string((int)t->pr); if (t->a) s += " " + tStr(t->a, depth - 1); if (t->b) s += " " + tStr(t->b, depth - 1); if (t->c) s += " " + tStr(t->c, depth - 1);
  if (t->k == T_REMT || t->k == T_DIVT || t->k == T_FDIV2) s += " " + i128s(t->imm); return s + ")";
}
TermP mkBoolInt(TermP c) { if (isU(c)) return c; int d = decideIv(c); if (d == 1) return mkConst(1); if (d == 0) return mkConst(0);
  Term t = mkB(T_ITE); t.a = c; t.b = mkConst(1); t.c = mkConst(0); if (auto e = consHave(t)) return e; t.iv = {0, 1}; t.inex = c->inex; uint32_t v = newVar("b" + std::to_string(gVars.size())); t.cls = pVar(v); return cons(t); }
