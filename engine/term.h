// Symbolic values of the engine: exact integer terms with interval and residue-class (Laurent polynomial over
// GF(P), or over Z when P==0), boolean terms, bit-vector terms (z3), masks.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <stdexcept>
typedef __int128 i128;
typedef unsigned __int128 u128;

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathKill : std::runtime_error { using std::runtime_error::runtime_error; };   // assume(false)
struct Candidate : std::runtime_error { using std::runtime_error::runtime_error; };  // candidate violation ends the path
struct Budget : std::runtime_error { using std::runtime_error::runtime_error; };

std::string i128s(i128 v);

// ---------------------------------------------------------------- polynomials
struct Poly {
  std::vector<std::pair<uint32_t, i128>> t;  // (monomial id, coefficient), sorted by id, no zero coef
  uint32_t id; size_t h;
  mutable uint32_t ver = 0; mutable const Poly* nf = nullptr;
  bool isZero() const { return t.empty(); }
};
typedef const Poly* PolyP;
struct VarInfo { std::string name; bool unit = false; PolyP subst = nullptr; bool undef=false; i128 lo=0, hi=-1; bool input=false; };
extern std::vector<VarInfo> gVars;
extern i128 gP;                 // modulus (0: integers)
extern uint32_t gSubstVer;
void setModulus(i128 p);
uint32_t newVar(const std::string& n, bool unit = false);
PolyP pConst(i128 c);
PolyP pVar(uint32_t v, int e = 1);
PolyP pAdd(PolyP a, PolyP b, int sb = 1);
PolyP pMul(PolyP a, PolyP b);
PolyP pScale(PolyP a, i128 c);
PolyP pNorm(PolyP a);
bool pIsConst(PolyP a, i128& c);     // a already normal
bool pIsUnitMono(PolyP a);           // single term, all vars units, coef invertible
PolyP pInvMono(PolyP a);
std::string pStr(PolyP a, size_t maxTerms = 12);
const std::vector<std::pair<uint32_t,int>>& monoOf(uint32_t id);
i128 modInv(i128 a, i128 p);
i128 coefNorm(i128 c);
// evaluate at concrete assignment of vars (mod P); assignment by var id
bool pEval(PolyP a, std::vector<i128>& val, i128& out);
// decide a == 0, forking when both are possible
bool pDecideZero(PolyP a); extern int gConcretize; PolyP pMakeUnit(PolyP a); bool splitAll();
struct Residual { PolyP p; bool zero; };
extern std::vector<Residual> gResid;
struct SubstRec { uint32_t var; PolyP def; };
extern std::vector<SubstRec> gSubsts;       // in order of introduction
extern std::vector<std::pair<PolyP,bool>> gPathConds;   // original decided polys

// ---------------------------------------------------------------- terms
struct Iv { i128 lo, hi; bool empty() const { return lo > hi; } bool has(i128 x) const { return lo <= x && x <= hi; }
  bool within(i128 a, i128 b) const { return lo >= a && hi <= b; } bool single() const { return lo == hi; } };
const i128 IVINF = ((i128)1) << 124;
enum TK : uint8_t { T_CONST, T_VAR, T_ADD, T_SUB, T_MUL, T_REMT, T_DIVT, T_FDIV2, T_ITE, T_INV, T_OPQ, T_FLOORQ,
  T_FMULC,                     // inexact fp product/quotient by a constant, only usable through floor
  T_CMP, T_NOT, T_AND, T_OR, T_ZB,   // booleans
  T_MASK, T_RAWITE, T_UNDEF, T_Z };
enum Pred : uint8_t { P_EQ, P_NE, P_LT, P_LE };
struct Term {
  TK k; Pred pr; uint8_t r1 = 0, r2 = 0;   // for RAWITE: representation of arms
  uint16_t w = 0;
  uint32_t id;
  const Term *a = nullptr, *b = nullptr, *c = nullptr;
  i128 imm = 0, imm2 = 0; double d = 0;
  Iv iv{0, 0}; PolyP cls = nullptr;
  void* z = nullptr;                 // Z3_ast
  bool inex = false;                 // depends on an inexact fp operation or wrapped integer
};
typedef const Term* TermP;
extern const Term *tTrue, *tFalse, *tUndef;
TermP mkConst(i128 v);
TermP mkVar(const std::string& name, i128 lo, i128 hi, bool input);
TermP mkAdd(TermP a, TermP b);
TermP mkSub(TermP a, TermP b);
TermP mkMul(TermP a, TermP b);
TermP mkRemT(TermP a, i128 m);       // C remainder
TermP mkDivT(TermP a, i128 m);       // C quotient
TermP mkFDiv2(TermP a, int k);       // floor(a / 2^k)
TermP mkFMod2(TermP a, int k);       // a - 2^k floor(a/2^k)
TermP mkInv(TermP a, i128 m);
TermP mkOpaque(const std::string& why, Iv iv, bool inex);
TermP mkFMulC(TermP a, double c, bool isdiv, bool isf32);
TermP mkFDivS(TermP a, TermP b, bool isf32); TermP mkDivS(TermP a, TermP b);
TermP mkFloor(TermP a, int mode);    // 0 floor 1 ceil 2 trunc 3 rint
TermP mkCmp(Pred p, TermP a, TermP b);
TermP mkNot(TermP a);
TermP mkAndB(TermP a, TermP b);
TermP mkOrB(TermP a, TermP b);
TermP mkITE(TermP c, TermP x, TermP y);   // null if classes cannot be merged
TermP mkMask(TermP c, int w);
TermP mkRawIte(TermP c, u128 xb, TermP xt, int xr, u128 yb, TermP yt, int yr, int w);
TermP mkMin(TermP a, TermP b, bool mx);
Iv ivOf(TermP t);
PolyP clsOf(TermP t);                // normalised class
bool tryConst(TermP t, i128& v);     // value determined on this path
int decideIv(TermP c);               // 1 true, 0 false, -1 unknown without forking
bool infeasible2(TermP c1, TermP c2);
bool decide(TermP c);                // forks
bool isBool(TermP t);
struct Refine { std::map<TermP, Iv> m; };
extern std::map<TermP, Iv> gRefine;
std::string tStr(TermP t, int depth = 4);
void termReset();
extern uint64_t nLemma; extern double lemmaTime;
extern TermP gForkWhat;
// implemented by the driver
extern bool gLIA; int liaFeasible(TermP);   // bit 0: may be true, bit 1: may be false
bool forkBool(const char* why);      // true in one process, false in the other
void noteInexact(const std::string& what);
bool zWithin(TermP t, i128 lo, i128 hi); // solver: t stays in the range under the order conditions of the path
extern std::vector<std::pair<TermP, bool>> gOrd;
int zDecide(void* zbool);            // decide z3 bool with forking -> 0/1
