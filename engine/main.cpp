// vse: symbolic execution of LLVM IR with SMT discharge.  usage: vse module.bc out.jsonl [opts]
#include "run.h"
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <semaphore.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <random>
#include <cstring>
#include <cmath>
#include <sstream>
#include <atomic>
#include <iostream>
#include <dlfcn.h>
using std::string;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Shared { std::atomic<uint64_t> forks, paths, killed, cands, unsup, budget, eqs, ranges, checks, z3q, z3unsat, z3sat, z3unk, z3skip, inst, merges, lemmas, obl, symin, reach, live, zeroTests; std::atomic<uint64_t> z3us; std::atomic<int> stop; std::atomic<uint64_t> models; std::atomic<uint64_t> candKinds; };
static Shared* S; static std::atomic<int>* gTokens; static int gOut; static double gDeadline; static uint64_t gMaxPaths = 200000, gMaxCands = 60, gSampleModels = 6; static uint64_t gSeed = 1; static std::map<string, long> gPreset; static bool gVerbose = false; static bool gUseZ3 = true;
static Interp* G; static std::vector<std::pair<string, long>> gChoices; static std::vector<string> gInex; static string gTag;
struct Obl { PolyP a, b; string label; }; static std::vector<Obl> gObl; struct RObl { TermP t; i128 lo, hi; string label; }; static std::vector<RObl> gRObl;
static bool gTokenMine = false; static uint64_t gLocalForks = 0; static std::vector<PolyP> gSpec;
struct InRec { string name; long idx; uint32_t var; i128 lo, hi; TermP t; bool isconst; i128 cval; }; static std::vector<InRec> gIns;
static string jesc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void emit(const string& s) { string l = s + "\n"; flock(gOut, LOCK_EX); ssize_t w = write(gOut, l.data(), l.size()); (void)w; flock(gOut, LOCK_UN); }
static void onAlarm(int) { S->z3unk++; int stt; while (waitpid(-1, &stt, 0) > 0) {} if (gTokenMine) gTokens->fetch_add(1); _exit(0); }
static void finishProc(int code) { alarm(0); int stt; while (waitpid(-1, &stt, 0) > 0) {} if (gTokenMine) gTokens->fetch_add(1); _exit(code); }
void Interp::tick() { if (S->stop.load()) throw Budget("stopped"); if (now() > gDeadline) { S->stop = 1; throw Budget("wall-clock deadline"); } }
bool forkBool(const char* why) {
  if (G->inSpec) throw NeedFork();
  if (S->stop.load() || now() > gDeadline) throw Budget("deadline at fork");
  if (S->forks.fetch_add(1) > gMaxPaths) { S->stop = 1; throw Budget("path limit"); }
  static const bool flog = getenv("VSE_FORKLOG") != nullptr; if (flog) emit(string("{\"kind\":\"fork\",\"why\":\"") + why + "\",\"where\":\"" + jesc(G->backtrace()) + "\",\"what\":\"" + jesc(gForkWhat ? tStr(gForkWhat, 5) : "") + "\"}");
  int t = gTokens->fetch_sub(1); bool par = t > 0; if (!par) gTokens->fetch_add(1);
  pid_t p = fork(); if (p < 0) { if (par) gTokens->fetch_add(1); throw Budget("fork failed"); }
  if (p == 0) { gTokenMine = par; return true; }
  if (!par) { int stt; waitpid(p, &stt, 0); if (WIFSIGNALED(stt)) { S->unsup++; emit("{\"kind\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(stt)) + ",\"tag\":\"" + gTag + "\"}"); } }
  return false; }
void noteInexact(const string& w) { if (gInex.size() < 8) gInex.push_back(w); }
static z3::context* Z; 
int zDecide(void*) { throw Unsupported("z3 boolean"); }
// ---------------------------------------------------------------- models
static std::mt19937_64 RNG;
static bool genAssign(int mode, std::vector<i128>& val, std::vector<i128>& in, const std::map<uint32_t, i128>* fixed = nullptr) {
  size_t n = gVars.size(); val.assign(n, 0); std::vector<char> st(n, 0); std::map<uint32_t, InRec*> byVar; for (auto& r : gIns) if (!r.isconst) byVar[r.var] = &r;
  auto rnd = [&](i128 lo, i128 hi) -> i128 { u128 w = (u128)(hi - lo) + 1; if (w == 0) return lo; u128 x = ((u128)RNG() << 64) | RNG(); return lo + (i128)(x % w); };
  std::function<bool(uint32_t)> ev = [&](uint32_t v) -> bool {
    if (st[v] == 2) return true; if (st[v] == 1) return false; st[v] = 1;
    if (gVars[v].subst) { PolyP s = gVars[v].subst; for (auto& x : s->t) for (auto& m : monoOf(x.first)) if (!ev(m.first)) return false; i128 o; if (!pEval(s, val, o)) return false; val[v] = o; st[v] = 2; return true; }
    i128 lo, hi; auto it = byVar.find(v); if (it != byVar.end()) { Iv q = ivOf(it->second->t); lo = std::max(it->second->lo, q.lo); hi = std::min(it->second->hi, q.hi); if (lo > hi) return false; } else { lo = gVars[v].unit ? 1 : 0; hi = gP ? gP - 1 : 1000; if (hi < lo) hi = lo; }
    if (fixed) { auto f = fixed->find(v); if (f != fixed->end()) { i128 c = f->second; if (it != byVar.end() && gP) { c = coefNorm(c); i128 k = lo + (((c - lo) % gP) + gP) % gP; if (k > hi) return false; c = k; } val[v] = c; st[v] = 2; return true; } }
    i128 x; switch (mode) { case 0: x = hi; break; case 1: x = lo; break; case 2: x = std::min(hi, lo + 1); break; case 3: x = (RNG() & 1) ? hi : lo; break; case 4: x = (RNG() & 3) ? hi : rnd(lo, hi); break; case 5: x = rnd(lo, std::min(hi, lo + 2)); break; default: x = rnd(lo, hi); }
    if (gVars[v].unit && gP && coefNorm(x) == 0) x = hi > lo ? (x == hi ? lo + 1 : x + 1) : x; val[v] = x; st[v] = 2; return true; };
  for (size_t v = 0; v < n; v++) if (!ev(v)) return false;
  in.clear();
  for (auto& r : gIns) { if (r.isconst) { in.push_back(r.cval); continue; } i128 x = val[r.var]; if (gVars[r.var].subst) { if (gP) { x = coefNorm(x); Iv q = ivOf(r.t); i128 lo = std::max(r.lo, q.lo), hi = std::min(r.hi, q.hi); i128 k = lo + (((x - lo) % gP) + gP) % gP; if (k > hi) return false; x = k; if (mode != 1 && mode != 5) { i128 nrep = (hi - k) / gP; if (mode == 0) x = k + nrep * gP; else if (nrep > 0) x = k + rnd(0, nrep) * gP; } } if (x < r.lo || x > r.hi) return false; } in.push_back(x); }
  return true; }
static bool residOk(std::vector<i128>& val) { for (auto& r : gResid) { i128 o; bool known = true; for (auto& x : r.p->t) for (auto& m : monoOf(x.first)) if (!gVars[m.first].input && !gVars[m.first].unit && !gVars[m.first].subst) known = false; if (!known) continue; if (!pEval(r.p, val, o)) return false; if ((coefNorm(o) == 0) != r.zero) return false; } return true; }
static string inputsJson(const std::vector<i128>& in) { string s = "{"; for (size_t i = 0; i < gIns.size(); i++) { if (i) s += ","; s += "\"" + gIns[i].name + "#" + std::to_string(gIns[i].idx) + "\":" + i128s(in[i]); } return s + "}"; }
static string choicesJson() { string s = "{"; for (size_t i = 0; i < gChoices.size(); i++) { if (i) s += ","; s += "\"" + gChoices[i].first + "\":" + std::to_string(gChoices[i].second); } return s + "}"; }
// z3 encodings
static std::map<uint32_t, z3::expr> gZV;
static z3::expr zvar(uint32_t v) { auto it = gZV.find(v); if (it != gZV.end()) return it->second; z3::expr e = Z->int_const(("v" + std::to_string(v)).c_str()); gZV.emplace(v, e); return e; }
static z3::expr zconst(i128 c) { return Z->int_val(i128s(c).c_str()); }
static z3::expr zpoly(const std::vector<std::pair<uint32_t, i128>>& t, const std::map<uint32_t, int>& clear) {
  z3::expr_vector sum(*Z); for (auto& x : t) { i128 c = x.second; if (gP && c > gP / 2) c -= gP; std::map<uint32_t, int> e = clear; for (auto& m : monoOf(x.first)) e[m.first] += m.second; z3::expr_vector pr(*Z); pr.push_back(zconst(c)); for (auto& y : e) for (int k = 0; k < y.second; k++) pr.push_back(zvar(y.first)); z3::expr p = pr[0]; if (pr.size() > 1) { p = z3::expr(*Z, Z3_mk_mul(*Z, pr.size(), [&] { static std::vector<Z3_ast> a; a.clear(); for (unsigned i = 0; i < pr.size(); i++) a.push_back(pr[i]); return a.data(); }())); } sum.push_back(p); }
  if (sum.size() == 0) return zconst(0); if (sum.size() == 1) return sum[0]; return z3::sum(sum); }
static void clearOf(PolyP p, std::map<uint32_t, int>& c) { for (auto& x : p->t) for (auto& m : monoOf(x.first)) if (m.second < 0) c[m.first] = std::max(c[m.first], -m.second); }
static int zCheck(z3::solver& s) { double t0 = now(); S->z3q++; z3::check_result r; alarm(12); try { r = s.check(); } catch (z3::exception& e) { r = z3::unknown; } alarm(0); S->z3us += (uint64_t)((now() - t0) * 1e6); if (r == z3::unsat) { S->z3unsat++; return 0; } if (r == z3::sat) { S->z3sat++; return 1; } S->z3unk++; return 2; }
static z3::solver mkSolver(unsigned rl) { z3::solver s(*Z); z3::params p(*Z); p.set("rlimit", rl); p.set("timeout", 4000u); s.set(p); return s; }
// term DAG -> z3 linear integer encoding (nonlinear products and opaque quotients abstracted by their ranges)
static std::map<TermP, z3::expr> gZT; static bool gZNonlin = false; static int gZWithinN = 0;
static z3::expr zterm(TermP t, z3::solver& s, int depth = 0);
static z3::expr zbool(TermP c, z3::solver& s, int depth = 0) { auto zterm = [&](TermP x, z3::solver& q) { return ::zterm(x, q, depth + 1); }; auto zbool = [&](TermP x, z3::solver& q) { return ::zbool(x, q, depth + 1); }; if (c == tTrue) return Z->bool_val(true); if (c == tFalse) return Z->bool_val(false); switch (c->k) { case T_NOT: return !zbool(c->a, s); case T_AND: return zbool(c->a, s) && zbool(c->b, s); case T_OR: return zbool(c->a, s) || zbool(c->b, s); case T_CMP: { z3::expr a = zterm(c->a, s), b = zterm(c->b, s); return c->pr == P_EQ ? a == b : c->pr == P_NE ? a != b : c->pr == P_LT ? a < b : a <= b; } default: return Z->bool_const(("bb" + std::to_string(c->id)).c_str()); } }
static z3::expr zterm(TermP t, z3::solver& s, int depth) {
  auto it = gZT.find(t); if (it != gZT.end()) return it->second; if (t->k == T_CONST) return zconst(t->imm);
  auto fresh = [&]() { z3::expr e = Z->int_const(("t" + std::to_string(t->id)).c_str()); Iv i = ivOf(t); s.add(e >= zconst(i.lo)); s.add(e <= zconst(i.hi)); return e; };
  z3::expr r(*Z);
  auto zterm = [&](TermP x, z3::solver& q) { return ::zterm(x, q, depth + 1); }; auto zbool = [&](TermP x, z3::solver& q) { return ::zbool(x, q, depth + 1); };
  if (!gLIA && (depth >= 7 || (t->k == T_REMT && depth > 0) || t->k == T_DIVT || t->k == T_FDIV2)) { r = fresh(); gZT.emplace(t, r); return r; }
  switch (t->k) {
    case T_ADD: r = zterm(t->a, s) + zterm(t->b, s); break; case T_SUB: r = zterm(t->a, s) - zterm(t->b, s); break;
    case T_MUL: if (t->a->k == T_CONST || t->b->k == T_CONST || gZNonlin || gLIA) r = zterm(t->a, s) * zterm(t->b, s); else r = fresh(); break;
    case T_REMT: { z3::expr a = zterm(t->a, s), m = zconst(t->imm); z3::expr q = Z->int_const(("q" + std::to_string(t->id)).c_str()); r = a - q * m; s.add(z3::implies(a >= 0, r >= 0 && r < m)); s.add(z3::implies(a <= 0, r <= 0 && r > -m)); break; }
    case T_DIVT: if (t->b) { r = fresh(); break; } { z3::expr a = zterm(t->a, s); i128 m = t->imm; z3::expr q = z3::ite(a >= 0, a / zconst(m < 0 ? -m : m), -((-a) / zconst(m < 0 ? -m : m))); r = m < 0 ? -q : q; break; }
    case T_FDIV2: r = zterm(t->a, s) / zconst((i128)1 << (int)t->imm); break;
    case T_ITE: r = z3::ite(zbool(t->a, s), zterm(t->b, s), zterm(t->c, s)); break;
    case T_FLOORQ: r = fresh(); if (gZNonlin && !t->b && t->imm == 1 && t->d > 0 && t->d == std::floor(t->d) && (t->w == 0 || t->w == 2) && ivOf(t->a).lo >= 0) { z3::expr x = zterm(t->a, s), m = zconst((i128)t->d); s.add(m * r <= x && x < m * r + m); } break;
    default: r = fresh(); }
  if ((t->k == T_ADD || t->k == T_SUB)) { bool fq = false; for (TermP x : {t->a, t->b}) if (x->k == T_MUL && (x->a->k == T_FLOORQ || x->b->k == T_FLOORQ)) fq = true; if (fq) { z3::expr e = fresh(); s.add(e == r); r = e; } }
  gZT.emplace(t, r); return r; }
bool zWithin(TermP t, i128 lo, i128 hi) {
  if (!gUseZ3 || G->inSpec || gOrd.empty() || gZWithinN++ > 6) return false; static std::map<std::pair<TermP, size_t>, bool> memo; auto key = std::make_pair(t, gOrd.size()); auto it = memo.find(key); if (it != memo.end()) return it->second;
  int pp[2]; if (pipe(pp)) return false; double t0 = now(); pid_t p = fork(); if (p < 0) return false;
  if (p == 0) { char c = 'u'; signal(SIGALRM, SIG_DFL); alarm(6); try { gZNonlin = true; gZT.clear(); z3::solver s(*Z); z3::params pr(*Z); pr.set("timeout", 700u); s.set(pr); z3::expr e = zterm(t, s); for (auto& o : gOrd) { z3::expr b = zbool(o.first, s); s.add(o.second ? b : !b); } for (auto& r : gRefine) if (gZT.count(r.first)) { z3::expr x = zterm(r.first, s); s.add(x >= zconst(r.second.lo) && x <= zconst(r.second.hi)); } s.add(e < zconst(lo) || e > zconst(hi)); z3::check_result r = s.check(); c = r == z3::unsat ? 'y' : r == z3::sat ? 'n' : 'u'; } catch (...) {} ssize_t w = write(pp[1], &c, 1); (void)w; _exit(0); }
  close(pp[1]); char c = 'u'; ssize_t w = read(pp[0], &c, 1); (void)w; close(pp[0]); int st; waitpid(p, &st, 0); S->z3q++; S->z3us += (uint64_t)((now() - t0) * 1e6); if (c == 'y') S->z3unsat++; else if (c == 'n') S->z3sat++; else S->z3unk++; memo[key] = c == 'y'; return c == 'y'; }
// pure integer mode (loop splitters): every branch condition is decided by the solver under the path's conditions
static void liaAssume(z3::solver& s) { for (auto& o : gOrd) { z3::expr b = zbool(o.first, s); s.add(o.second ? b : !b); } }
int liaFeasible(TermP c) { int f = 0; for (int v = 0; v < 2; v++) { z3::solver s = mkSolver(8000000); gZT.clear(); liaAssume(s); z3::expr b = zbool(c, s); s.add(v ? b : !b); if (zCheck(s) != 0) f |= v ? 1 : 2; } gZT.clear(); return f; }
static bool liaModel(std::vector<i128>& in) { z3::solver s = mkSolver(20000000); gZT.clear(); liaAssume(s); std::vector<z3::expr> e; for (auto& q : gIns) e.push_back(q.isconst ? zconst(q.cval) : zterm(q.t, s)); if (zCheck(s) != 1) return false; z3::model m = s.get_model(); in.clear(); for (auto& x : e) { z3::expr v = m.eval(x, true); i128 n = 0; bool neg = false; for (char ch : v.get_decimal_string(0)) { if (ch == '-') neg = true; else if (ch >= '0' && ch <= '9') n = n * 10 + (ch - '0'); } in.push_back(neg ? -n : n); } gZT.clear(); return true; }
static string gZ3Note;
static bool dischargePath() {
  if (!gUseZ3) return true;
  // 1. value obligations: for all values of the path variables, impl == spec (mod P)
  size_t i = 0; bool ok = true;
  while (i < gObl.size()) { size_t terms = 0; z3::solver s = mkSolver(3000000); z3::expr_vector ors(*Z); size_t j = i;
    for (; j < gObl.size() && (terms < 1500 || j == i); j++) { PolyP a = pNorm(gObl[j].a), b = pNorm(gObl[j].b); terms += a->t.size() + b->t.size(); if (a->t.size() + b->t.size() > 4000) { S->z3skip++; continue; } std::map<uint32_t, int> c; clearOf(a, c); clearOf(b, c); z3::expr d = zpoly(a->t, c) - zpoly(b->t, c); if (gP) ors.push_back(z3::mod(d, zconst(gP)) != 0); else ors.push_back(d != 0); }
    if (ors.size()) { s.add(z3::mk_or(ors)); int r = zCheck(s); if (r == 1) { ok = false; gZ3Note = "solver disagrees with the normal form"; } }
    i = j; }
  // 2. range obligations over the integer term DAG
  i = 0; while (i < gRObl.size()) { z3::solver s = mkSolver(4000000); gZT.clear(); z3::expr_vector ors(*Z); size_t j = i; for (; j < gRObl.size() && j < i + 24; j++) { auto& o = gRObl[j]; z3::expr e = zterm(o.t, s); ors.push_back(e < zconst(o.lo) || e > zconst(o.hi)); } for (auto& r : gRefine) { if (r.first->k == T_VAR) { z3::expr e = zterm(r.first, s); s.add(e >= zconst(r.second.lo) && e <= zconst(r.second.hi)); } } s.add(z3::mk_or(ors)); int zr = zCheck(s); if (zr == 1) { S->z3sat--; S->z3unk++; } if (zr == 1 && gVerbose) { fprintf(stderr, "range sat: %s\n", gRObl[i].label.c_str()); fprintf(stderr, "%s\n", tStr(gRObl[i].t, 7).c_str()); } i = j; }
  gZT.clear(); return ok; }
static void emitCandidate(const string& msg, PolyP diff, bool budget = false) {
  if (S->cands.fetch_add(1) > gMaxCands) return;
  std::vector<string> sets; std::vector<i128> val, in, sval; bool got = false;
  if (getenv("VSE_DBG")) for (auto& o : gOrd) fprintf(stderr, "  ord %d %s\n", (int)o.second, tStr(o.first, 7).substr(0, 300).c_str());
  int want = 14; if (gLIA && gUseZ3) { want = 0; if (liaModel(in)) sets.push_back(inputsJson(in)); }
  for (int tries = 0; tries < 400 && (int)sets.size() < want; tries++) { int mode = tries < 6 ? tries : (tries % 4 == 0 ? 3 : tries % 4 == 1 ? 4 : tries % 4 == 2 ? 5 : 7); if (!genAssign(mode, val, in)) continue; if (!residOk(val)) continue;
    if (diff) { PolyP d = pNorm(diff); bool known = true; for (auto& x : d->t) for (auto& m : monoOf(x.first)) if (!gVars[m.first].input && !gVars[m.first].unit && !gVars[m.first].subst) known = false; if (known) { i128 o; if (!pEval(d, val, o)) continue; if (coefNorm(o) == 0 && tries < 350) continue; } }
    string s = inputsJson(in); if (!got) { sval = val; got = true; } bool dup = false; for (auto& q : sets) if (q == s) dup = true; if (!dup) sets.push_back(s); }
  string head; string s = "{\"kind\":\"cand\",\"budget\":" + string(budget ? "true" : "false") + ",\"msg\":\"" + jesc(msg) + "\",\"tag\":\"" + gTag + "\",\"choices\":" + choicesJson() + ",\"inex\":["; for (size_t i = 0; i < gInex.size(); i++) s += string(i ? "," : "") + "\"" + jesc(gInex[i]) + "\""; s += "],\"inputs\":["; head = s; for (size_t i = 0; i < sets.size(); i++) s += (i ? "," : "") + sets[i]; s += "]}"; emit(s);
  if (diff && gP && gUseZ3 && got) { // ask the solver for a distinguishing assignment of (up to) two variables, the others fixed by the sample
    PolyP d = pNorm(diff); if (d->t.size() < 400) { z3::solver sv = mkSolver(2000000); std::map<uint32_t, int> c; clearOf(d, c); z3::expr e = zpoly(d->t, c); sv.add(z3::mod(e, zconst(gP)) != 0); std::set<uint32_t> vs; for (auto& x : d->t) for (auto& m : monoOf(x.first)) vs.insert(m.first); int fr = 0; for (uint32_t v : vs) { if (fr++ < 2) { sv.add(zvar(v) >= (gVars[v].unit ? 1 : 0)); sv.add(zvar(v) <= zconst(gP - 1)); } else sv.add(zvar(v) == zconst(coefNorm(sval[v]))); }
      if (zCheck(sv) == 1) { z3::model m = sv.get_model(); std::map<uint32_t, i128> fx; for (uint32_t v : vs) { z3::expr e2 = m.eval(zvar(v), true); if (e2.is_numeral()) { i128 x = 0; bool neg = false; for (char ch : e2.get_decimal_string(0)) { if (ch == '-') neg = true; else if (ch >= '0' && ch <= '9') x = x * 10 + (ch - '0'); } fx[v] = neg ? -x : x; } } for (int k = 0; k < 6; k++) if (genAssign(k == 0 ? 5 : 6 + k, val, in, &fx)) { emit(head + inputsJson(in) + "]}"); break; } } } } }
struct Failed { string msg; PolyP diff; };
static void violate(const string& msg, PolyP diff) { throw Failed{msg, diff}; }
// ---------------------------------------------------------------- spec API
static PolyP specOf(Val v, uint8_t r, unsigned w, const char* what) {
  if (v.t) { if (v.t == tUndef) throw Candidate(string("result depends on uninitialised memory: ") + what); double d; TermP t = r ? G->fpTerm(v, r == 1, d) : G->asSigned(v, w); if (t->k == T_FMULC) throw Unsupported("fractional result"); return clsOf(t); }
  if (r) { double d; if (r == 1) { float f; uint32_t u = v.lo; memcpy(&f, &u, 4); d = f; } else memcpy(&d, &v.lo, 8); if (d != std::floor(d) || std::fabs(d) > 1e30) throw Candidate(string("result is not an integer: ") + what); return pConst((i128)d); }
  return pConst(w == 64 ? (i128)(int64_t)v.lo : (i128)(int32_t)v.lo); }
static uint64_t putSpec(PolyP p) { gSpec.push_back(p); return gSpec.size() - 1; }
static PolyP getSpec(Val v) { if (v.t || v.lo >= gSpec.size()) throw Unsupported("bad spec handle"); return pNorm(gSpec[v.lo]); }
static Val VI(uint64_t x) { Val v; v.lo = x; return v; }
static void symIn(Interp& I, DInst& D, Val* r, int rep) {
  string name = I.cstr(I.arg(D, 0).lo); long idx = (long)I.conc(I.arg(D, 1), 64, true, "idx"); i128 lo = I.conc(I.arg(D, 2), 64, true, "lo"), hi = I.conc(I.arg(D, 3), 64, true, "hi"); S->symin++;
  InRec q; q.name = name; q.idx = idx; q.lo = lo; q.hi = hi; q.isconst = lo == hi; q.cval = lo; q.var = 0; q.t = nullptr; Val v; v.r = rep;
  if (lo == hi) { if (rep == 2) { double d = (double)lo; memcpy(&v.lo, &d, 8); } else if (rep == 1) { float f = (float)lo; uint32_t u; memcpy(&u, &f, 4); v.lo = u; } else v.lo = (uint64_t)lo; }
  else { TermP t = mkVar(name + "[" + std::to_string(idx) + "]", lo, hi, true); q.var = (uint32_t)t->imm; q.t = t; v.t = t; }
  gIns.push_back(q); r[0] = v; }
void installSpec(Interp& I) {
  auto& H = I.handlers;
  H["vs_integers"] = [](Interp& I, DInst& D, Val*) { gLIA = true; };
  H["vs_modulus"] = [](Interp& I, DInst& D, Val*) { setModulus(I.conc(I.arg(D, 0), 64, true, "modulus")); };
  H["vs_f64"] = [](Interp& I, DInst& D, Val* r) { symIn(I, D, r, 2); }; H["vs_f32"] = [](Interp& I, DInst& D, Val* r) { symIn(I, D, r, 1); }; H["vs_i64"] = [](Interp& I, DInst& D, Val* r) { symIn(I, D, r, 0); };
  H["vs_choose"] = [](Interp& I, DInst& D, Val* r) { string n = I.cstr(I.arg(D, 0).lo); long lo = (long)I.conc(I.arg(D, 1), 64, true, "lo"), hi = (long)I.conc(I.arg(D, 2), 64, true, "hi"); auto it = gPreset.find(n); long v; if (it != gPreset.end()) { v = it->second; if (v < lo || v > hi) throw PathKill("preset outside range"); } else { if (lo > hi) throw PathKill("empty choice"); v = lo; while (v < hi && !forkBool("choice")) v++; } gChoices.push_back({n, v}); r[0] = VI((uint64_t)v); };
  H["vs_symbolic"] = [](Interp&, DInst&, Val* r) { r[0] = VI(1); };
  H["vs_assume"] = [](Interp& I, DInst& D, Val*) { Val c = I.arg(D, 0); bool b; if (c.t) { TermP t = isBool(c.t) ? c.t : mkCmp(P_NE, I.asSigned(c, 32), mkConst(0)); b = decide(t); } else b = c.lo != 0; if (!b) throw PathKill("assume"); };
  H["vs_of_f64"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(specOf(I.arg(D, 0), 2, 64, I.cstr(I.arg(D, 1).lo).c_str()))); }; H["vs_of_f32"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(specOf(I.arg(D, 0), 1, 32, I.cstr(I.arg(D, 1).lo).c_str()))); }; H["vs_of_i64"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(specOf(I.arg(D, 0), 0, 64, I.cstr(I.arg(D, 1).lo).c_str()))); };
  H["vs_const"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(pConst(I.conc(I.arg(D, 0), 64, true, "const")))); };
  H["vs_add"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(pAdd(getSpec(I.arg(D, 0)), getSpec(I.arg(D, 1))))); }; H["vs_sub"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(pAdd(getSpec(I.arg(D, 0)), getSpec(I.arg(D, 1)), -1))); }; H["vs_mul"] = [](Interp& I, DInst& D, Val* r) { r[0] = VI(putSpec(pMul(getSpec(I.arg(D, 0)), getSpec(I.arg(D, 1))))); };
  H["vs_inv"] = [](Interp& I, DInst& D, Val* r) { PolyP p = getSpec(I.arg(D, 0)); if (!gP) throw Unsupported("inverse over Z"); if (pDecideZero(p)) throw Candidate("specification divides by zero"); p = pMakeUnit(p); if (pIsUnitMono(p)) { r[0] = VI(putSpec(pInvMono(p))); return; } uint32_t y = newVar("sinv" + std::to_string(gVars.size()), true); gResid.push_back({pAdd(pMul(pVar(y), p), pConst(1), -1), true}); r[0] = VI(putSpec(pVar(y))); };
  H["vs_iszero"] = [](Interp& I, DInst& D, Val* r) { S->zeroTests++; r[0] = VI(pDecideZero(getSpec(I.arg(D, 0)))); };
  H["vs_eq"] = [](Interp& I, DInst& D, Val*) { PolyP a = getSpec(I.arg(D, 0)), b = getSpec(I.arg(D, 1)); S->eqs++; PolyP d = pNorm(pAdd(a, b, -1)); string lab = I.cstr(I.arg(D, 2).lo) + "[" + std::to_string((long)I.arg(D, 3).lo) + "," + std::to_string((long)I.arg(D, 4).lo) + "]"; if (!d->isZero()) { bool z = false; for (auto& rs : gResid) if (rs.zero && pNorm(rs.p) == d) z = true; if (!z && getenv("VSE_DBG")) { fprintf(stderr, "DBG %s\n", lab.c_str()); for (auto& pc : gPathConds) fprintf(stderr, "  pc %d %s\n", (int)pc.second, pStr(pc.first).substr(0, 200).c_str()); for (auto& o : gOrd) fprintf(stderr, "  ord %d %s\n", (int)o.second, tStr(o.first, 5).substr(0, 300).c_str()); } if (!z && gConcretize) { splitAll(); d = pNorm(d); z = d->isZero(); if (!z) for (auto& rs : gResid) if (rs.zero && pNorm(rs.p) == d) z = true; } if (!z) violate("value differs: " + lab + " impl-spec = " + pStr(d, 5), d); } gObl.push_back({a, b, lab}); };
  auto range = [](Interp& I, DInst& D, int rep) { Val v = I.arg(D, 0); i128 lo = I.conc(I.arg(D, 1), 64, true, "lo"), hi = I.conc(I.arg(D, 2), 64, true, "hi"); string lab = I.cstr(I.arg(D, 3).lo) + "[" + std::to_string((long)I.arg(D, 4).lo) + "," + std::to_string((long)I.arg(D, 5).lo) + "]"; S->ranges++; if (v.t == tUndef) violate("uninitialised result " + lab, nullptr); double d; TermP t; if (rep) { t = I.fpTerm(v, rep == 1, d); if (!t || t->k == T_FMULC) violate("non-integer result " + lab, nullptr); } else t = v.t ? I.asSigned(v, 64) : mkConst((int64_t)v.lo); i128 c; if (tryConst(t, c)) { if (c < lo || c > hi) violate("result out of range " + lab + " = " + i128s(c), nullptr); return; } Iv q = ivOf(t); if (!q.within(lo, hi)) { bool ok = decideIv(mkAndB(mkCmp(P_LE, mkConst(lo), t), mkCmp(P_LE, t, mkConst(hi)))) == 1; if (!ok) ok = zWithin(t, lo, hi); if (!ok) { splitAll(); if (tryConst(t, c)) { if (c < lo || c > hi) violate("result out of range " + lab + " = " + i128s(c), nullptr); return; } } if (!ok) violate("result may be out of range " + lab + ": [" + i128s(q.lo) + "," + i128s(q.hi) + "] " + tStr(t, 6) + " cond " + (t->k == T_ITE && t->a->k == T_CMP ? tStr(t->a->a, 6) : tStr(t->a,7)), nullptr); } gRObl.push_back({t, lo, hi, lab}); };
  H["vs_range_f64"] = [range](Interp& I, DInst& D, Val*) { range(I, D, 2); }; H["vs_range_f32"] = [range](Interp& I, DInst& D, Val*) { range(I, D, 1); }; H["vs_range_i64"] = [range](Interp& I, DInst& D, Val*) { range(I, D, 0); };
  H["vs_check"] = [](Interp& I, DInst& D, Val*) { Val c = I.arg(D, 0); S->checks++; string lab = I.cstr(I.arg(D, 1).lo); bool b; if (c.t) { if (c.t == tUndef) violate("check on uninitialised data: " + lab, nullptr); TermP t = isBool(c.t) ? c.t : mkCmp(P_NE, I.asSigned(c, 32), mkConst(0)); b = decide(t); } else b = (c.lo & 0xffffffff) != 0; if (!b) { splitAll(); violate("check failed: " + lab, nullptr); } };
  H["vs_check2"] = [](Interp& I, DInst& D, Val*) { Val c = I.arg(D, 0); S->checks++; string lab = I.cstr(I.arg(D, 1).lo) + "[" + std::to_string((long)I.arg(D, 2).lo) + "," + std::to_string((long)I.arg(D, 3).lo) + "]"; bool b; if (c.t) { if (c.t == tUndef) violate("check on uninitialised data: " + lab, nullptr); TermP t = isBool(c.t) ? c.t : mkCmp(P_NE, I.asSigned(c, 32), mkConst(0)); b = decide(t); } else b = (c.lo & 0xffffffff) != 0; if (!b) { splitAll(); violate("check failed: " + lab, nullptr); } };
  auto same = [](Interp& I, DInst& D, int rep) { Val a = I.arg(D, 0), b = I.arg(D, 1); string lab = I.cstr(I.arg(D, 2).lo) + "[" + std::to_string((long)I.arg(D, 3).lo) + "," + std::to_string((long)I.arg(D, 4).lo) + "]"; S->checks++; if (a.t == b.t && (a.t || a.lo == b.lo)) return; if (a.t == tUndef || b.t == tUndef) violate("uninitialised where a preserved value is expected: " + lab, nullptr); double d; TermP x = rep ? I.fpTerm(a, rep == 1, d) : I.asSigned(a, 64), y = rep ? I.fpTerm(b, rep == 1, d) : I.asSigned(b, 64); if (!x || !y) violate("value changed: " + lab, nullptr); PolyP df = pNorm(pAdd(clsOf(x), clsOf(y), -1)); if (!df->isZero() && gConcretize) { splitAll(); i128 xv, yv; if (tryConst(x, xv) && tryConst(y, yv) && xv == yv) return; df = pNorm(df); } if (!df->isZero()) violate("value changed: " + lab, df); Iv i = ivOf(x), j = ivOf(y); if (gP && !(i.hi - j.lo < gP && j.hi - i.lo < gP)) violate("representation changed: " + lab, nullptr); gObl.push_back({clsOf(x), clsOf(y), lab}); };
  H["vs_same_f64"] = [same](Interp& I, DInst& D, Val*) { same(I, D, 2); }; H["vs_same_f32"] = [same](Interp& I, DInst& D, Val*) { same(I, D, 1); }; H["vs_same_i64"] = [same](Interp& I, DInst& D, Val*) { same(I, D, 0); };
  H["vs_reach"] = [](Interp& I, DInst& D, Val*) { S->reach++; };
  H["vs_log"] = [](Interp& I, DInst& D, Val*) { if (gVerbose) { Val v = I.arg(D, 1); fprintf(stderr, "LOG %s %s\n", I.cstr(I.arg(D, 0).lo).c_str(), v.t ? tStr(v.t, 3).c_str() : std::to_string((long)v.lo).c_str()); } };
}
// memory handed to native code by the program may be released by native code
void operator delete(void* p) noexcept { if ((uint64_t)p >= 0x100000000000ull && (uint64_t)p < 0x100000000000ull + (24ull << 30)) return; free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
int main(int argc, char** argv) {
  if (argc == 4 && string(argv[1]) == "addtok") { int fd = open(argv[2], O_RDWR); auto* t = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (t == MAP_FAILED) return 3; t->fetch_add(atoi(argv[3])); return 0; }
  string mod = argv[1], out = argv[2], tokFile; double tmo = 120; int tok = 8; string entry = "vs_main"; uint64_t maxInst = 300000000ull;
  for (int i = 3; i < argc; i++) { string a = argv[i]; auto eq = a.find('='); string k = a.substr(0, eq), v = eq == string::npos ? "" : a.substr(eq + 1);
    if (k == "--time") tmo = atof(v.c_str()); else if (k == "--tokens") tok = atoi(v.c_str()); else if (k == "--tokfile") tokFile = v; else if (k == "--paths") gMaxPaths = atoll(v.c_str()); else if (k == "--seed") gSeed = atoll(v.c_str()); else if (k == "--concretize") gConcretize = atoi(v.c_str()); else if (k == "--set") { auto e2 = v.find('='); gPreset[v.substr(0, e2)] = atol(v.substr(e2 + 1).c_str()); } else if (k == "-v") gVerbose = true; else if (k == "--noz3") gUseZ3 = false; else if (k == "--models") gSampleModels = atoll(v.c_str()); else if (k == "--inst") maxInst = atoll(v.c_str()); else if (k == "--tag") gTag = v; else if (k == "--lib") { if (!dlopen(v.c_str(), RTLD_NOW | RTLD_GLOBAL)) { fprintf(stderr, "dlopen %s\n", dlerror()); return 3; } } else if (k == "--maxcand") gMaxCands = atoll(v.c_str()); }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (S) Shared();
  if (tokFile.size()) { int fd = open(tokFile.c_str(), O_RDWR); gTokens = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (gTokens == MAP_FAILED) { perror("tokfile"); return 3; } } else { gTokens = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *gTokens = tok - 1; }
  gOut = open(out.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644); double t0 = now(); gDeadline = t0 + tmo; RNG.seed(gSeed);
  Interp I; G = &I; I.maxInst = maxInst; if (getenv("VSE_NOMERGE")) I.noMerge = true;
  try { I.loadModule(mod); I.installHandlers(); installSpec(I); gCov = (uint8_t*)mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); I.initGlobals(); }
  catch (std::exception& e) { fprintf(stderr, "init: %s\n", e.what()); emit(string("{\"kind\":\"error\",\"msg\":\"init: ") + jesc(e.what()) + "\"}"); return 3; }
  auto* F = I.M->getFunction(entry); if (!F) { fprintf(stderr, "no %s\n", entry.c_str()); return 3; }
  z3::context zc; Z = &zc;
  pid_t rootc = fork();
  if (rootc == 0) { setpgid(0, 0); signal(SIGALRM, onAlarm);
    auto done = [&](const char* kind) {};
    try { I.callTop(I.func(F), {}); 
      S->paths++; bool ok = dischargePath(); S->obl += gObl.size() + gRObl.size();
      if (!ok) { S->unsup++; emit("{\"kind\":\"unsup\",\"msg\":\"" + jesc(gZ3Note) + "\",\"tag\":\"" + gTag + "\",\"choices\":" + choicesJson() + "}"); }
      if (S->models.fetch_add(1) < gSampleModels || (RNG() ^ getpid() * 2654435761u) % 64 == 0) { std::vector<i128> val, in; for (int k = 0; k < 20; k++) if (genAssign(k < 2 ? 7 : k, val, in) && residOk(val)) { if (S->models < gSampleModels * 4) emit("{\"kind\":\"model\",\"tag\":\"" + gTag + "\",\"choices\":" + choicesJson() + ",\"inputs\":" + inputsJson(in) + "}"); break; } }
    } catch (PathKill&) { S->killed++; } catch (Failed& f) { S->paths++; emitCandidate(f.msg, f.diff); } catch (Candidate& c) { S->paths++; emitCandidate(c.what(), nullptr); }
    catch (Budget& b) { S->budget++; if (string(b.what()).find("instruction budget") == 0) emitCandidate(string("possible non-termination: ") + b.what(), nullptr, true); else emit(string("{\"kind\":\"budget\",\"msg\":\"") + jesc(b.what()) + "\",\"tag\":\"" + gTag + "\"}"); }
    catch (NeedFork&) { S->unsup++; emit("{\"kind\":\"unsup\",\"msg\":\"fork in speculation\"}"); } catch (std::exception& e) { S->unsup++; emit(string("{\"kind\":\"unsup\",\"msg\":\"") + jesc(e.what()) + "\",\"tag\":\"" + gTag + "\",\"choices\":" + choicesJson() + "}"); }
    S->inst += I.nInst; S->merges += I.nMerge; S->lemmas += nLemma; finishProc(0); }
  int stt = 0; for (;;) { pid_t w = waitpid(rootc, &stt, WNOHANG); if (w == rootc || w < 0) break; if (now() > gDeadline + 30) { kill(-rootc, SIGKILL); S->budget++; emit("{\"kind\":\"budget\",\"msg\":\"engine overran its deadline\",\"tag\":\"" + gTag + "\"}"); waitpid(rootc, &stt, 0); stt = 0; break; } usleep(5000); } if (WIFSIGNALED(stt)) { S->unsup++; emit("{\"kind\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(stt)) + ",\"tag\":\"" + gTag + "\"}"); }
  string fl = "["; int n = 0, tot = 0; for (auto* d : I.flist) if (!d->external) { tot++; if (gCov[d->id] && (d->dem.find("FFLAS") != string::npos || d->dem.find("FFPACK") != string::npos || d->dem.find("RecInt") != string::npos)) { string s = d->dem; auto p = s.find('('); (void)p; if (s.size() > 160) s = s.substr(0, 160); fl += string(n ? "," : "") + "\"" + jesc(s) + "\""; n++; } } fl += "]";
  std::ostringstream o; o << "{\"kind\":\"summary\",\"tag\":\"" << gTag << "\",\"wall\":" << now() - t0 << ",\"paths\":" << S->paths << ",\"forks\":" << S->forks << ",\"killed\":" << S->killed << ",\"cands\":" << S->cands << ",\"unsup\":" << S->unsup << ",\"budget\":" << S->budget << ",\"eqs\":" << S->eqs << ",\"ranges\":" << S->ranges << ",\"checks\":" << S->checks << ",\"obligations\":" << S->obl << ",\"z3q\":" << S->z3q << ",\"z3unsat\":" << S->z3unsat << ",\"z3sat\":" << S->z3sat << ",\"z3unk\":" << S->z3unk << ",\"z3skip\":" << S->z3skip << ",\"z3_s\":" << S->z3us / 1e6 << ",\"inst\":" << S->inst << ",\"merges\":" << S->merges << ",\"lemmas\":" << S->lemmas << ",\"symin\":" << S->symin << ",\"reach\":" << S->reach << ",\"functions\":" << fl << "}"; emit(o.str()); if (gVerbose) std::cerr << o.str().substr(0, 700) << "\n";
  return 0; }
