#include <cpuid.h>
#include "interp.h"
#include "run.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <ffi.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cxxabi.h>
#include <typeinfo>
#include <unistd.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;
// ---------------------------------------------------------------- memory
static const uint64_t ARENA = 24ull << 30;
uint8_t *gBase, *gShadow; static uint64_t gHeap, gHeapEnd, gStack, gStackEnd, gGlob, gGlobEnd;
enum { B_NONE = 0, B_INIT = 1, B_UNINIT = 2, B_SYM = 3, B_CONT = 4 };
struct MT { TermP t; uint8_t size, r; };
static std::unordered_map<uint64_t, MT> gMem;
std::map<uint64_t, uint64_t> gAllocs;
bool Interp::inArena(uint64_t a) { return a >= (uint64_t)gBase && a < (uint64_t)gBase + ARENA; }
static inline uint8_t* sh(uint64_t a) { return gShadow + (a - (uint64_t)gBase); }
static void memInit() {
  gBase = (uint8_t*)mmap((void*)0x100000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gShadow = (uint8_t*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (gBase == MAP_FAILED || gShadow == MAP_FAILED) { perror("mmap"); _exit(3); }
  uint64_t b = (uint64_t)gBase; gGlob = b + 4096; gGlobEnd = b + (1ull << 30); gStack = gGlobEnd; gStackEnd = b + (2ull << 30); gHeap = gStackEnd; gHeapEnd = b + ARENA;
}
static uint64_t carve(uint64_t& cur, uint64_t end, uint64_t size, uint64_t align, uint8_t flag) {
  if (align < 16) align = 16; uint64_t a = (cur + 64 + align - 1) & ~(align - 1); if (size > (1ull << 32) || a + size + 64 > end) throw Unsupported("out of arena memory"); cur = a + size + 64;
  memset(sh(a), flag, size); return a;
}
uint64_t Interp::heapAlloc(uint64_t size, uint64_t align, bool zero) {
  if (size > (1ull << 31)) throw Candidate("huge allocation of " + std::to_string(size) + " bytes");
  uint64_t a = carve(gHeap, gHeapEnd, size, align, zero ? B_INIT : B_UNINIT); gAllocs[a] = size; return a; }
void Interp::heapFree(uint64_t a) { if (!a) return; if (!inArena(a)) { free((void*)a); return; }
  auto it = gAllocs.find(a); if (it == gAllocs.end()) throw Candidate("free of invalid pointer"); 
  uint64_t n = it->second; for (uint64_t i = 0; i < n; i++) if (*sh(a + i) == B_SYM) gMem.erase(a + i); memset(sh(a), 0, n); madvise((void*)((a + 4095) & ~4095ull), n >= 8192 ? (n - 4096) & ~4095ull : 0, MADV_DONTNEED); gAllocs.erase(it); }
static std::string where(Interp& I) { std::string s; int n = 0; for (auto it = I.st.rbegin(); it != I.st.rend() && n < 6; ++it, n++) { if (n) s += " < "; std::string d = it->f->dem; if (d.size() > 90) d = d.substr(0, 90); s += d; } return s; }
std::string Interp::backtrace() { return where(*this); }
static void oob(Interp& I, uint64_t a, unsigned n, bool wr) { char b[160]; uint64_t ba = 0, bs = 0; auto it = gAllocs.upper_bound(a); if (it != gAllocs.begin()) { --it; ba = it->first; bs = it->second; }
  snprintf(b, sizeof b, "out-of-bounds %s of %u bytes (offset %ld from a block of %lu bytes) in ", wr ? "write" : "read", n, (long)(a - ba), (unsigned long)bs); throw Candidate(b + where(I)); }
static void clearSym(uint64_t a, unsigned n) { // remove symbolic records overlapping [a,a+n)
  for (uint64_t i = a; i < a + n;) { uint8_t f = *sh(i);
    if (f == B_SYM) { auto it = gMem.find(i); unsigned s = it->second.size; gMem.erase(it); memset(sh(i), B_UNINIT, s); i += s; }
    else if (f == B_CONT) { uint64_t b = i; while (*sh(b) != B_SYM) b--; auto it = gMem.find(b); unsigned s = it->second.size; MT m = it->second; gMem.erase(it); memset(sh(b), B_UNINIT, s); (void)m; i = b + s; }
    else i++; } }
Val Interp::load(uint64_t a, const Leaf& l) {
  unsigned n = l.bytes; Val v; v.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0;
  if (a < 4096) throw Candidate("null pointer read in " + where(*this));
  if (!inArena(a)) { memcpy(&v.lo, (void*)a, n > 8 ? 8 : n); if (n > 8) memcpy(&v.hi, (void*)(a + 8), n - 8); return v; }
  uint8_t* s = sh(a); bool ok = true;
  if (n == 8) ok = *(uint64_t*)s == 0x0101010101010101ull; else for (unsigned i = 0; i < n; i++) if (s[i] != 1) ok = false;
  if (ok) { memcpy(&v.lo, (void*)a, n > 8 ? 8 : n); if (n > 8) memcpy(&v.hi, (void*)(a + 8), n - 8); return v; }
  for (unsigned i = 0; i < n; i++) if (s[i] == 0) oob(*this, a, n, false);
  if (s[0] == B_SYM) { MT& m = gMem.find(a)->second; if (m.size == n) { v.t = m.t; v.r = m.r; return v; }
    if (m.size > n && m.r == 0) { if (m.t == tUndef) { v.t = tUndef; return v; } v.t = mkFMod2(m.t, n * 8); return v; } }
  bool anysym = false, anyun = false; for (unsigned i = 0; i < n; i++) { if (s[i] >= B_SYM) anysym = true; if (s[i] == B_UNINIT) anyun = true; }
  if (anysym) { // partial read
    uint64_t b = a; while (*sh(b) == B_CONT) b--; auto it = gMem.find(b);
    if (it != gMem.end() && it->second.r == 0 && b + it->second.size >= a + n && it->second.t != tUndef) { TermP x = asUnsigned(Val{0, 0, it->second.t, 0}, it->second.size * 8); v.t = mkFMod2(mkFDiv2(x, (a - b) * 8), n * 8); return v; }
    if (l.k == LK_INT && n == 16 && s[0] == B_SYM) { // 128-bit integer from two halves
      Val lo = load(a, Leaf{LK_INT, 64, 0, 8}), hi = load(a + 8, Leaf{LK_INT, 64, 0, 8}); if (lo.r == 0 && hi.r == 0) { TermP x = asUnsigned(lo, 64), y = asSigned(hi, 64); v.t = mkAdd(x, mkMul(y, mkConst((i128)1 << 64))); return v; } }
    throw Unsupported("partial read of a symbolic value in " + where(*this)); }
  if (anyun) { v.t = tUndef; return v; }
  return v;
}
void Interp::store(uint64_t a, const Leaf& l, const Val& v) {
  unsigned n = l.bytes; if (a < 4096) throw Candidate("null pointer write in " + where(*this));
  if (!inArena(a)) { if (v.t && v.t != tUndef) throw Unsupported("symbolic store to native memory"); if (v.t == tUndef) return; memcpy((void*)a, &v.lo, n > 8 ? 8 : n); if (n > 8) memcpy((void*)(a + 8), &v.hi, n - 8); return; }
  if (gConstGlob.size() && a < gGlobEnd) { auto it = gConstGlob.upper_bound(a); if (it != gConstGlob.begin()) { --it; if (a < it->first + it->second && !inCtor) throw Candidate("write to constant global in " + where(*this)); } }
  uint8_t* s = sh(a); bool clean = true;
  if (n == 8) { uint64_t f = *(uint64_t*)s; clean = f == 0x0101010101010101ull || f == 0x0202020202020202ull; } else for (unsigned i = 0; i < n; i++) if (s[i] != 1 && s[i] != 2) clean = false;
  if (!clean) { for (unsigned i = 0; i < n; i++) if (s[i] == 0) oob(*this, a, n, true); }
  if (spec) { for (unsigned i = 0; i < n; i++) { Undo u; u.a = a + i; u.f = s[i]; u.b = *(uint8_t*)(a + i); if (s[i] == B_SYM) { MT& m = gMem[a + i]; u.t = m.t; u.size = m.size; u.r = m.r; } else { u.t = nullptr; if (s[i] == B_CONT && i == 0) throw Unsupported("speculative partial store"); } undo.push_back(u); } 
    Wr w{a, l, true}; writes.push_back(w); }
  if (!clean) clearSym(a, n);
  if (v.t) {
    if (v.t == tUndef) { memset(s, B_UNINIT, n); memset((void*)a, 0xA5, n); return; }
    s[0] = B_SYM; memset(s + 1, B_CONT, n - 1); gMem[a] = MT{v.t, (uint8_t)n, v.r}; memset((void*)a, 0x7f, n); return; }
  memset(s, B_INIT, n); memcpy((void*)a, &v.lo, n > 8 ? 8 : n); if (n > 8) memcpy((void*)(a + 8), &v.hi, n - 8);
}
void Interp::rollback(size_t mark) {
  while (undo.size() > mark) { Undo& u = undo.back(); if (*sh(u.a) == B_SYM) gMem.erase(u.a); *sh(u.a) = u.f; *(uint8_t*)u.a = u.b; if (u.t) gMem[u.a] = MT{u.t, u.size, u.r}; undo.pop_back(); } }
void Interp::memcopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; if (d < 4096 || s < 4096) throw Candidate("null pointer copy in " + where(*this));
  bool di = inArena(d), si = inArena(s);
  std::vector<uint8_t> fl(n, B_INIT), by(n); std::vector<std::pair<uint64_t, MT>> syms;
  memcpy(by.data(), (void*)s, n);
  if (si) { memcpy(fl.data(), sh(s), n); for (uint64_t i = 0; i < n; i++) { if (fl[i] == 0) oob(*this, s + i, 1, false); if (fl[i] == B_SYM) { MT m = gMem[s + i]; if (i + m.size > n) throw Unsupported("partial copy of symbolic value"); syms.push_back({i, m}); } } if (fl[0] == B_CONT) throw Unsupported("partial copy of symbolic value"); }
  if (di) { for (uint64_t i = 0; i < n; i++) if (*sh(d + i) == 0) oob(*this, d + i, 1, true);
    if (spec) throw Unsupported("copy under speculation");
    clearSym(d, n); memcpy(sh(d), fl.data(), n); memcpy((void*)d, by.data(), n); for (auto& x : syms) gMem[d + x.first] = x.second; }
  else { if (!syms.empty()) throw Unsupported("symbolic copy to native memory"); memcpy((void*)d, by.data(), n); }
}
void Interp::memfill(uint64_t d, uint8_t c, uint64_t n) {
  if (!n) return; if (d < 4096) throw Candidate("null pointer fill in " + where(*this));
  if (!inArena(d)) { memset((void*)d, c, n); return; }
  if (spec) throw Unsupported("fill under speculation");
  for (uint64_t i = 0; i < n; i++) if (*sh(d + i) == 0) oob(*this, d + i, 1, true);
  clearSym(d, n); memset(sh(d), B_INIT, n); memset((void*)d, c, n); }
bool Interp::anySym(uint64_t a, uint64_t n) { if (!inArena(a)) return false; for (uint64_t i = 0; i < n; i++) if (*sh(a + i) >= B_SYM) return true; return false; }
void Interp::markInit(uint64_t a) { if (!inArena(a)) return; auto it = gAllocs.upper_bound(a); uint64_t b = 0, n = 0; if (it != gAllocs.begin()) { --it; if (a < it->first + it->second) { b = it->first; n = it->second; } }
  if (!n) { b = a; while (*sh(b + n) != 0 && n < 65536) n++; while (*sh(b - 1) != 0 && a - b < 65536) { b--; n++; } }
  if (n > (1 << 20)) return;
  for (uint64_t i = 0; i < n; i++) { uint8_t& f = *sh(b + i); if (f == B_UNINIT) f = B_INIT; } }
// ---------------------------------------------------------------- types
static std::unordered_map<Type*, TyInfo*> gTy; static const DataLayout* DL;
static void flat(Type* t, uint32_t off, TyInfo* o) {
  if (auto* I = dyn_cast<IntegerType>(t)) { o->l.push_back({LK_INT, (uint16_t)I->getBitWidth(), off, (uint32_t)DL->getTypeStoreSize(t).getFixedValue()}); return; }
  if (t->isFloatTy()) { o->l.push_back({LK_F32, 32, off, 4}); return; }
  if (t->isDoubleTy()) { o->l.push_back({LK_F64, 64, off, 8}); return; }
  if (t->isPointerTy()) { o->l.push_back({LK_PTR, 64, off, 8}); return; }
  if (t->isX86_FP80Ty()) { o->l.push_back({LK_F80, 80, off, 10}); return; }
  if (auto* V = dyn_cast<FixedVectorType>(t)) { auto* e = V->getElementType(); uint64_t es = e->isIntegerTy(1) ? 1 : DL->getTypeAllocSize(e).getFixedValue(); for (unsigned i = 0; i < V->getNumElements(); i++) flat(e, off + i * es, o); return; }
  if (auto* A = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(A->getElementType()).getFixedValue(); for (unsigned i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * es, o); return; }
  if (auto* S = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i).getFixedValue(), o); return; }
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return;
  std::string s; raw_string_ostream os(s); t->print(os); throw Unsupported("type " + s);
}
TyInfo* tyInfo(Type* t) { auto it = gTy.find(t); if (it != gTy.end()) return it->second; auto* o = new TyInfo; o->ty = t; flat(t, 0, o); o->size = t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0; gTy[t] = o; return o; }
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) { unsigned r = 0; for (unsigned i : idx) { if (auto* S = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += tyInfo(S->getElementType(j))->l.size(); t = S->getElementType(i); } else { auto* A = cast<ArrayType>(t); r += i * tyInfo(A->getElementType())->l.size(); t = A->getElementType(); } } return r; }
// ---------------------------------------------------------------- constants
uint64_t Interp::globalAddr(GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constVals(a->getAliasee())[0].lo;
  if (auto* f = dyn_cast<Function>(g)) return func(f)->addr;
  auto it = globs.find(g); if (it == globs.end()) throw Unsupported("global " + g->getName().str()); return it->second;
}
std::vector<Val> Interp::constVals(Constant* c) {
  auto* ti = tyInfo(c->getType()); std::vector<Val> r;
  if (isa<UndefValue>(c)) { for (auto& l : ti->l) { Val v; v.t = tUndef; v.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0; r.push_back(v); } return r; }
  if (c->isNullValue()) { for (auto& l : ti->l) { Val v; v.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0; r.push_back(v); } return r; }
  if (auto* i = dyn_cast<ConstantInt>(c)) { Val v; const APInt& a = i->getValue(); v.lo = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1]; if (a.getBitWidth() > 128) throw Unsupported("wide int const"); r.push_back(v); return r; }
  if (auto* f = dyn_cast<ConstantFP>(c)) { Val v; APInt a = f->getValueAPF().bitcastToAPInt(); v.lo = a.getRawData()[0]; if (a.getBitWidth() > 64) v.hi = a.getRawData()[1]; v.r = c->getType()->isDoubleTy() ? 2 : c->getType()->isFloatTy() ? 1 : 0; r.push_back(v); return r; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { Val v; v.lo = globalAddr(g); r.push_back(v); return r; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) { auto x = constVals(d->getElementAsConstant(i)); r.insert(r.end(), x.begin(), x.end()); } return r; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) { auto x = constVals(cast<Constant>(c->getOperand(i))); r.insert(r.end(), x.begin(), x.end()); } return r; }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { auto* G = cast<GEPOperator>(e); APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep"); Val v = constVals(cast<Constant>(G->getPointerOperand()))[0]; v.lo += off.getSExtValue(); r.push_back(v); return r; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { auto x = constVals(e->getOperand(0)); if (ti->l.size() == 1 && x.size() == 1) { return x; } throw Unsupported("const cast"); }
      case Instruction::Sub: { Val a = constVals(e->getOperand(0))[0], b = constVals(e->getOperand(1))[0]; a.lo -= b.lo; r.push_back(a); return r; }
      case Instruction::Add: { Val a = constVals(e->getOperand(0))[0], b = constVals(e->getOperand(1))[0]; a.lo += b.lo; r.push_back(a); return r; }
      case Instruction::Trunc: { Val a = constVals(e->getOperand(0))[0]; unsigned w = ti->l[0].bits; if (w < 64) a.lo &= (1ull << w) - 1; r.push_back(a); return r; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); throw Unsupported("constant " + s.substr(0, 120));
}
// ---------------------------------------------------------------- decoding
DFunc* Interp::func(Function* F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  auto* d = new DFunc; d->F = F; d->name = F->getName().str(); d->dem = demangle(d->name); d->id = funcs.size(); d->external = F->isDeclaration();
  d->addr = carve(gGlob, gGlobEnd, 16, 16, 0); faddr[d->addr] = d; funcs[F] = d; flist.push_back(d);
  auto h = handlers.find(d->name); if (h != handlers.end()) d->h = &h->second;
  if (h != handlers.end() && !d->external && (d->name.compare(0, 4, "omp_") == 0 || d->name.compare(0, 6, "__kmpc") == 0)) d->h = nullptr;   // the linked runtime model
  else if (h != handlers.end()) ;
  else for (auto& p : prefixHandlers) if (d->name.compare(0, p.first.size(), p.first) == 0 || (p.first[0] == '=' && d->dem.find(p.first.substr(1)) != std::string::npos)) { d->h = &p.second; break; }
  return d;
}
void Interp::decode(DFunc* d) {
  Function* F = d->F; std::unordered_map<Value*, int> slot; std::unordered_map<Value*, int> cidx; std::unordered_map<BasicBlock*, int> bidx; int n = 0;
  for (auto& a : F->args()) { slot[&a] = n; d->argSlot.push_back(n); n += tyInfo(a.getType())->l.size(); }
  int nb = 0; for (auto& b : *F) { bidx[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy() && !i.getType()->isTokenTy()) { slot[&i] = n; n += std::max<size_t>(1, tyInfo(i.getType())->l.size()); } }
  d->nslots = n;
  auto opnd = [&](Value* v) -> int { auto it = slot.find(v); if (it != slot.end()) return it->second; auto c = cidx.find(v); if (c != cidx.end()) return c->second;
    if (auto* k = dyn_cast<Constant>(v)) { auto vals = constVals(k); int base = d->cpool.size(); for (auto& x : vals) d->cpool.push_back(x); if (vals.empty()) d->cpool.push_back(Val()); int id = ~base; cidx[v] = id; return id; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0; throw Unsupported("operand"); };
  // const pool entries must be addressable as ~base .. ~(base+k): encode as -(base+1)-k
  d->bl.resize(nb); 
  for (auto& b : *F) {
    DBlock& B = d->bl[bidx[&b]]; B.idx = bidx[&b];
    for (auto& i : b) {
      DInst D; D.opc = i.getOpcode(); D.I = &i; if (slot.count(&i)) D.dst = slot[&i]; D.ty = tyInfo(i.getType());
      if (auto* P = dyn_cast<PHINode>(&i)) { for (unsigned k = 0; k < P->getNumIncomingValues(); k++) { D.op.push_back(opnd(P->getIncomingValue(k))); D.aux.push_back(bidx[P->getIncomingBlock(k)]); } B.phis.push_back(D); continue; }
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      try {
        for (auto& o : i.operands()) { if (isa<BasicBlock>(o.get())) continue; D.op.push_back(opnd(o.get())); }
        if (i.getNumOperands() && !isa<BasicBlock>(i.getOperand(0))) D.ty0 = tyInfo(i.getOperand(0)->getType());
        if (auto* G = dyn_cast<GetElementPtrInst>(&i)) {
          if (G->getType()->isVectorTy()) throw Unsupported("vector gep");
          int64_t off = 0; unsigned k = 1;
          for (gep_type_iterator gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k) {
            Value* ix = gi.getOperand(); if (StructType* S = gi.getStructTypeOrNull()) { off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue(); continue; }
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue(); else { D.gep.push_back({D.op[k], sc}); D.aux.push_back(ix->getType()->getIntegerBitWidth()); } }
          D.imm = off; }
        if (auto* br = dyn_cast<BranchInst>(&i)) { for (unsigned k = 0; k < br->getNumSuccessors(); k++) D.blk[k] = bidx[br->getSuccessor(k)]; }
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { D.blk[0] = bidx[iv->getNormalDest()]; D.blk[1] = bidx[iv->getUnwindDest()]; }
        if (auto* sw = dyn_cast<SwitchInst>(&i)) { D.blk[0] = bidx[sw->getDefaultDest()]; D.op.resize(1); for (auto& c : sw->cases()) { D.op.push_back(opnd(c.getCaseValue())); D.aux.push_back(bidx[c.getCaseSuccessor()]); } }
        if (auto* cb = dyn_cast<CallBase>(&i)) { if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { D.callee = func(cf); D.iid = cf->getIntrinsicID(); } }
        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) D.imm = leafIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
        if (auto* iv = dyn_cast<InsertValueInst>(&i)) D.imm = leafIndex(iv->getType(), iv->getIndices());
        if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) { for (int m : sv->getShuffleMask()) D.aux.push_back(m); D.op.resize(2); }
      } catch (Unsupported& u) { D.opc = 0; D.callee = nullptr; errs[&i] = u.what(); }
      B.ins.push_back(std::move(D));
    }
    // simple arm?
    auto* T = dyn_cast<BranchInst>(b.getTerminator());
    if (T && T->isUnconditional() && B.phis.empty() && B.ins.size() <= 24) {
      bool ok = true; for (auto& D : B.ins) { auto* I = D.I; if (isa<BinaryOperator>(I) || isa<CastInst>(I) || isa<CmpInst>(I) || isa<SelectInst>(I) || isa<LoadInst>(I) || isa<StoreInst>(I) || isa<GetElementPtrInst>(I) || isa<UnaryOperator>(I) || isa<BranchInst>(I) || isa<FreezeInst>(I)) continue;
        if (auto* c = dyn_cast<CallInst>(I)) { if (D.callee && (D.callee->name == "fmod" || D.callee->name == "fmodf" || D.callee->name == "floor" || (D.iid && !c->mayWriteToMemory()))) continue; }
        ok = false; break; }
      if (ok) { B.simple = true; B.simpleSucc = bidx[T->getSuccessor(0)]; } }
  }
  d->decoded = true;
}
// ---------------------------------------------------------------- value helpers
static inline double asD(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static inline float asF(const Val& v) { float d; uint32_t u = (uint32_t)v.lo; memcpy(&d, &u, 4); return d; }
static inline Val mkD(double d) { Val v; memcpy(&v.lo, &d, 8); v.r = 2; return v; }
static inline Val mkF(float d) { Val v; uint32_t u; memcpy(&u, &d, 4); v.lo = u; v.r = 1; return v; }
static inline Val mkI(uint64_t x) { Val v; v.lo = x; return v; }
static inline i128 sI(const Val& v, unsigned w) { if (w > 64) { u128 u = ((u128)v.hi << 64) | v.lo; if (w < 128) { i128 s = (i128)(u << (128 - w)); return s >> (128 - w); } return (i128)u; } if (w == 64) return (int64_t)v.lo; return (int64_t)(v.lo << (64 - w)) >> (64 - w); }
static inline u128 uI(const Val& v, unsigned w) { if (w > 64) { u128 u = ((u128)v.hi << 64) | v.lo; if (w < 128) u &= ((u128)1 << w) - 1; return u; } if (w == 64) return v.lo; return v.lo & ((1ull << w) - 1); }
static inline Val fromI(i128 x, unsigned w) { Val v; v.lo = (uint64_t)x; if (w > 64) v.hi = (uint64_t)((u128)x >> 64); else if (w < 64) v.lo &= (1ull << w) - 1; return v; }
static Val fromT(TermP t, unsigned w) { i128 c; if (t->k == T_CONST && t != tTrue && t != tFalse) { c = t->imm; return fromI(c, w); } if (t == tTrue || t == tFalse) return mkI(t == tTrue); Val v; v.t = t; return v; }
static i128 p2(int k) { return (i128)1 << k; }
TermP Interp::asSigned(const Val& v, unsigned w) {
  if (!v.t) return mkConst(sI(v, w)); TermP t = v.t; if (t == tUndef) return t; if (v.r != 0) throw Unsupported("integer use of a floating symbolic value in " + where(*this));
  t = rawToInt(t, w); Iv i = ivOf(t); if (w >= 127 || i.within(-p2(w - 1), p2(w - 1) - 1)) return t;
  t = asUnsigned(v, w); i = ivOf(t); if (i.hi < p2(w - 1)) return t; if (i.lo >= p2(w - 1)) return mkSub(t, mkConst(p2(w)));
  return decide(mkCmp(P_LT, t, mkConst(p2(w - 1)))) ? t : mkSub(t, mkConst(p2(w))); }
TermP Interp::asUnsigned(const Val& v, unsigned w) {
  if (!v.t) { if (w == 128 && (v.hi >> 63)) throw Unsupported("large u128"); return mkConst((i128)uI(v, w)); } TermP t = v.t; if (t == tUndef) return t; if (v.r != 0) throw Unsupported("integer use of a floating symbolic value in " + where(*this));
  t = rawToInt(t, w); Iv i = ivOf(t); if (w >= 124) { if (i.lo >= 0) return t; throw Unsupported("u128 range"); }
  if (i.within(0, p2(w) - 1)) return t;
  if (i.within(-p2(w - 1), p2(w) - 1)) return decide(mkCmp(P_LT, t, mkConst(0))) ? mkAdd(t, mkConst(p2(w))) : t;
  return mkFMod2(t, w); }
TermP Interp::rawToInt(TermP t, unsigned w) {
  if (isBool(t)) { return mkBoolInt(t); }
  if (t->k == T_MASK) { return decide(t->a) ? mkConst(w == 64 || 1 ? (i128)-1 : 0) : mkConst(0); }
  if (t->k == T_RAWITE) { if ((t->b && t->r1 != 0) || (t->c && t->r2 != 0)) throw Unsupported("integer use of floating select");
    TermP x = t->b ? t->b : mkConst(sI(Val{(uint64_t)t->imm, (uint64_t)((u128)t->imm >> 64), nullptr, 0}, w)), y = t->c ? t->c : mkConst(sI(Val{(uint64_t)t->imm2, 0, nullptr, 0}, w));
    if (x->k == T_RAWITE || x->k == T_MASK) x = rawToInt(x, w); if (y->k == T_RAWITE || y->k == T_MASK) y = rawToInt(y, w);
    TermP m = mkITE(t->a, x, y); if (m) return m; return decide(t->a) ? x : y; }
  return t; }
TermP Interp::rawToFp(TermP t, bool f32) {
  if (t->k == T_RAWITE) {
    auto arm = [&](TermP x, u128 b, int r) -> TermP { if (x) { if (x->k == T_RAWITE || x->k == T_MASK) return rawToFp(x, f32); if (r == 0) throw Unsupported("float use of integer select arm"); return x; } double d; if (f32) { float f; uint32_t u = (uint32_t)b; memcpy(&f, &u, 4); d = f; } else { uint64_t u = (uint64_t)b; memcpy(&d, &u, 8); } if (d != std::floor(d) || std::fabs(d) > 1e30) throw Unsupported("non-integer select arm"); return mkConst((i128)d); };
    TermP x = arm(t->b, (u128)t->imm, t->r1), y = arm(t->c, (u128)t->imm2, t->r2); TermP m = mkITE(t->a, x, y); if (m) return m; return decide(t->a) ? x : y; }
  if (t->k == T_MASK) throw Unsupported("mask used as number");
  return t; }
// term of an fp operand; nullptr if concrete non-integer
TermP Interp::fpTerm(const Val& v, bool f32, double& d) {
  if (v.t) { if (v.t == tUndef) return v.t; if (v.t->k == T_RAWITE || v.t->k == T_MASK) return rawToFp(v.t, f32); if (v.r == 0) throw Unsupported("float use of an integer symbolic value in " + where(*this)); return v.t; }
  d = f32 ? (double)asF(v) : asD(v); if (!std::isfinite(d)) return nullptr; if (d == std::floor(d) && std::fabs(d) < 1e30) return mkConst((i128)d); return nullptr; }
Val Interp::fpRes(TermP t, bool f32, const char* op) {
  Val v; v.r = f32 ? 1 : 2; if (t == tUndef) { v.t = t; return v; }
  if (t->k == T_CONST) { Iv l{-p2(f32 ? 24 : 53), p2(f32 ? 24 : 53)}; double d = (double)t->imm; if (!l.has(t->imm) && (i128)d != t->imm) { noteInexact(std::string(op) + " constant inexact"); } if (f32) return mkF((float)d); return mkD(d); }
  if (t->k != T_FMULC) { Iv i = ivOf(t); i128 lim = p2(f32 ? 24 : 53); if (!i.within(-lim, lim) && !zWithin(t, -lim, lim)) { noteInexact(std::string(op) + (f32 ? " exceeds 2^24" : " exceeds 2^53") + " in " + where(*this)); t = mkOpaque("inexact", i, true); } }
  v.t = t; return v; }
Val Interp::fpBin(unsigned opc, const Val& a, const Val& b, bool f32) {
  if (!a.t && !b.t) {
    if (f32) { float x = asF(a), y = asF(b); switch (opc) { case Instruction::FAdd: return mkF(x + y); case Instruction::FSub: return mkF(x - y); case Instruction::FMul: return mkF(x * y); case Instruction::FDiv: return mkF(x / y); default: return mkF(fmodf(x, y)); } }
    double x = asD(a), y = asD(b); switch (opc) { case Instruction::FAdd: return mkD(x + y); case Instruction::FSub: return mkD(x - y); case Instruction::FMul: return mkD(x * y); case Instruction::FDiv: return mkD(x / y); default: return mkD(fmod(x, y)); } }
  double da = 0, db = 0; TermP x = fpTerm(a, f32, da), y = fpTerm(b, f32, db);
  if (x == tUndef || y == tUndef) { Val v; v.t = tUndef; v.r = f32 ? 1 : 2; return v; }
  if ((!x && !std::isfinite(da)) || (!y && !std::isfinite(db))) throw Unsupported("non-finite operand");
  switch (opc) {
    case Instruction::FAdd: if (!x || !y) throw Unsupported("symbolic + non-integer in " + where(*this)); return fpRes(mkAdd(x, y), f32, "fadd");
    case Instruction::FSub: if (!x || !y) throw Unsupported("symbolic - non-integer in " + where(*this)); return fpRes(mkSub(x, y), f32, "fsub");
    case Instruction::FMul: if (x && y) { if (x->k == T_FMULC || y->k == T_FMULC) throw Unsupported("fp product of scaled value"); return fpRes(mkMul(x, y), f32, "fmul"); }
      { Val v; v.r = f32 ? 1 : 2; v.t = x ? mkFMulC(x, db, false, f32) : mkFMulC(y, da, false, f32); return v; }
    case Instruction::FDiv: { if (!y) { if (!x) throw Unsupported("quotient of non-integers"); Val v; v.r = f32 ? 1 : 2; v.t = mkFMulC(x, db, true, f32); return v; } if (y->k == T_FMULC || (x && x->k == T_FMULC)) throw Unsupported("quotient of scaled value in " + where(*this)); i128 yc; if (y->k != T_CONST && tryConst(y, yc)) y = mkConst(yc); if (y->k != T_CONST) { if (!x) throw Unsupported("non-integer over symbolic"); if (decide(mkCmp(P_EQ, y, mkConst(0)))) throw Unsupported("symbolic fp division by zero in " + where(*this)); Val v; v.r = f32 ? 1 : 2; v.t = mkFDivS(x, y, f32); return v; } if (y->imm == 0) throw Candidate("fp division by zero"); if (y->imm == 1) return a; if (y->imm == -1) return fpRes(mkSub(mkConst(0), x), f32, "neg"); Val v; v.r = f32 ? 1 : 2; v.t = mkFMulC(x, (double)y->imm, true, f32); return v; }
    default: { if (!y || y->k != T_CONST || y->imm == 0) throw Unsupported("symbolic modulus in fmod in " + where(*this)); if (!x) throw Unsupported("fmod of non-integer"); return fpRes(mkRemT(x, y->imm), f32, "fmod"); }
  } }
Val Interp::fpFma(const Val& a, const Val& b, const Val& c, bool f32, bool fused) {
  if (!a.t && !b.t && !c.t) { if (f32) return mkF(fmaf(asF(a), asF(b), asF(c))); return mkD(fma(asD(a), asD(b), asD(c))); }
  double da, db, dc; TermP x = fpTerm(a, f32, da), y = fpTerm(b, f32, db), z = fpTerm(c, f32, dc);
  if (x == tUndef || y == tUndef || z == tUndef) { Val v; v.t = tUndef; v.r = f32 ? 1 : 2; return v; }
  if (!x || !y || !z) { Val p = fpBin(Instruction::FMul, a, b, f32); return fpBin(Instruction::FAdd, p, c, f32); }
  (void)fused; return fpRes(mkAdd(mkMul(x, y), z), f32, "fma"); }
Val Interp::fpCmp(unsigned pr, const Val& a, const Val& b, bool f32) {
  if (!a.t && !b.t) { double x = f32 ? asF(a) : asD(a), y = f32 ? asF(b) : asD(b); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pr) { case CmpInst::FCMP_FALSE: r = 0; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: r = 1; } return mkI(r); }
  double da = 0, db = 0; TermP x = fpTerm(a, f32, da), y = fpTerm(b, f32, db); Val v; if (x == tUndef || y == tUndef) { v.t = tUndef; return v; }
  if (pr == CmpInst::FCMP_ORD) return mkI(1); if (pr == CmpInst::FCMP_UNO) return mkI(0);
  if (!x || !y) { // compare with a non-integer or infinite constant: move to the neighbouring integer
    double c = x ? db : da; TermP t = x ? x : y; if (std::isnan(c)) throw Unsupported("nan compare"); bool rhs = x != nullptr;
    unsigned q = pr; if (!rhs) q = CmpInst::getSwappedPredicate((CmpInst::Predicate)pr);
    auto big = [&](double z) { return mkConst(z > 1e35 ? IVINF : z < -1e35 ? -IVINF : (i128)z); };
    switch (q) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkI(0); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkI(1);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromT(mkCmp(P_LT, big(std::floor(c)), t), 1);
      default: return fromT(mkCmp(P_LE, t, big(std::floor(c))), 1); } }
  switch (pr) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromT(mkCmp(P_EQ, x, y), 1); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromT(mkCmp(P_NE, x, y), 1);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromT(mkCmp(P_LT, y, x), 1); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromT(mkCmp(P_LE, y, x), 1);
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromT(mkCmp(P_LT, x, y), 1); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromT(mkCmp(P_LE, x, y), 1);
    case CmpInst::FCMP_TRUE: return mkI(1); default: return mkI(0); } }
// bitwise operations on raw lanes that carry masks / selected floats
static bool rawish(const Val& v) { return v.t && (v.t->k == T_MASK || v.t->k == T_RAWITE || isBool(v.t)); }
Val Interp::bitOp(unsigned opc, const Val& a, const Val& b, unsigned w) {
  u128 ones = w == 128 ? ~(u128)0 : ((u128)1 << w) - 1;
  if (!a.t && !b.t) { Val v; if (opc == Instruction::And) { v.lo = a.lo & b.lo; v.hi = a.hi & b.hi; } else if (opc == Instruction::Or) { v.lo = a.lo | b.lo; v.hi = a.hi | b.hi; } else { v.lo = a.lo ^ b.lo; v.hi = a.hi ^ b.hi; } return v; }
  Val v; 
  if (w == 1) { auto B = [&](const Val& x) { return x.t ? (x.t == tUndef ? x.t : toBool(x)) : (x.lo & 1 ? tTrue : tFalse); }; TermP x = B(a), y = B(b); TermP r;
    if (opc == Instruction::And) r = mkAndB(x, y); else if (opc == Instruction::Or) r = mkOrB(x, y); else { if (x == tTrue) r = mkNot(y); else if (y == tTrue) r = mkNot(x); else if (x == tFalse) r = y; else if (y == tFalse) r = x; else if (x == tUndef || y == tUndef) r = tUndef; else r = decide(x) ? mkNot(y) : y; } return fromT(r, 1); }
  if (a.t == tUndef || b.t == tUndef) { const Val& o = a.t == tUndef ? b : a; if (opc == Instruction::And && !o.t && uI(o, w) == 0) return o; v.t = tUndef; v.r = a.r | b.r; return v; }
  const Val *x = &a, *y = &b; if (!x->t || (y->t && y->t->k == T_MASK && x->t->k != T_MASK)) std::swap(x, y);   // x symbolic (mask preferred)
  if (!y->t) { u128 c = uI(*y, w); if (opc == Instruction::And) { if (c == ones) return *x; if (c == 0) return *y; } else { if (c == 0) return *x; if (opc == Instruction::Or && c == ones) return *y; } }
  if (x->t->k == T_MASK) {
    TermP c = x->t->a;
    if (opc == Instruction::And) { // c ? y : 0
      if (y->t && y->t->k == T_MASK) { v.t = mkMask(mkAndB(c, y->t->a), w); return v; }
      int d = decideIv(c); if (d == 1) return *y; if (d == 0) { v.r = y->r; return v; }
      v.t = mkRawIte(c, uI(*y, w), y->t, y->r, 0, nullptr, y->r, w); v.r = y->t ? y->r : 0; return v; }
    if (opc == Instruction::Xor && !y->t && uI(*y, w) == ones) { v.t = mkMask(mkNot(c), w); return v; }
    if (opc == Instruction::Or && y->t && y->t->k == T_MASK) { v.t = mkMask(mkOrB(c, y->t->a), w); return v; }
    bool d = decide(c); Val m; m.lo = d ? (uint64_t)ones : 0; m.hi = d ? (uint64_t)(ones >> 64) : 0; return bitOp(opc, m, *y, w); }
  if (x->t->k == T_RAWITE || (y->t && y->t->k == T_RAWITE)) {
    if (x->t->k != T_RAWITE) std::swap(x, y);
    TermP t = x->t; auto armV = [&](bool first) { Val z; if (first) { z.t = t->b; z.r = t->r1; if (!t->b) { z.lo = (uint64_t)t->imm; z.hi = (uint64_t)((u128)t->imm >> 64); } } else { z.t = t->c; z.r = t->r2; if (!t->c) { z.lo = (uint64_t)t->imm2; z.hi = (uint64_t)((u128)t->imm2 >> 64); } } return z; };
    if (y->t && y->t->k == T_RAWITE && (y->t->a == t->a || mkNot(y->t->a) == t->a)) {
      TermP u = y->t; bool same = u->a == t->a; auto armU = [&](bool first) { Val z; if (first) { z.t = u->b; z.r = u->r1; if (!u->b) { z.lo = (uint64_t)u->imm; z.hi = (uint64_t)((u128)u->imm >> 64); } } else { z.t = u->c; z.r = u->r2; if (!u->c) { z.lo = (uint64_t)u->imm2; z.hi = (uint64_t)((u128)u->imm2 >> 64); } } return z; };
      Val p = bitOp(opc, armV(true), armU(same), w), q = bitOp(opc, armV(false), armU(!same), w);
      v.t = mkRawIte(t->a, uI(p, w), p.t, p.r, uI(q, w), q.t, q.r, w); v.r = p.t ? p.r : q.r; return v; }
    bool simple = true; if (y->t) { // or with 0 in one arm: other conditions disjoint
      simple = true; }
    if (simple) { Val p, q; bool okp = true, okq = true; TermP c = t->a;
      auto rec = [&](const Val& arm, bool pol) -> Val { // evaluate arm op y where y may be RAWITE on a condition incompatible with c==pol
        if (y->t && y->t->k == T_RAWITE) { TermP cc = pol ? c : mkNot(c); if (infeasible2(cc, y->t->a)) { Val z; z.t = y->t->c; z.r = y->t->r2; if (!z.t) { z.lo = (uint64_t)y->t->imm2; } return bitOp(opc, arm, z, w); } if (infeasible2(cc, mkNot(y->t->a))) { Val z; z.t = y->t->b; z.r = y->t->r1; if (!z.t) z.lo = (uint64_t)y->t->imm; return bitOp(opc, arm, z, w); } }
        return bitOp(opc, arm, *y, w); };
      try { p = rec(armV(true), true); } catch (Unsupported&) { okp = false; } try { q = rec(armV(false), false); } catch (Unsupported&) { okq = false; }
      if (okp && okq) { v.t = mkRawIte(c, uI(p, w), p.t, p.r, uI(q, w), q.t, q.r, w); v.r = p.t ? p.r : q.r; return v; } }
    bool d = decide(t->a); return bitOp(opc, armV(d), *y, w); }
  if (x->r != 0 && !y->t) { // floating value with a sign-bit mask
    u128 c = uI(*y, w); bool f32 = x->r == 1; u128 sb = f32 ? 0x80000000u : (u128)0x8000000000000000ull;
    if (opc == Instruction::And && c == (ones ^ sb) && w == (f32 ? 32u : 64u)) { TermP t = x->t; TermP m = mkITE(mkCmp(P_LT, t, mkConst(0)), mkSub(mkConst(0), t), t); if (!m) m = decide(mkCmp(P_LT, t, mkConst(0))) ? mkSub(mkConst(0), t) : t; v.t = m; v.r = x->r; return v; }
    if (opc == Instruction::Xor && c == sb) { v.t = mkSub(mkConst(0), x->t); v.r = x->r; return v; }
    throw Unsupported("bit operation on floating symbolic value in " + where(*this)); }
  if (x->r != 0 || (y->t && y->r != 0)) throw Unsupported("bit operation on floating symbolic values in " + where(*this));
  if (!y->t) {
    u128 c = uI(*y, w); TermP raw = rawToInt(x->t, w);
    { int k = 0; while (k < 127 && ((c >> k) & 1)) k++; if (opc == Instruction::And && (c >> k) == 0 && k < (int)w && k < 120) return fromT(mkFMod2(raw, k), w); }
    TermP t = asUnsigned(*x, w);
    auto low = [&](u128 c) { int k = 0; while (k < 127 && ((c >> k) & 1)) k++; return (c >> k) == 0 ? k : -1; };
    if (opc == Instruction::And) { int k = low(c); if (k >= 0) return fromT(mkFMod2(t, k), w); int kk = low(ones ^ c); if (kk >= 0) return fromT(mkSub(t, mkFMod2(t, kk)), w);
      int tz = 0; while (!((c >> tz) & 1)) tz++; int k2 = low(c >> tz); if (k2 >= 0) return fromT(mkMul(mkFMod2(mkFDiv2(t, tz), k2), mkConst(p2(tz))), w); }
    if (opc == Instruction::Xor && c == ones) return fromT(mkSub(mkConst((i128)ones), t), w);
    if (opc == Instruction::Or) { int tz = 0; while (!((c >> tz) & 1)) tz++; if (ivOf(t).hi < p2(tz)) return fromT(mkAdd(t, mkConst((i128)c)), w);
      int top = 0; u128 cc = c; while (cc) { top++; cc >>= 1; } if (isMultipleOf2(t, top)) return fromT(mkAdd(t, mkConst((i128)c)), w); }
  } else if (opc == Instruction::Or || opc == Instruction::Xor) {
    TermP s = asUnsigned(*x, w), t = asUnsigned(*y, w); for (int k = 0; k < 2; k++) { Iv i = ivOf(t); int b = 0; while (p2(b) <= i.hi) b++; if (isMultipleOf2(s, b)) return fromT(mkAdd(s, t), w); std::swap(s, t); } }
  for (int k = 0; k < 2; k++, std::swap(x, y)) if (x->t && x->t->k == T_ITE && x->t->b->k == T_CONST && x->t->c->k == T_CONST) { bool d = decide(x->t->a); i128 c = (d ? x->t->b : x->t->c)->imm; return bitOp(opc, fromI(c, w), *y, w); }
  throw Unsupported(std::string("bit operation on symbolic integers ") + tStr(x->t, 2) + " in " + where(*this));
}
bool Interp::isMultipleOf2(TermP t, int k) { if (k == 0) return true; if (t->k == T_CONST) return (t->imm & (p2(k) - 1)) == 0; if (t->k == T_MUL) { for (TermP x : {t->a, t->b}) if (x->k == T_CONST && (x->imm & (p2(k) - 1)) == 0) return true; return false; } if (t->k == T_ADD || t->k == T_SUB) return isMultipleOf2(t->a, k) && isMultipleOf2(t->b, k); return false; }
TermP Interp::toBool(const Val& v) { if (!v.t) return (v.lo & 1) ? tTrue : tFalse; if (v.t == tUndef || isBool(v.t)) return v.t; if (v.t->k == T_MASK) return v.t->a;
  TermP t = rawToInt(v.t, 1); return mkCmp(P_NE, t, mkConst(0)); }
Val Interp::intBin(unsigned opc, const Val& a, const Val& b, unsigned w, bool nsw, bool nuw) {
  if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) return bitOp(opc, a, b, w);
  if (!a.t && !b.t) {
    switch (opc) {
      case Instruction::Add: return fromI((i128)(uI(a, w) + uI(b, w)), w); case Instruction::Sub: return fromI((i128)(uI(a, w) - uI(b, w)), w); case Instruction::Mul: return fromI((i128)(uI(a, w) * uI(b, w)), w);
      case Instruction::UDiv: if (uI(b, w) == 0) throw Candidate("integer division by zero in " + where(*this)); return fromI((i128)(uI(a, w) / uI(b, w)), w);
      case Instruction::URem: if (uI(b, w) == 0) throw Candidate("integer division by zero in " + where(*this)); return fromI((i128)(uI(a, w) % uI(b, w)), w);
      case Instruction::SDiv: if (sI(b, w) == 0) throw Candidate("integer division by zero in " + where(*this)); if (sI(b, w) == -1) return fromI(-sI(a, w), w); return fromI(sI(a, w) / sI(b, w), w);
      case Instruction::SRem: if (sI(b, w) == 0) throw Candidate("integer division by zero in " + where(*this)); if (sI(b, w) == -1) return mkI(0); return fromI(sI(a, w) % sI(b, w), w);
      case Instruction::Shl: { u128 s = uI(b, w); return s >= w ? mkI(0) : fromI((i128)(uI(a, w) << (int)s), w); } case Instruction::LShr: { u128 s = uI(b, w); return s >= w ? mkI(0) : fromI((i128)(uI(a, w) >> (int)s), w); }
      case Instruction::AShr: { u128 s = uI(b, w); return fromI(sI(a, w) >> (s >= w ? (int)w - 1 : (int)s), w); } } }
  Val v; if (a.t == tUndef || b.t == tUndef) { if (opc == Instruction::Mul && ((!a.t && uI(a, w) == 0) || (!b.t && uI(b, w) == 0))) return mkI(0); v.t = tUndef; return v; }
  auto wrap = [&](TermP t) -> Val { if (t->k == T_CONST) return fromI(t->imm, w); if (w >= 124) return fromT(t, w); Iv i = ivOf(t); if (i.within(-p2(w - 1), p2(w) - 1)) return fromT(t, w);
    if (i.within(0, p2(w) - 1)) return fromT(t, w);
    if (nsw) { noteInexact("signed overflow possible in " + where(*this)); } return fromT(mkFMod2(t, w), w); };
  auto S = [&](const Val& x) { return x.t ? (x.r == 0 ? rawToInt(x.t, w) : throw Unsupported("integer op on floating symbolic value in " + where(*this))) : mkConst(sI(x, w)); };
  auto symd = [&](const Val& x, bool sg) -> bool { if (!x.t) return false; TermP t = sg ? asSigned(x, w) : asUnsigned(x, w); i128 c; if (tryConst(t, c)) return false; if (decide(mkCmp(P_EQ, t, mkConst(0)))) throw Candidate("integer division by zero in " + where(*this)); if (tryConst(t, c)) return false; TermP n = sg ? asSigned(a, w) : asUnsigned(a, w); i128 nc; if (tryConst(n, nc) && nc >= 0 && nc <= 64 && ivOf(t).lo >= 0) { if (decide(mkCmp(P_LT, mkConst(nc), t))) return true; conc(x, w, sg, "divisor"); return false; } return true; };
  auto cst = [&](const Val& x, bool sg) -> i128 { if (x.t) { TermP t = sg ? asSigned(x, w) : asUnsigned(x, w); i128 c; if (tryConst(t, c)) return c; return conc(x, w, sg, "shift amount"); } return sg ? sI(x, w) : (i128)uI(x, w); };
  switch (opc) {
    case Instruction::Add: return wrap(mkAdd(S(a), S(b))); case Instruction::Sub: return wrap(mkSub(S(a), S(b)));
    case Instruction::Mul: { TermP x = S(a), y = S(b); // choose representation that avoids needless wrap
      return wrap(mkMul(x, y)); }
    case Instruction::UDiv: { if (symd(b, false)) { TermP x = asUnsigned(a, w), y = asUnsigned(b, w); if (ivOf(x).hi < ivOf(y).lo) return mkI(0); return fromT(mkDivS(x, y), w); } i128 d = cst(b, false); if (!d) throw Candidate("integer division by zero"); return fromT(mkDivT(asUnsigned(a, w), d), w); }
    case Instruction::URem: { if (symd(b, false)) { TermP x = asUnsigned(a, w), y = asUnsigned(b, w); if (ivOf(x).hi < ivOf(y).lo) return fromT(x, w); return fromT(mkSub(x, mkMul(y, mkDivS(x, y))), w); } i128 d = cst(b, false); if (!d) throw Candidate("integer division by zero"); return fromT(mkRemT(asUnsigned(a, w), d), w); }
    case Instruction::SDiv: { if (symd(b, true)) return fromT(mkDivS(asSigned(a, w), asSigned(b, w)), w); i128 d = cst(b, true); if (!d) throw Candidate("integer division by zero"); return fromT(mkDivT(asSigned(a, w), d), w); }
    case Instruction::SRem: { if (symd(b, true)) { TermP x = asSigned(a, w), y = asSigned(b, w); return fromT(mkSub(x, mkMul(y, mkDivS(x, y))), w); } i128 d = cst(b, true); if (!d) throw Candidate("integer division by zero"); return fromT(mkRemT(asSigned(a, w), d), w); }
    case Instruction::Shl: { i128 s = cst(b, false); if (s >= (i128)w) return mkI(0); TermP t = nsw ? asSigned(a, w) : S(a); return wrap(mkMul(t, mkConst(p2((int)s)))); }
    case Instruction::LShr: { i128 s = cst(b, false); if (s >= (i128)w) return mkI(0); return fromT(mkFDiv2(asUnsigned(a, w), (int)s), w); }
    case Instruction::AShr: { i128 s = cst(b, false); if (a.t && a.t->k == T_MASK) return a; return fromT(mkFDiv2(asSigned(a, w), (int)std::min<i128>(s, w - 1)), w); } }
  throw Unsupported("int op"); }
Val Interp::intCmp(unsigned pr, const Val& a, const Val& b, unsigned w) {
  if (!a.t && !b.t) { bool r; switch (pr) { case CmpInst::ICMP_EQ: r = uI(a, w) == uI(b, w); break; case CmpInst::ICMP_NE: r = uI(a, w) != uI(b, w); break; case CmpInst::ICMP_UGT: r = uI(a, w) > uI(b, w); break; case CmpInst::ICMP_UGE: r = uI(a, w) >= uI(b, w); break; case CmpInst::ICMP_ULT: r = uI(a, w) < uI(b, w); break; case CmpInst::ICMP_ULE: r = uI(a, w) <= uI(b, w); break; case CmpInst::ICMP_SGT: r = sI(a, w) > sI(b, w); break; case CmpInst::ICMP_SGE: r = sI(a, w) >= sI(b, w); break; case CmpInst::ICMP_SLT: r = sI(a, w) < sI(b, w); break; default: r = sI(a, w) <= sI(b, w); } return mkI(r); }
  Val v; if (a.t == tUndef || b.t == tUndef) { v.t = tUndef; return v; }
  if (w == 1) { TermP x = toBool(a), y = toBool(b); if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) { bool eq = pr == CmpInst::ICMP_EQ; if (y == tTrue) return fromT(eq ? x : mkNot(x), 1); if (y == tFalse) return fromT(eq ? mkNot(x) : x, 1); } }
  // raw float lanes compared against zero bits (e.g. mask tests)
  auto fl = [&](const Val& x) { return x.t && x.r != 0 && x.t->k != T_MASK; };
  if (fl(a) || fl(b)) { if ((pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) ) { Val c = fpCmp(pr == CmpInst::ICMP_EQ ? CmpInst::FCMP_OEQ : CmpInst::FCMP_ONE, a, b, (a.t ? a.r : b.r) == 1); return c; }
    const Val& f = fl(a) ? a : b; const Val& o = fl(a) ? b : a; if (!o.t && (pr == CmpInst::ICMP_SLT) && fl(a) && sI(o, w) == 0) return fpCmp(CmpInst::FCMP_OLT, f, mkD(0), f.r == 1); if (!o.t && pr == CmpInst::ICMP_SGT && fl(a) && sI(o, w) == -1) return fpCmp(CmpInst::FCMP_OGE, f, mkD(0), f.r == 1);
    throw Unsupported("integer compare of floating symbolic value in " + where(*this)); }
  if (a.t && a.t->k == T_MASK && !b.t) { if (pr == CmpInst::ICMP_SLT && sI(b, w) == 0) return fromT(a.t->a, 1); if (pr == CmpInst::ICMP_EQ && sI(b, w) == 0) return fromT(mkNot(a.t->a), 1); if (pr == CmpInst::ICMP_NE && sI(b, w) == 0) return fromT(a.t->a, 1); }
  bool sg = CmpInst::isSigned((CmpInst::Predicate)pr) ;
  if (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) { // any consistent representation
    TermP x = a.t ? rawToInt(a.t, w) : mkConst(sI(a, w)), y = b.t ? rawToInt(b.t, w) : mkConst(sI(b, w)); Iv i = ivOf(x), j = ivOf(y);
    auto in = [&](Iv q, bool s) { return w >= 124 || (s ? q.within(-p2(w - 1), p2(w - 1) - 1) : q.within(0, p2(w) - 1)); };
    if (!(in(i, true) && in(j, true))) { x = asUnsigned(a, w); y = asUnsigned(b, w); }
    if (x->k == T_ITE && x->b->k == T_CONST && x->c->k == T_CONST && y->k == T_CONST) { if (x->b->imm == y->imm && x->c->imm != y->imm) return fromT(pr == CmpInst::ICMP_EQ ? x->a : mkNot(x->a), 1); if (x->c->imm == y->imm && x->b->imm != y->imm) return fromT(pr == CmpInst::ICMP_EQ ? mkNot(x->a) : x->a, 1); }
    return fromT(mkCmp(pr == CmpInst::ICMP_EQ ? P_EQ : P_NE, x, y), 1); }
  TermP x = sg ? asSigned(a, w) : asUnsigned(a, w), y = sg ? asSigned(b, w) : asUnsigned(b, w);
  switch (pr) { case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return fromT(mkCmp(P_LT, y, x), 1); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return fromT(mkCmp(P_LE, y, x), 1); case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return fromT(mkCmp(P_LT, x, y), 1); default: return fromT(mkCmp(P_LE, x, y), 1); } }
Val Interp::selVal(TermP c, const Val& x, const Val& y, const Leaf& l) {
  if (c == tTrue) return x; if (c == tFalse) return y;
  if (c == tUndef) { if (!x.t && !y.t && x.lo == y.lo && x.hi == y.hi) return x; if (x.t && x.t == y.t) return x; Val v; v.t = tUndef; v.r = x.r; return v; }
  int d = decideIv(c); if (d == 1) return x; if (d == 0) return y;
  if (!x.t && !y.t && x.lo == y.lo && x.hi == y.hi) return x; if (x.t && x.t == y.t) return x;
  if (l.k == LK_INT && l.bits == 1) { TermP bx = toBool(x), by = toBool(y); if (bx != tUndef && by != tUndef) { TermP r = mkOrB(mkAndB(c, bx), mkAndB(mkNot(c), by)); return fromT(r, 1); } }
  if (x.t == tUndef || y.t == tUndef) return decide(c) ? x : y;
  if (l.k == LK_F64 || l.k == LK_F32) { bool f32 = l.k == LK_F32; double dx, dy; if (rawish(x) || rawish(y)) { Val v; v.t = mkRawIte(c, x.lo, x.t, x.r, y.lo, y.t, y.r, l.bits); v.r = l.k == LK_F64 ? 2 : 1; return v; }
    TermP a = fpTerm(x, f32, dx), b = fpTerm(y, f32, dy); if (a && b) { if (a->k != T_FMULC && b->k != T_FMULC) { TermP m = mkITE(c, a, b); if (m) { return fpRes(m, f32, "select"); } } } return decide(c) ? x : y; }
  if (l.k == LK_PTR) return decide(c) ? x : y;
  if ((x.t && x.r) || (y.t && y.r)) { Val v; v.t = mkRawIte(c, x.lo, x.t, x.r, y.lo, y.t, y.r, l.bits); v.r = x.t ? x.r : y.r; return v; }
  if (rawish(x) || rawish(y)) return decide(c) ? x : y;
  // two concrete ints equal to 0/1 -> keep as boolean integer
  if (!x.t && !y.t && l.bits == 64 && uI(x, 64) + uI(y, 64) == 1) return decide(c) ? x : y;
  if (!x.t && !y.t && l.bits > 1) { if (uI(x, l.bits) == 1 && uI(y, l.bits) == 0) return fromT(mkBoolInt(c), l.bits); if (uI(x, l.bits) == 0 && uI(y, l.bits) == 1) return fromT(mkBoolInt(mkNot(c)), l.bits); }
  TermP a = x.t ? x.t : mkConst(sI(x, l.bits)), b = y.t ? y.t : mkConst(sI(y, l.bits)); TermP m = mkITE(c, a, b); if (m) return fromT(m, l.bits); return decide(c) ? x : y; }
// ---------------------------------------------------------------- casts
Val Interp::castOp(unsigned opc, const Val& a, const Leaf& s, const Leaf& d) {
  if (!a.t) switch (opc) {
    case Instruction::Trunc: return fromI((i128)uI(a, d.bits), d.bits); case Instruction::ZExt: return fromI((i128)uI(a, s.bits), d.bits); case Instruction::SExt: return fromI(sI(a, s.bits), d.bits);
    case Instruction::FPTrunc: if (s.k == LK_F80) break; return mkF((float)asD(a)); case Instruction::FPExt: if (d.k == LK_F80) { long double x = s.k == LK_F32 ? (long double)asF(a) : (long double)asD(a); Val v; memcpy(&v.lo, &x, 8); memcpy(&v.hi, (char*)&x + 8, 2); return v; } return mkD((double)asF(a));
    case Instruction::FPToSI: { if (s.k == LK_F80) break; double x = s.k == LK_F32 ? asF(a) : asD(a); if (std::isnan(x) || std::fabs(x) > 1e37) { Val v; v.t = tUndef; return v; } return fromI((i128)x, d.bits); }
    case Instruction::FPToUI: { if (s.k == LK_F80) break; double x = s.k == LK_F32 ? asF(a) : asD(a); if (std::isnan(x) || std::fabs(x) > 1e37) { Val v; v.t = tUndef; return v; } return fromI((i128)x, d.bits); }
    case Instruction::SIToFP: { i128 x = sI(a, s.bits); if (d.k == LK_F80) { long double y = (long double)x; Val v; memcpy(&v.lo, &y, 8); memcpy(&v.hi, (char*)&y + 8, 2); return v; } return d.k == LK_F32 ? mkF((float)x) : mkD((double)x); }
    case Instruction::UIToFP: { u128 x = uI(a, s.bits); if (d.k == LK_F80) { long double y = (long double)x; Val v; memcpy(&v.lo, &y, 8); memcpy(&v.hi, (char*)&y + 8, 2); return v; } return d.k == LK_F32 ? mkF((float)x) : mkD((double)x); }
    case Instruction::PtrToInt: return fromI((i128)uI(a, 64), d.bits); case Instruction::IntToPtr: return fromI((i128)uI(a, s.bits), 64);
  }
  if (!a.t) { long double x; memcpy(&x, &a.lo, 8); memcpy((char*)&x + 8, &a.hi, 2); switch (opc) { case Instruction::FPTrunc: return d.k == LK_F32 ? mkF((float)x) : mkD((double)x); case Instruction::FPToSI: case Instruction::FPToUI: return fromI((i128)x, d.bits); } throw Unsupported("cast"); }
  if (opc == Instruction::ZExt && s.bits == 1 && d.bits == 64 && a.t != tUndef) { TermP c = isBool(a.t) ? a.t : mkCmp(P_NE, asUnsigned(a, 1), mkConst(0)); return fromI(decide(c) ? 1 : 0, 64); }
  if (a.t == tUndef) { Val v; v.t = tUndef; v.r = d.k == LK_F64 ? 2 : d.k == LK_F32 ? 1 : 0; return v; }
  switch (opc) {
    case Instruction::Trunc: { if (a.t->k == T_MASK) { if (d.bits == 1) return fromT(a.t->a, 1); Val v; v.t = mkMask(a.t->a, d.bits); return v; } if (a.r) throw Unsupported("trunc of floating symbolic bits in " + where(*this)); if (d.bits == 1) { TermP t = rawToInt(a.t, s.bits); if (t->k == T_ITE && t->b->k == T_CONST && t->c->k == T_CONST && t->b->imm == 1 && t->c->imm == 0) return fromT(t->a, 1); return fromT(mkCmp(P_NE, mkFMod2(t, 1), mkConst(0)), 1); }
      TermP t = rawToInt(a.t, s.bits); Iv i = ivOf(t); if (d.bits >= 124 || i.within(-p2(d.bits - 1), p2(d.bits) - 1)) return fromT(t, d.bits); return fromT(mkFMod2(t, d.bits), d.bits); }
    case Instruction::ZExt: if (s.bits == 1) return fromT(mkBoolInt(toBool(a)), d.bits); if (a.r) return a; return fromT(asUnsigned(a, s.bits), d.bits);
    case Instruction::SExt: if (s.bits == 1) { Val v; v.t = mkMask(toBool(a), d.bits); return v; } if (a.t->k == T_MASK) { Val v; v.t = mkMask(a.t->a, d.bits); return v; } return fromT(asSigned(a, s.bits), d.bits);
    case Instruction::FPTrunc: { double x; TermP t = fpTerm(a, false, x); return fpRes(t, true, "fptrunc"); }
    case Instruction::FPExt: { double x; TermP t = fpTerm(a, true, x); Val v = a; v.t = t; v.r = 2; return v; }
    case Instruction::FPToSI: case Instruction::FPToUI: { double x; TermP t = fpTerm(a, s.k == LK_F32, x); if (t->k == T_FMULC) t = mkFloor(t, 2); Iv i = ivOf(t); unsigned w = d.bits; Iv lim = opc == Instruction::FPToSI ? Iv{-p2(w - 1), p2(w - 1) - 1} : Iv{0, p2(w) - 1}; if (w < 124 && !i.within(lim.lo, lim.hi)) { noteInexact("fp to int conversion out of range in " + where(*this)); t = mkOpaque("fptoint", lim, true); } return fromT(t, d.bits); }
    case Instruction::SIToFP: case Instruction::UIToFP: { TermP t = opc == Instruction::SIToFP ? asSigned(a, s.bits) : asUnsigned(a, s.bits); return fpRes(t, d.k == LK_F32, "inttofp"); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a;
  }
  throw Unsupported("cast"); }
std::vector<Val> Interp::bitcast(const Val* a, TyInfo* s, TyInfo* d) {
  std::vector<Val> r; if (s->l.size() == d->l.size()) { for (size_t i = 0; i < s->l.size(); i++) { Val v = a[i]; if (!v.t) v.r = d->l[i].k == LK_F64 ? 2 : d->l[i].k == LK_F32 ? 1 : 0; r.push_back(v); } return r; }
  // general: through bytes, symbolic lanes only when aligned to a whole destination lane
  unsigned sb = s->l[0].bits, db = d->l[0].bits; 
  if (sb < 8 || db < 8) { // i1 vectors to integer
    if (sb == 1 && d->l.size() == 1) { bool sym = false; for (size_t i = 0; i < s->l.size(); i++) if (a[i].t) sym = true; if (!sym) { uint64_t x = 0; for (size_t i = 0; i < s->l.size(); i++) x |= (a[i].lo & 1) << i; r.push_back(mkI(x)); return r; }
      uint64_t x = 0; for (size_t i = 0; i < s->l.size(); i++) if (decide(toBool(a[i]))) x |= 1ull << i; r.push_back(mkI(x)); return r; }
    if (db == 1 && s->l.size() == 1 && !a[0].t) { for (size_t i = 0; i < d->l.size(); i++) r.push_back(mkI((a[0].lo >> i) & 1)); return r; }
    throw Unsupported("bitcast of bit vectors"); }
  size_t total = s->l.size() * sb / 8; std::vector<uint8_t> by(total); bool sym = false; for (size_t i = 0; i < s->l.size(); i++) { if (a[i].t) sym = true; Val t = a[i]; memcpy(&by[i * sb / 8], &t.lo, std::min<unsigned>(8, sb / 8)); if (sb > 64) memcpy(&by[i * sb / 8 + 8], &t.hi, 8); }
  for (size_t i = 0; i < d->l.size(); i++) { Val v; v.r = d->l[i].k == LK_F64 ? 2 : d->l[i].k == LK_F32 ? 1 : 0; memcpy(&v.lo, &by[i * db / 8], std::min<unsigned>(8, db / 8)); if (db > 64) memcpy(&v.hi, &by[i * db / 8 + 8], 8);
    if (sym) { if (sb > db) { const Val& x = a[i * db / sb]; if (x.t) { if (x.t == tUndef) v.t = tUndef; else if (x.t->k == T_MASK) { v.t = mkMask(x.t->a, db); v.r = 0; } else if (x.r == 0) { unsigned sh = (i * db) % sb; TermP t = asUnsigned(x, sb); v = fromT(mkFMod2(mkFDiv2(t, sh), db), db); } else throw Unsupported("splitting a floating symbolic lane"); } }
      else { unsigned k = db / sb; bool any = false, und = false, allm = true; TermP c = nullptr; for (unsigned j = 0; j < k; j++) { const Val& x = a[i * k + j]; if (x.t) { any = true; if (x.t == tUndef) und = true; } if (!x.t || x.t->k != T_MASK || (c && x.t->a != c)) allm = false; else c = x.t->a; }
        if (und) v.t = tUndef; else if (any && allm) { v.t = mkMask(c, db); v.r = 0; } else if (any) { TermP t = mkConst(0); for (unsigned j = 0; j < k; j++) { const Val& x = a[i * k + j]; if (x.t && x.r) throw Unsupported("joining floating symbolic lanes"); t = mkAdd(t, mkMul(asUnsigned(x, sb), mkConst(p2(j * sb)))); } v = fromT(t, db); } } }
    r.push_back(v); }
  return r; }
#include "exec.inc"
