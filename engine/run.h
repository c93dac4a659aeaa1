#pragma once
#include "interp.h"
struct NeedFork {};
struct Undo { uint64_t a; uint8_t f, b, size, r; TermP t; };
struct Wr { uint64_t a; Leaf l; bool x; };
struct Interp {
  llvm::Module* M; std::vector<Frame> st; std::unordered_map<llvm::Function*, DFunc*> funcs; std::unordered_map<uint64_t, DFunc*> faddr; std::vector<DFunc*> flist;
  std::unordered_map<llvm::GlobalValue*, uint64_t> globs; std::map<uint64_t, uint64_t> gConstGlob; bool inCtor = true;
  std::unordered_map<std::string, Handler> handlers; std::vector<std::pair<std::string, Handler>> prefixHandlers; std::unordered_map<llvm::Instruction*, std::string> errs;
  bool spec = false; std::vector<Undo> undo; std::vector<Wr> writes; uint64_t nInst = 0, maxInst = 400000000ull; uint64_t stackPtr = 0;
  uint64_t excObj = 0, excType = 0, caught = 0; std::map<uint64_t, uint64_t> excTypeOf; std::vector<uint64_t> caughtStack;
  // memory
  bool inArena(uint64_t a); uint64_t heapAlloc(uint64_t, uint64_t, bool); void heapFree(uint64_t); Val load(uint64_t, const Leaf&); void store(uint64_t, const Leaf&, const Val&); void rollback(size_t); void memcopy(uint64_t, uint64_t, uint64_t); void memfill(uint64_t, uint8_t, uint64_t); bool anySym(uint64_t, uint64_t); void markInit(uint64_t);
  uint64_t globalAddr(llvm::GlobalValue*); std::vector<Val> constVals(llvm::Constant*); DFunc* func(llvm::Function*); void decode(DFunc*);
  TermP asSigned(const Val&, unsigned), asUnsigned(const Val&, unsigned), rawToInt(TermP, unsigned), rawToFp(TermP, bool), fpTerm(const Val&, bool, double&), toBool(const Val&); bool isMultipleOf2(TermP, int);
  Val fpRes(TermP, bool, const char*), fpBin(unsigned, const Val&, const Val&, bool), fpFma(const Val&, const Val&, const Val&, bool, bool), fpCmp(unsigned, const Val&, const Val&, bool), bitOp(unsigned, const Val&, const Val&, unsigned), intBin(unsigned, const Val&, const Val&, unsigned, bool, bool), intCmp(unsigned, const Val&, const Val&, unsigned), selVal(TermP, const Val&, const Val&, const Leaf&), castOp(unsigned, const Val&, const Leaf&, const Leaf&);
  std::vector<Val> bitcast(const Val*, TyInfo*, TyInfo*);
  // execution
  void loadModule(const std::string& path); void initGlobals(); void installHandlers(); void callTop(DFunc*, const std::vector<Val>& args); void loop(size_t base); void exec1(Frame& f, DInst& D); void doCall(Frame& f, DInst& D); void intrinsic(Frame& f, DInst& D); void pushFrame(DFunc*, const std::vector<std::vector<Val>>& args, DInst* call); void jump(Frame& f, int to); void nativeCall(Frame& f, DInst& D, DFunc* d); void doThrow(); bool condBranch(Frame& f, DInst& D, TermP c); void finishCall(Frame& f, DInst& D);
  Val* ov(Frame& f, int id) { return id >= 0 ? &f.s[id] : &f.f->cpool[~id]; }
  uint64_t ptr(const Val& v); i128 conc(const Val& v, unsigned w, bool sg, const char* what); std::string cstr(uint64_t a);
  std::string backtrace(); void setDet(bool);
  bool hDeclined=false,hPushed=false,inSpec=false,noMerge=false; uint64_t nMerge=0; std::set<std::string> nativeUsed; void tick(); int typeId(uint64_t); bool matchExc(uint64_t); void clearStack(uint64_t,uint64_t); Val fpRound(const Val&,bool,int); void throwObj(uint64_t,uint64_t);
  Val arg(DInst& D, int i) { return *ov(st.back(), D.op[i]); }
};
TyInfo* tyInfo(llvm::Type* t);
TermP mkBoolInt(TermP c);
extern uint8_t* gCov;
extern std::map<uint64_t, uint64_t> gAllocs;
void installSpec(Interp& I);
