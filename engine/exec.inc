static TermP resolveIte(TermP t) { switch (t->k) { case T_ITE: return decide(t->a) ? resolveIte(t->b) : resolveIte(t->c); case T_ADD: return mkAdd(resolveIte(t->a), resolveIte(t->b)); case T_SUB: return mkSub(resolveIte(t->a), resolveIte(t->b)); case T_MUL: return mkMul(resolveIte(t->a), resolveIte(t->b)); default: return t; } }
// ---------------------------------------------------------------- execution
uint8_t* gCov = nullptr;
uint64_t Interp::ptr(const Val& v) { if (v.t) { if (v.t == tUndef) throw Candidate("uninitialised pointer used in " + where(*this)); i128 c; TermP t = rawToInt(v.t, 64); if (tryConst(t, c)) return (uint64_t)c; // enumerate small ranges
    t = resolveIte(t); if (tryConst(t, c)) return c;
  Iv i = ivOf(t); if (i.hi - i.lo <= 64) { for (i128 x = i.lo; x < i.hi; x++) if (decide(mkCmp(P_EQ, t, mkConst(x)))) return (uint64_t)x; return (uint64_t)i.hi; }
    throw Unsupported("symbolic pointer in " + where(*this)); } return v.lo; }
i128 Interp::conc(const Val& v, unsigned w, bool sg, const char* what) { if (!v.t) return sg ? sI(v, w) : (i128)uI(v, w); if (v.t == tUndef) throw Candidate(std::string("uninitialised ") + what + " in " + where(*this)); TermP t = sg ? asSigned(v, w) : asUnsigned(v, w); i128 c; if (tryConst(t, c)) return c;
  t = resolveIte(t); if (tryConst(t, c)) return c;
  Iv i = ivOf(t); if (i.hi - i.lo <= 64) { for (i128 x = i.lo; x < i.hi; x++) if (decide(mkCmp(P_EQ, t, mkConst(x)))) return x; return i.hi; }
  throw Unsupported(std::string("symbolic ") + what + " in " + where(*this)); }
std::string Interp::cstr(uint64_t a) { return std::string((const char*)a); }
// inline small helper functions of the field and standard libraries so that two-armed updates become selects
static void simplifyModule(Module* M) {
  std::vector<Function*> small;
  for (auto& F : *M) { if (F.isDeclaration() || F.isVarArg()) continue; std::string n = demangle(F.getName().str()); bool own = n.find("FFLAS::") == 0 || n.find("FFPACK::") == 0; size_t cnt = 0; bool bad = false; for (auto& b : F) { if (b.isEHPad()) bad = true; for (auto& i : b) { cnt++; if (auto* c = dyn_cast<CallBase>(&i)) { if (c->getCalledFunction() == &F || isa<InvokeInst>(c)) bad = true; } if (isa<SwitchInst>(&i) || isa<IndirectBrInst>(&i)) bad = true; } }
    if (bad) continue; bool loop = false; { std::set<const BasicBlock*> seen; for (auto& b : F) { seen.insert(&b); for (auto* s : successors(&b)) if (seen.count(s)) loop = true; } }
    if (loop) continue; if (F.getName().starts_with("vs_")) continue; size_t nb = F.size();
    bool giv = n.find("Givaro::") != std::string::npos && !own; if (n.find("Givaro::") == 0 || n.find("double& Givaro::") == 0 || n.find("float& Givaro::") == 0 || n.find("std::") == 0) giv = true;
    bool inv = n.find("::inv(") != std::string::npos || n.find("extended_euclid") != std::string::npos || n.find("invext") != std::string::npos;
    if (!inv && ((giv && cnt <= 60 && nb <= 8) || (cnt <= 12 && nb == 1 && !own))) small.push_back(&F); }
  for (auto* F : small) { F->removeFnAttr(Attribute::NoInline); F->removeFnAttr(Attribute::OptimizeNone); F->addFnAttr(Attribute::AlwaysInline); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, "always-inline,function(sroa,early-cse,simplifycfg<bonus-inst-threshold=4;speculate-blocks;two-entry-phi-node-folding-threshold=8>,early-cse)")) { consumeError(std::move(e)); ModulePassManager M2; if (auto e2 = PB.parsePassPipeline(M2, "always-inline,function(sroa,early-cse,simplifycfg,early-cse)")) { fprintf(stderr, "pass pipeline\n"); _exit(3); } M2.run(*M, MAM); return; }
  MPM.run(*M, MAM); }
void Interp::loadModule(const std::string& path) {
  static LLVMContext C; SMDiagnostic E; auto m = parseIRFile(path, E, C); if (!m) { fprintf(stderr, "cannot parse %s: %s\n", path.c_str(), E.getMessage().str().c_str()); _exit(3); } M = m.release(); simplifyModule(M); DL = &M->getDataLayout(); memInit(); stackPtr = gStack; }
void Interp::initGlobals() {
  for (auto& g : M->globals()) {
    std::string n = g.getName().str();
    if (g.isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, n.c_str()); if (p) globs[&g] = (uint64_t)p; continue; }
    uint64_t sz = DL->getTypeAllocSize(g.getValueType()).getFixedValue(); uint64_t a = carve(gGlob, gGlobEnd, sz ? sz : 1, g.getAlign() ? g.getAlign()->value() : 16, B_INIT); globs[&g] = a; if (g.isConstant()) gConstGlob[a] = sz; gAllocs[a] = sz ? sz : 1; }
  for (auto& f : *M) func(&f);
  for (auto& g : M->globals()) if (!g.isDeclaration() && g.hasInitializer()) { auto* c = g.getInitializer(); if (isa<UndefValue>(c) || c->isNullValue()) continue; auto* ti = tyInfo(g.getValueType());
      try { auto v = constVals(c); for (size_t i = 0; i < v.size(); i++) if (!v[i].t) store(globs[&g] + ti->l[i].off, ti->l[i], v[i]); } catch (Unsupported& u) { if (g.getName() != "llvm.global_ctors") fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.what()); } }
  if (auto* ct = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(ct->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : arr->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) callTop(func(p.second), {}); }
  inCtor = false;
}
void Interp::pushFrame(DFunc* d, const std::vector<std::vector<Val>>& args, DInst* call) {
  if (!d->decoded) decode(d); if (gCov) gCov[d->id] = 1; if (st.size() > 4000) throw Candidate("stack overflow (runaway recursion) in " + where(*this));
  st.emplace_back(); Frame& f = st.back(); f.f = d; f.s.resize(d->nslots); f.stackTop = stackPtr; f.call = call;
  for (size_t i = 0; i < args.size() && i < d->argSlot.size(); i++) for (size_t k = 0; k < args[i].size(); k++) f.s[d->argSlot[i] + k] = args[i][k];
  if (args.size() > d->argSlot.size()) throw Unsupported("varargs function " + d->name);
  f.blk = 0; f.ip = 0;
}
void Interp::callTop(DFunc* d, const std::vector<Val>& args) { std::vector<std::vector<Val>> a; for (auto& x : args) a.push_back({x}); size_t b = st.size(); pushFrame(d, a, nullptr); loop(b); }
void Interp::loop(size_t base) {
  while (st.size() > base) { Frame& f = st.back(); DBlock& B = f.f->bl[f.blk]; DInst& D = B.ins[f.ip++]; 
    if (++nInst > maxInst) throw Budget("instruction budget in " + where(*this)); if ((nInst & 0xffff) == 0) tick(); exec1(f, D); } }
void Interp::jump(Frame& f, int to) {
  DBlock& T = f.f->bl[to]; int from = f.blk;
  if (!T.phis.empty()) { static std::vector<Val> tmp; tmp.clear();
    for (auto& P : T.phis) { size_t k = 0; while (k < P.aux.size() && P.aux[k] != from) k++; Val* s = ov(f, P.op[k]); for (size_t i = 0; i < P.ty->l.size(); i++) tmp.push_back(s[i]); }
    size_t q = 0; for (auto& P : T.phis) for (size_t i = 0; i < P.ty->l.size(); i++) f.s[P.dst + i] = tmp[q++]; }
  f.blk = to; f.ip = 0; }
// branch on a symbolic condition: merge simple diamonds, otherwise decide (fork)
bool Interp::condBranch(Frame& f, DInst& D, TermP c) {
  int d = c == tUndef ? -1 : decideIv(c); if (d >= 0) { jump(f, D.blk[d ? 0 : 1]); return true; }
  if (c == tUndef) throw Candidate("branch depends on uninitialised data in " + where(*this));
  int t = D.blk[0], e = D.blk[1]; DBlock &T = f.f->bl[t], &E = f.f->bl[e]; int join = -1;
  if (T.simple && T.simpleSucc == e && T.predIdx.empty()) join = e; else if (E.simple && E.simpleSucc == t) join = t; else if (T.simple && E.simple && T.simpleSucc == E.simpleSucc) join = T.simpleSucc;
  if (join >= 0 && !spec && !noMerge) {
    int cur = f.blk; size_t ip = f.ip; spec = true; undo.clear(); writes.clear(); bool ok = true; size_t nRes = gResid.size(), nSub = gSubsts.size(); inSpec = true;
    struct Out { std::vector<Val> phis; std::map<uint64_t, std::pair<Leaf, Val>> mem; } o[2]; std::map<TermP, Iv> saved = gRefine;
    try {
      for (int k = 0; k < 2 && ok; k++) { int b = k ? e : t; writes.clear(); int from = cur;
        if (b != join) { f.blk = b; f.ip = 0; from = b; DBlock& B = f.f->bl[b]; for (size_t q = 0; q + 1 < B.ins.size(); q++) exec1(f, B.ins[q]); }
        for (auto& P : f.f->bl[join].phis) { size_t j = 0; while (j < P.aux.size() && P.aux[j] != from) j++; Val* s = ov(f, P.op[j]); for (size_t i = 0; i < P.ty->l.size(); i++) o[k].phis.push_back(s[i]); }
        for (auto& w : writes) { o[k].mem[w.a] = {w.l, load(w.a, w.l)}; }
        rollback(0); }
    } catch (NeedFork&) { ok = false; } catch (Unsupported&) { ok = false; } catch (Candidate&) { ok = false; }
    if (!ok) rollback(0);
    spec = false; 
    std::vector<Val> ph; std::vector<std::pair<uint64_t, std::pair<Leaf, Val>>> ms;
    if (ok) try {
      size_t q = 0; for (auto& P : f.f->bl[join].phis) for (size_t i = 0; i < P.ty->l.size(); i++, q++) ph.push_back(selVal(c, o[0].phis[q], o[1].phis[q], P.ty->l[i]));
      for (int k = 0; k < 2; k++) for (auto& m : o[k].mem) { auto& oth = o[1 - k].mem; auto it = oth.find(m.first); if (k == 1 && it != oth.end()) continue; Val other = it != oth.end() ? it->second.second : load(m.first, m.second.first); if (it != oth.end() && it->second.first.bytes != m.second.first.bytes) throw Unsupported("merge"); ms.push_back({m.first, {m.second.first, k == 0 ? selVal(c, m.second.second, other, m.second.first) : selVal(c, other, m.second.second, m.second.first)}}); }
    } catch (NeedFork&) { ok = false; } catch (Unsupported&) { ok = false; } catch (Candidate&) { ok = false; }
    inSpec = false; if (gResid.size() != nRes || gSubsts.size() != nSub) abort();
    if (ok) { size_t q = 0; for (auto& P : f.f->bl[join].phis) for (size_t i = 0; i < P.ty->l.size(); i++) f.s[P.dst + i] = ph[q++]; for (auto& m : ms) store(m.first, m.second.first, m.second.second); f.blk = join; f.ip = 0; nMerge++; return true; }
    f.blk = cur; f.ip = ip; 
  }
  if (spec) throw NeedFork();
  bool r = decide(c); jump(f, D.blk[r ? 0 : 1]); return r; }
void Interp::finishCall(Frame& f, DInst& D) { if (D.opc == Instruction::Invoke) jump(f, D.blk[0]); }
void Interp::exec1(Frame& f, DInst& D) {
  Val* dst = D.dst >= 0 ? &f.s[D.dst] : nullptr;
  switch (D.opc) {
    case 0: throw Unsupported("instruction: " + errs[D.I]);
    case Instruction::Ret: { std::vector<Val> rv; if (D.op.size()) { Val* s = ov(f, D.op[0]); rv.assign(s, s + D.ty0->l.size()); } DInst* call = f.call; auto cb = f.onRet;
      if (stackPtr > f.stackTop) { clearStack(f.stackTop, stackPtr); stackPtr = f.stackTop; }
      st.pop_back(); if (cb) cb(); if (!st.empty() && call) { Frame& g = st.back(); if (call->dst >= 0) for (size_t i = 0; i < rv.size(); i++) g.s[call->dst + i] = rv[i]; finishCall(g, *call); } return; }
    case Instruction::Br: { if (D.blk[1] < 0) { jump(f, D.blk[0]); return; } Val* c = ov(f, D.op[0]); if (!c->t) { jump(f, D.blk[(c->lo & 1) ? 0 : 1]); return; } condBranch(f, D, toBool(*c)); return; }
    case Instruction::Switch: { Val* c = ov(f, D.op[0]); unsigned w = D.ty0->l[0].bits; if (c->t) { if (c->t == tUndef) throw Candidate("switch on uninitialised data in " + where(*this)); for (size_t k = 0; k < D.aux.size(); k++) { Val e = intCmp(CmpInst::ICMP_EQ, *c, *ov(f, D.op[k + 1]), w); if (e.t ? decide(e.t) : (e.lo & 1)) { jump(f, D.aux[k]); return; } } jump(f, D.blk[0]); return; }
      for (size_t k = 0; k < D.aux.size(); k++) if (uI(*ov(f, D.op[k + 1]), w) == uI(*c, w)) { jump(f, D.aux[k]); return; } jump(f, D.blk[0]); return; }
    case Instruction::Unreachable: throw Candidate("reached unreachable code in " + where(*this));
    case Instruction::FNeg: { Val* a = ov(f, D.op[0]); for (size_t i = 0; i < D.ty->l.size(); i++) { bool f32 = D.ty->l[i].k == LK_F32; if (!a[i].t) dst[i] = f32 ? mkF(-asF(a[i])) : mkD(-asD(a[i])); else { double x; TermP t = fpTerm(a[i], f32, x); dst[i] = fpRes(t == tUndef ? t : mkSub(mkConst(0), t), f32, "fneg"); } } return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); for (size_t i = 0; i < D.ty->l.size(); i++) { if (D.ty->l[i].k == LK_F80) { long double x, y; memcpy(&x, &a[i].lo, 10); y = 0; memcpy(&x, &a[i].lo, 8); memcpy((char*)&x + 8, &a[i].hi, 2); memcpy(&y, &b[i].lo, 8); memcpy((char*)&y + 8, &b[i].hi, 2); if (a[i].t || b[i].t) throw Unsupported("symbolic long double"); long double z = D.opc == Instruction::FAdd ? x + y : D.opc == Instruction::FSub ? x - y : D.opc == Instruction::FMul ? x * y : D.opc == Instruction::FDiv ? x / y : fmodl(x, y); Val v; memcpy(&v.lo, &z, 8); memcpy(&v.hi, (char*)&z + 8, 2); dst[i] = v; continue; } dst[i] = fpBin(D.opc, a[i], b[i], D.ty->l[i].k == LK_F32); } return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); bool nsw = false, nuw = false; if (auto* o = dyn_cast<OverflowingBinaryOperator>(D.I)) { nsw = o->hasNoSignedWrap(); nuw = o->hasNoUnsignedWrap(); }
      for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = intBin(D.opc, a[i], b[i], D.ty->l[i].bits, nsw, nuw); return; }
    case Instruction::ICmp: { Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); unsigned p = cast<CmpInst>(D.I)->getPredicate(); for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = intCmp(p, a[i], b[i], D.ty0->l[i].bits); return; }
    case Instruction::FCmp: { Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); unsigned p = cast<CmpInst>(D.I)->getPredicate(); for (size_t i = 0; i < D.ty->l.size(); i++) { if (D.ty0->l[i].k == LK_F80) { long double x = 0, y = 0; memcpy(&x, &a[i].lo, 8); memcpy((char*)&x + 8, &a[i].hi, 2); memcpy(&y, &b[i].lo, 8); memcpy((char*)&y + 8, &b[i].hi, 2); dst[i] = fpCmp(p, mkD((double)(x - y)), mkD(0), false); continue; } dst[i] = fpCmp(p, a[i], b[i], D.ty0->l[i].k == LK_F32); } return; }
    case Instruction::Select: { Val* c = ov(f, D.op[0]); Val *x = ov(f, D.op[1]), *y = ov(f, D.op[2]); bool vc = D.ty0->l.size() > 1; std::vector<Val> r; for (size_t i = 0; i < D.ty->l.size(); i++) { Val& cc = c[vc ? i : 0]; if (!cc.t) r.push_back((cc.lo & 1) ? x[i] : y[i]); else r.push_back(selVal(toBool(cc), x[i], y[i], D.ty->l[i])); } for (size_t i = 0; i < r.size(); i++) dst[i] = r[i]; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val* a = ov(f, D.op[0]); for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = castOp(D.opc, a[i], D.ty0->l[i], D.ty->l[i]); return; }
    case Instruction::BitCast: { auto r = bitcast(ov(f, D.op[0]), D.ty0, D.ty); for (size_t i = 0; i < r.size(); i++) dst[i] = r[i]; return; }
    case Instruction::AddrSpaceCast: case Instruction::Freeze: { Val* a = ov(f, D.op[0]); for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = a[i]; return; }
    case Instruction::Alloca: { auto* A = cast<AllocaInst>(D.I); uint64_t n = (uint64_t)conc(*ov(f, D.op[0]), 64, false, "alloca size"); uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue() * n; uint64_t a = carve(stackPtr, gStackEnd, sz ? sz : 1, A->getAlign().value(), B_UNINIT); *dst = mkI(a); return; }
    case Instruction::Load: { uint64_t a = ptr(*ov(f, D.op[0])); if (D.ty->l.size() > 1 && D.ty->l[0].bits == 1) throw Unsupported("load of bit vector"); std::vector<Val> r; for (auto& l : D.ty->l) { Val v = load(a + l.off, l); if (!v.t && l.k == LK_INT && l.bits < 8) v.lo &= (1u << l.bits) - 1; dst[&l - &D.ty->l[0]] = v; } return; }
    case Instruction::Store: { uint64_t a = ptr(*ov(f, D.op[1])); Val* s = ov(f, D.op[0]); for (auto& l : D.ty0->l) store(a + l.off, l, s[&l - &D.ty0->l[0]]); return; }
    case Instruction::GetElementPtr: { uint64_t a = ptr(*ov(f, D.op[0])); a += D.imm; for (size_t k = 0; k < D.gep.size(); k++) { Val* ix = ov(f, D.gep[k].first); if (ix->t == tUndef) { Val v; v.t = tUndef; *dst = v; return; } a += (uint64_t)((int64_t)conc(*ix, D.aux[k], true, "index") * D.gep[k].second); } *dst = mkI(a); return; }
    case Instruction::ExtractValue: { Val* a = ov(f, D.op[0]) + D.imm; for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = a[i]; return; }
    case Instruction::InsertValue: { Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = a[i]; size_t n = tyInfo(cast<InsertValueInst>(D.I)->getInsertedValueOperand()->getType())->l.size(); for (size_t i = 0; i < n; i++) dst[D.imm + i] = b[i]; return; }
    case Instruction::ExtractElement: { Val* a = ov(f, D.op[0]); uint64_t i = (uint64_t)conc(*ov(f, D.op[1]), tyInfo(D.I->getOperand(1)->getType())->l[0].bits, false, "lane"); *dst = a[i]; return; }
    case Instruction::InsertElement: { Val* a = ov(f, D.op[0]); Val e = *ov(f, D.op[1]); uint64_t k = (uint64_t)conc(*ov(f, D.op[2]), tyInfo(D.I->getOperand(2)->getType())->l[0].bits, false, "lane"); for (size_t i = 0; i < D.ty->l.size(); i++) dst[i] = a[i]; dst[k] = e; return; }
    case Instruction::ShuffleVector: { Val *a = ov(f, D.op[0]), *b = ov(f, D.op[1]); int n = D.ty0->l.size(); std::vector<Val> r; for (int m : D.aux) { if (m < 0) { Val v; v.t = tUndef; v.r = a[0].r; r.push_back(v); } else r.push_back(m < n ? a[m] : b[m - n]); } for (size_t i = 0; i < r.size(); i++) dst[i] = r[i]; return; }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: { auto* A = cast<AtomicRMWInst>(D.I); uint64_t a = ptr(*ov(f, D.op[0])); Val v = *ov(f, D.op[1]); Leaf l = D.ty->l[0]; Val o = load(a, l), n; switch (A->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = intBin(Instruction::Add, o, v, l.bits, false, false); break; case AtomicRMWInst::Sub: n = intBin(Instruction::Sub, o, v, l.bits, false, false); break; case AtomicRMWInst::Or: n = bitOp(Instruction::Or, o, v, l.bits); break; case AtomicRMWInst::And: n = bitOp(Instruction::And, o, v, l.bits); break; default: throw Unsupported("atomicrmw"); } store(a, l, n); *dst = o; return; }
    case Instruction::AtomicCmpXchg: { uint64_t a = ptr(*ov(f, D.op[0])); Val c = *ov(f, D.op[1]), n = *ov(f, D.op[2]); Leaf l = D.ty->l[0]; l.off = 0; Val o = load(a, l); bool eq = o.lo == c.lo; if (o.t || c.t) throw Unsupported("cmpxchg symbolic"); if (eq) store(a, l, n); dst[0] = o; dst[1] = mkI(eq); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(f, D); return;
    case Instruction::LandingPad: { auto* L = cast<LandingPadInst>(D.I); int sel = 0; for (unsigned i = 0; i < L->getNumClauses(); i++) if (L->isCatch(i)) { uint64_t ti = constVals(L->getClause(i))[0].lo; if (matchExc(ti)) { sel = typeId(ti); break; } } dst[0] = mkI(excObj); dst[1] = mkI(sel); return; }
    case Instruction::Resume: { doThrow(); return; }
    default: throw Unsupported(std::string("opcode ") + D.I->getOpcodeName());
  } }
static std::map<uint64_t, int> gTid;
int Interp::typeId(uint64_t ti) { auto it = gTid.find(ti); if (it != gTid.end()) return it->second; int n = gTid.size() + 1; gTid[ti] = n; return n; }
bool Interp::matchExc(uint64_t ti) { if (!ti) return true; if (ti == excType) return true; const std::type_info* c = (const std::type_info*)ti; const std::type_info* t = (const std::type_info*)excType; if (*c == *t) return true; void* o = (void*)excObj; return c->__do_catch(t, &o, 1); }
void Interp::doThrow() {
  while (!st.empty()) { Frame& f = st.back(); // f.ip points after the call/invoke
    DInst& D = f.f->bl[f.blk].ins[f.ip - 1];
    if (D.opc == Instruction::Invoke) { // does the landing pad want it?
      jump(f, D.blk[1]); return; }
    if (stackPtr > f.stackTop) { clearStack(f.stackTop, stackPtr); stackPtr = f.stackTop; }
    bool top = f.call == nullptr; st.pop_back(); if (top) break; }
  throw Candidate(std::string("uncaught exception of type ") + (excType ? demangle(((const std::type_info*)excType)->name()) : "?"));
}
void Interp::clearStack(uint64_t a, uint64_t b) { for (uint64_t i = a; i < b; i++) if (*sh(i) == B_SYM) gMem.erase(i); memset(sh(a), 0, b - a); }
void Interp::doCall(Frame& f, DInst& D) {
  auto* CB = cast<CallBase>(D.I); DFunc* d = D.callee;
  if (CB->isInlineAsm()) { // empty barriers and cpuid-free asm only
    auto* A = cast<InlineAsm>(CB->getCalledOperand()); if (A->getAsmString().empty()) { finishCall(f, D); return; } if (A->getAsmString() == "cpuid" && D.dst >= 0) { unsigned r[4]; Val &a0 = *ov(f, D.op[0]), &c0 = *ov(f, D.op[1]); if (a0.t || c0.t) throw Unsupported("cpuid on symbolic data"); __cpuid_count((unsigned)a0.lo, (unsigned)c0.lo, r[0], r[1], r[2], r[3]); for (int i = 0; i < 4; i++) f.s[D.dst + i] = fromI((i128)r[i], 32); finishCall(f, D); return; } throw Unsupported("inline asm: " + A->getAsmString().substr(0, 60)); }
  if (!d) { uint64_t a = ptr(*ov(f, D.op.back())); if (D.opc == Instruction::Invoke) { a = ptr(*ov(f, D.op.back())); } auto it = faddr.find(a); if (it == faddr.end()) { if (!a) throw Candidate("call through null pointer in " + where(*this)); throw Unsupported("indirect call to native code in " + where(*this)); } d = it->second; }
  if (d->external && d->name == "__kmpc_fork_call") { if (auto* vf = M->getFunction("vs_kmpc_fork")) { DFunc* k = func(vf); std::vector<std::vector<Val>> args; for (unsigned i = 0; i < CB->arg_size(); i++) { Val* s = ov(f, D.op[i]); args.push_back({*s}); } while (args.size() < k->argSlot.size()) args.push_back({mkI(0)}); pushFrame(k, args, &D); return; } }
  if (d->h) { size_t depth = st.size(); Val rv[8]; { Handler& h = *d->h; h(*this, D, rv); } 
    if (hDeclined) { hDeclined = false; } else {
    if (hPushed) { hPushed = false; return; } (void)depth; Frame& g = st.back(); if (D.dst >= 0) for (size_t i = 0; i < D.ty->l.size() && i < 8; i++) { g.s[D.dst + i] = rv[i]; if (!rv[i].t) g.s[D.dst + i].r = D.ty->l[i].k == LK_F64 ? 2 : D.ty->l[i].k == LK_F32 ? 1 : 0; } finishCall(g, D); return; } }
  if (D.iid) { intrinsic(f, D); finishCall(f, D); return; }
  if (d->external) { nativeCall(f, D, d); finishCall(st.back(), D); return; }
  std::vector<std::vector<Val>> args; for (unsigned i = 0; i < CB->arg_size(); i++) { Val* s = ov(f, D.op[i]); auto* ti = tyInfo(CB->getArgOperand(i)->getType()); args.emplace_back(s, s + ti->l.size()); }
  uint64_t keep = stackPtr; (void)keep;
  pushFrame(d, args, &D);
  for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->isByValArgument(i)) { Type* T = CB->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(T).getFixedValue(); uint64_t a = carve(stackPtr, gStackEnd, n, 32, B_UNINIT); memcopy(a, args[i][0].lo, n); st.back().s[d->argSlot[i]] = mkI(a); }
}
static ffi_type* ffiTy(const Leaf& l) { switch (l.k) { case LK_F32: return &ffi_type_float; case LK_F64: return &ffi_type_double; case LK_PTR: return &ffi_type_pointer; case LK_F80: return &ffi_type_longdouble; default: return l.bits <= 8 ? &ffi_type_uint8 : l.bits <= 16 ? &ffi_type_uint16 : l.bits <= 32 ? &ffi_type_uint32 : &ffi_type_uint64; } }
void Interp::nativeCall(Frame& f, DInst& D, DFunc* d) {
  if (spec) throw Unsupported("native call under speculation");
  if (!d->native) { d->native = dlsym(RTLD_DEFAULT, d->name.c_str()); if (!d->native) throw Unsupported("no model for external function " + d->dem); }
  auto* CB = cast<CallBase>(D.I); std::vector<ffi_type*> at; std::vector<void*> av; std::vector<Val> vals; std::vector<Leaf> ls;
  for (unsigned i = 0; i < CB->arg_size(); i++) { Val* s = ov(f, D.op[i]); auto* ti = tyInfo(CB->getArgOperand(i)->getType()); for (size_t k = 0; k < ti->l.size(); k++) { Val v = s[k];
      if (v.t) { i128 c; if (v.t == tUndef) throw Unsupported("uninitialised argument to native " + d->dem); if (v.t->cls && tryConst(v.t, c)) { v = v.r == 2 ? mkD((double)c) : v.r == 1 ? mkF((float)c) : fromI(c, 64); } else throw Unsupported("symbolic argument to native " + d->dem + " in " + where(*this)); }
      if (ti->l[k].k == LK_PTR && CB->isByValArgument(i)) throw Unsupported("byval native"); vals.push_back(v); ls.push_back(ti->l[k]); } }
  std::vector<float> fl(vals.size()); std::vector<long double> ld(vals.size()); uint64_t chkn = 0;
  for (size_t i = 0; i < vals.size(); i++) { at.push_back(ffiTy(ls[i])); if (ls[i].k == LK_F32) { fl[i] = asF(vals[i]); av.push_back(&fl[i]); } else if (ls[i].k == LK_F80) { memcpy(&ld[i], &vals[i].lo, 8); memcpy((char*)&ld[i] + 8, &vals[i].hi, 2); av.push_back(&ld[i]); } else av.push_back(&vals[i].lo);
    if (ls[i].k == LK_PTR && inArena(vals[i].lo)) { if (vals[i].lo < gGlobEnd && faddr.count(vals[i].lo)) throw Unsupported("function pointer passed to native " + d->dem); auto it = gAllocs.upper_bound(vals[i].lo); uint64_t n = 64; if (it != gAllocs.begin()) { --it; if (vals[i].lo < it->first + it->second) n = it->first + it->second - vals[i].lo; } if (n > 256) n = 256; chkn = 0; while (chkn < n && *sh(vals[i].lo + chkn) != 0) chkn++; if (anySym(vals[i].lo, chkn)) throw Unsupported("native call " + d->dem + " on symbolic memory in " + where(*this)); } }
  ffi_cif cif; auto& rl = D.ty->l; ffi_type* rt = &ffi_type_void; ffi_type st2; ffi_type* els[5]; union { uint64_t u[4]; double d; float f; long double ld; } ret; memset(&ret, 0, sizeof ret);
  if (rl.size() == 1) rt = ffiTy(rl[0]); else if (rl.size() > 1) { if (rl.size() > 2) throw Unsupported("native aggregate return"); for (size_t i = 0; i < rl.size(); i++) els[i] = ffiTy(rl[i]); els[rl.size()] = nullptr; memset(&st2, 0, sizeof st2); st2.type = FFI_TYPE_STRUCT; st2.elements = els; rt = &st2; }
  bool va = CB->getFunctionType()->isVarArg();
  if ((va ? ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, CB->getFunctionType()->getNumParams(), at.size(), rt, at.data()) : ffi_prep_cif(&cif, FFI_DEFAULT_ABI, at.size(), rt, at.data())) != FFI_OK) throw Unsupported("ffi");
  try { ffi_call(&cif, FFI_FN(d->native), &ret, av.data()); } catch (std::exception& e) { throw Unsupported("native exception from " + d->dem); } catch (...) { throw Unsupported("native exception from " + d->dem); }
  nativeUsed.insert(d->dem);
  for (size_t i = 0; i < vals.size(); i++) if (ls[i].k == LK_PTR) markInit(vals[i].lo);
  if (D.dst >= 0) { if (rl.size() == 1) { Val v; if (rl[0].k == LK_F64) v = mkD(ret.d); else if (rl[0].k == LK_F32) v = mkF(ret.f); else if (rl[0].k == LK_F80) { memcpy(&v.lo, &ret.ld, 8); memcpy(&v.hi, (char*)&ret.ld + 8, 2); } else v = fromI((i128)(u128)ret.u[0], rl[0].bits); f.s[D.dst] = v; } else for (size_t i = 0; i < rl.size(); i++) { Val v; v.lo = ret.u[i]; v.r = rl[i].k == LK_F64 ? 2 : rl[i].k == LK_F32 ? 1 : 0; f.s[D.dst + i] = v; } }
}
static double roundMode(double x, int m) { return m == 0 ? floor(x) : m == 1 ? ceil(x) : m == 2 ? trunc(x) : m == 4 ? round(x) : rint(x); }
Val Interp::fpRound(const Val& a, bool f32, int mode) { if (!a.t) return f32 ? mkF((float)roundMode(asF(a), mode)) : mkD(roundMode(asD(a), mode)); double x; TermP t = fpTerm(a, f32, x); if (t == tUndef) return a; if (mode == 4) { if (t->k == T_FMULC) mode = 3; else return a; } return fpRes(mkFloor(t, mode), f32, "round"); }
void Interp::intrinsic(Frame& f, DInst& D) {
  Val* dst = D.dst >= 0 ? &f.s[D.dst] : nullptr; auto A = [&](int i) { return ov(f, D.op[i]); }; auto& L = D.ty->l; std::string nm = D.callee->name;
  auto each = [&](auto fn) { std::vector<Val> r; for (size_t i = 0; i < L.size(); i++) r.push_back(fn(i, L[i].k == LK_F32)); for (size_t i = 0; i < r.size(); i++) dst[i] = r[i]; };
  switch (D.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::x86_sse2_pause: case Intrinsic::x86_avx_vzeroupper: return;
    case Intrinsic::stacksave: *dst = mkI(0); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memcopy(ptr(*A(0)), ptr(*A(1)), (uint64_t)conc(*A(2), 64, false, "copy size")); return;
    case Intrinsic::memset: { Val v = *A(1); uint64_t n = (uint64_t)conc(*A(2), 64, false, "fill size"); memfill(ptr(*A(0)), (uint8_t)conc(v, 8, false, "fill byte"), n); return; }
    case Intrinsic::fma: each([&](size_t i, bool s) { return fpFma(A(0)[i], A(1)[i], A(2)[i], s, true); }); return;
    case Intrinsic::fmuladd: each([&](size_t i, bool s) { return fpFma(A(0)[i], A(1)[i], A(2)[i], s, false); }); return;
    case Intrinsic::floor: each([&](size_t i, bool s) { return fpRound(A(0)[i], s, 0); }); return;
    case Intrinsic::ceil: each([&](size_t i, bool s) { return fpRound(A(0)[i], s, 1); }); return;
    case Intrinsic::trunc: each([&](size_t i, bool s) { return fpRound(A(0)[i], s, 2); }); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: each([&](size_t i, bool s) { return fpRound(A(0)[i], s, 3); }); return;
    case Intrinsic::round: each([&](size_t i, bool s) { return fpRound(A(0)[i], s, 4); }); return;
    case Intrinsic::fabs: each([&](size_t i, bool s) -> Val { Val a = A(0)[i]; if (!a.t) return s ? mkF(fabsf(asF(a))) : mkD(fabs(asD(a))); if (a.t == tUndef) return a; double x; TermP t = fpTerm(a, s, x); TermP c = mkCmp(P_LT, t, mkConst(0)); TermP m = mkITE(c, mkSub(mkConst(0), t), t); if (!m) m = decide(c) ? mkSub(mkConst(0), t) : t; return fpRes(m, s, "fabs"); }); return;
    case Intrinsic::abs: each([&](size_t i, bool) -> Val { Val a = A(0)[i]; unsigned w = L[i].bits; if (!a.t) { i128 x = sI(a, w); return fromI(x < 0 ? -x : x, w); } if (a.t == tUndef) return a; TermP t = asSigned(a, w), c = mkCmp(P_LT, t, mkConst(0)); TermP m = mkITE(c, mkSub(mkConst(0), t), t); if (!m) m = decide(c) ? mkSub(mkConst(0), t) : t; return fromT(m, w); }); return;
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: { bool mx = D.iid == Intrinsic::maxnum || D.iid == Intrinsic::maximum; each([&](size_t i, bool s) -> Val { Val a = A(0)[i], b = A(1)[i]; if (!a.t && !b.t) { double x = s ? asF(a) : asD(a), y = s ? asF(b) : asD(b); double r = mx ? fmax(x, y) : fmin(x, y); return s ? mkF((float)r) : mkD(r); } Val c = fpCmp(CmpInst::FCMP_OLT, a, b, s); TermP cb = toBool(c); return mx ? selVal(cb, b, a, L[i]) : selVal(cb, a, b, L[i]); }); return; }
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: { unsigned p = D.iid == Intrinsic::smin ? CmpInst::ICMP_SLT : D.iid == Intrinsic::smax ? CmpInst::ICMP_SGT : D.iid == Intrinsic::umin ? CmpInst::ICMP_ULT : CmpInst::ICMP_UGT; each([&](size_t i, bool) -> Val { Val a = A(0)[i], b = A(1)[i]; Val c = intCmp(p, a, b, L[i].bits); if (!c.t) return c.lo & 1 ? a : b; return selVal(toBool(c), a, b, L[i]); }); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: each([&](size_t i, bool) -> Val { unsigned w = L[i].bits; Val a = A(0)[i], b = A(1)[i]; unsigned s = (unsigned)conc(A(2)[i], w, false, "shift") % w; if (s == 0) return D.iid == Intrinsic::fshl ? a : b; if (D.iid == Intrinsic::fshr) s = w - s; Val x = intBin(Instruction::Shl, a, mkI(s), w, false, false), y = intBin(Instruction::LShr, b, mkI(w - s), w, false, false); return intBin(Instruction::Or, x, y, w, false, false); }); return;
    case Intrinsic::ctpop: each([&](size_t i, bool) { return fromI(__builtin_popcountll((uint64_t)conc(A(0)[i], L[i].bits, false, "ctpop")), L[i].bits); }); return;
    case Intrinsic::ctlz: each([&](size_t i, bool) { uint64_t x = (uint64_t)conc(A(0)[i], L[i].bits, false, "ctlz"); unsigned w = L[i].bits; return fromI(x ? __builtin_clzll(x) - (64 - (int)w) : (int)w, w); }); return;
    case Intrinsic::cttz: each([&](size_t i, bool) { uint64_t x = (uint64_t)conc(A(0)[i], L[i].bits, false, "cttz"); unsigned w = L[i].bits; return fromI(x ? __builtin_ctzll(x) : (int)w, w); }); return;
    case Intrinsic::bswap: { uint64_t x = (uint64_t)conc(*A(0), L[0].bits, false, "bswap"); *dst = fromI((i128)(u128)(__builtin_bswap64(x) >> (64 - L[0].bits)), L[0].bits); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = L[0].bits; bool sg = D.iid == Intrinsic::sadd_with_overflow || D.iid == Intrinsic::ssub_with_overflow || D.iid == Intrinsic::smul_with_overflow; unsigned op = (D.iid == Intrinsic::uadd_with_overflow || D.iid == Intrinsic::sadd_with_overflow) ? 0 : (D.iid == Intrinsic::usub_with_overflow || D.iid == Intrinsic::ssub_with_overflow) ? 1 : 2;
      Val a = *A(0), b = *A(1); if (w > 64) throw Unsupported("wide overflow op"); if (a.t == tUndef || b.t == tUndef) { dst[0].t = dst[1].t = tUndef; return; } TermP x = sg ? asSigned(a, w) : asUnsigned(a, w), y = sg ? asSigned(b, w) : asUnsigned(b, w); 
      if (!a.t && !b.t && !sg && op == 2) { u128 r = uI(a, w) * uI(b, w); dst[0] = fromI((i128)r, w); dst[1] = mkI((r >> w) != 0); return; }
      TermP r = op == 0 ? mkAdd(x, y) : op == 1 ? mkSub(x, y) : mkMul(x, y); Iv lim = sg ? Iv{-p2(w - 1), p2(w - 1) - 1} : Iv{0, p2(w) - 1}; TermP o = mkOrB(mkCmp(P_LT, r, mkConst(lim.lo)), mkCmp(P_LT, mkConst(lim.hi), r)); bool ov = decide(o); if (ov) r = mkFMod2(r, w); dst[0] = fromT(r, w); dst[1] = mkI(ov); return; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: each([&](size_t i, bool) -> Val { unsigned w = L[i].bits; u128 a = (u128)conc(A(0)[i], w, false, "sat"), b = (u128)conc(A(1)[i], w, false, "sat"); u128 r = D.iid == Intrinsic::uadd_sat ? std::min<u128>(a + b, ((u128)1 << w) - 1) : (a > b ? a - b : 0); return fromI((i128)r, w); }); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: *dst = *A(0); return;
    case Intrinsic::objectsize: *dst = mkI(~0ull); return;
    case Intrinsic::is_constant: *dst = mkI(0); return;
    case Intrinsic::trap: throw Candidate("trap in " + where(*this));
    case Intrinsic::eh_typeid_for: *dst = mkI(typeId(A(0)->lo)); return;
    case Intrinsic::sqrt: each([&](size_t i, bool s) { if (A(0)[i].t) throw Unsupported("sqrt"); return s ? mkF(sqrtf(asF(A(0)[i]))) : mkD(sqrt(asD(A(0)[i]))); }); return;
    case Intrinsic::copysign: each([&](size_t i, bool s) { if (A(0)[i].t || A(1)[i].t) throw Unsupported("copysign"); return s ? mkF(copysignf(asF(A(0)[i]), asF(A(1)[i]))) : mkD(copysign(asD(A(0)[i]), asD(A(1)[i]))); }); return;
    case Intrinsic::is_fpclass: { Val a = *A(0); if (a.t && a.t != tUndef) { *dst = mkI(0); unsigned m = (unsigned)A(1)->lo; if (m & 0x3) *dst = mkI(0); if ((m & 0x1f8) == 0x1f8) *dst = mkI(1); else if (m & 0x1f8) throw Unsupported("is_fpclass"); return; } double x = D.ty0->l[0].k == LK_F32 ? asF(a) : asD(a); unsigned m = (unsigned)A(1)->lo; bool r = false; if (std::isnan(x) && (m & 3)) r = true; if (std::isinf(x) && ((m & 4 && x < 0) || (m & 512 && x > 0))) r = true; if (std::isfinite(x) && (m & 0x1f8)) r = true; *dst = mkI(r); return; }
    case Intrinsic::vector_reduce_fadd: { Val acc = *A(0); auto* ti = tyInfo(D.I->getOperand(1)->getType()); for (size_t i = 0; i < ti->l.size(); i++) acc = fpBin(Instruction::FAdd, acc, A(1)[i], ti->l[i].k == LK_F32); *dst = acc; return; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { auto* ti = D.ty0; Val acc = A(0)[0]; for (size_t i = 1; i < ti->l.size(); i++) acc = intBin(D.iid == Intrinsic::vector_reduce_add ? Instruction::Add : D.iid == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And, acc, A(0)[i], ti->l[0].bits, false, false); *dst = acc; return; }
    case Intrinsic::x86_avx_round_pd_256: case Intrinsic::x86_avx_round_ps_256: case Intrinsic::x86_sse41_round_pd: case Intrinsic::x86_sse41_round_ps: { int m = A(1)->lo & 7; int mode = m == 1 ? 0 : m == 2 ? 1 : m == 3 ? 2 : 3; each([&](size_t i, bool s) { return fpRound(A(0)[i], s, mode); }); return; }
    case Intrinsic::x86_avx_blendv_pd_256: case Intrinsic::x86_avx_blendv_ps_256: case Intrinsic::x86_sse41_blendvpd: case Intrinsic::x86_sse41_blendvps: case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_avx2_pblendvb: each([&](size_t i, bool) -> Val { Val m = A(2)[i]; unsigned w = L[i].bits; if (!m.t) return ((uI(m, w) >> (w - 1)) & 1) ? A(1)[i] : A(0)[i]; if (m.t->k == T_MASK) return selVal(m.t->a, A(1)[i], A(0)[i], L[i]); throw Unsupported("blendv on symbolic sign"); }); return;
    case Intrinsic::x86_avx_movmsk_pd_256: case Intrinsic::x86_avx_movmsk_ps_256: case Intrinsic::x86_sse2_movmsk_pd: case Intrinsic::x86_sse_movmsk_ps: case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb: { uint64_t r = 0; for (size_t i = 0; i < D.ty0->l.size(); i++) { Val m = A(0)[i]; unsigned w = D.ty0->l[i].bits; bool b; if (!m.t) b = (uI(m, w) >> (w - 1)) & 1; else if (m.t->k == T_MASK) b = decide(m.t->a); else throw Unsupported("movmsk"); if (b) r |= 1ull << i; } *dst = mkI(r); return; }
    case Intrinsic::x86_avx_hadd_pd_256: each([&](size_t i, bool s) { Val* src = (i % 2) ? A(1) : A(0); int b = i < 2 ? 0 : 2; return fpBin(Instruction::FAdd, src[b], src[b + 1], s); }); return;
    case Intrinsic::x86_avx_hadd_ps_256: each([&](size_t i, bool s) { int lane = i / 4, j = i % 4; Val* src = j < 2 ? A(0) : A(1); int b = lane * 4 + (j % 2) * 2; return fpBin(Instruction::FAdd, src[b], src[b + 1], s); }); return;
    case Intrinsic::x86_sse3_hadd_pd: each([&](size_t i, bool s) { Val* src = i ? A(1) : A(0); return fpBin(Instruction::FAdd, src[0], src[1], s); }); return;
    case Intrinsic::x86_sse3_hadd_ps: each([&](size_t i, bool s) { Val* src = i < 2 ? A(0) : A(1); int b = (i % 2) * 2; return fpBin(Instruction::FAdd, src[b], src[b + 1], s); }); return;
    case Intrinsic::x86_avx2_psll_d: case Intrinsic::x86_avx2_psll_q: case Intrinsic::x86_avx2_psll_w: case Intrinsic::x86_sse2_psll_d: case Intrinsic::x86_sse2_psll_q: case Intrinsic::x86_sse2_psll_w: case Intrinsic::x86_avx2_psrl_d: case Intrinsic::x86_avx2_psrl_q: case Intrinsic::x86_avx2_psrl_w: case Intrinsic::x86_sse2_psrl_d: case Intrinsic::x86_sse2_psrl_q: case Intrinsic::x86_sse2_psrl_w: case Intrinsic::x86_avx2_psra_d: case Intrinsic::x86_avx2_psra_w: case Intrinsic::x86_sse2_psra_d: case Intrinsic::x86_sse2_psra_w: {
      auto* st2 = tyInfo(D.I->getOperand(1)->getType()); u128 s = 0; for (size_t i = 0; i < st2->l.size() && i * st2->l[0].bits < 64; i++) s |= (u128)conc(A(1)[i], st2->l[0].bits, false, "vector shift") << (i * st2->l[0].bits); bool left = nm.find("psll") != std::string::npos, ar = nm.find("psra") != std::string::npos; each([&](size_t i, bool) -> Val { unsigned w = L[i].bits; if (s >= w) { if (!ar) return mkI(0); } return intBin(left ? Instruction::Shl : ar ? Instruction::AShr : Instruction::LShr, A(0)[i], mkI((uint64_t)std::min<u128>(s, w - 1)), w, false, false); }); return; }
    case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_pslli_w: case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx2_psrli_w: case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_avx2_psrai_d: case Intrinsic::x86_avx2_psrai_w: case Intrinsic::x86_sse2_psrai_d: case Intrinsic::x86_sse2_psrai_w: {
      u128 s = (u128)conc(*A(1), 32, false, "vector shift"); bool left = nm.find("pslli") != std::string::npos, ar = nm.find("psrai") != std::string::npos; each([&](size_t i, bool) -> Val { unsigned w = L[i].bits; if (s >= w && !ar) return mkI(0); return intBin(left ? Instruction::Shl : ar ? Instruction::AShr : Instruction::LShr, A(0)[i], mkI((uint64_t)std::min<u128>(s, w - 1)), w, false, false); }); return; }
    case Intrinsic::x86_avx2_permd: each([&](size_t i, bool) { return A(0)[conc(A(1)[i], 32, false, "perm") & 7]; }); return;
    case Intrinsic::x86_avx2_permps: each([&](size_t i, bool) { return A(0)[conc(A(1)[i], 32, false, "perm") & 7]; }); return;
    case Intrinsic::x86_avx_vpermilvar_pd_256: case Intrinsic::x86_avx_vpermilvar_pd: each([&](size_t i, bool) { return A(0)[(i & ~1ull) + ((conc(A(1)[i], 64, false, "perm") >> 1) & 1)]; }); return;
    case Intrinsic::x86_sse2_cvtsd2si64: case Intrinsic::x86_sse2_cvtsd2si: { Val r = fpRound(A(0)[0], false, 3); *dst = castOp(Instruction::FPToSI, r, Leaf{LK_F64, 64, 0, 8}, L[0]); return; }
    case Intrinsic::x86_sse2_cvttsd2si64: case Intrinsic::x86_sse2_cvttsd2si: { Val r = fpRound(A(0)[0], false, 2); *dst = castOp(Instruction::FPToSI, r, Leaf{LK_F64, 64, 0, 8}, L[0]); return; }
    case Intrinsic::x86_avx_cvt_ps2dq_256: case Intrinsic::x86_sse2_cvtps2dq: each([&](size_t i, bool) { Val r = fpRound(A(0)[i], true, 3); return castOp(Instruction::FPToSI, r, Leaf{LK_F32, 32, 0, 4}, L[i]); }); return;
    case Intrinsic::x86_avx2_pmul_hr_sw: case Intrinsic::x86_avx2_pmulh_w: case Intrinsic::x86_avx2_pmulhu_w: case Intrinsic::x86_sse2_pmulh_w: case Intrinsic::x86_sse2_pmulhu_w: { bool un = nm.find("pmulhu") != std::string::npos; each([&](size_t i, bool) -> Val { if (A(0)[i].t == tUndef || A(1)[i].t == tUndef) { Val v; v.t = tUndef; return v; } TermP x = un ? asUnsigned(A(0)[i], 16) : asSigned(A(0)[i], 16), y = un ? asUnsigned(A(1)[i], 16) : asSigned(A(1)[i], 16); return fromT(mkFDiv2(mkMul(x, y), 16), 16); }); return; }
    case Intrinsic::masked_load: { uint64_t a = ptr(*A(0)); each([&](size_t i, bool) -> Val { if (conc(A(2)[i], 1, false, "mask")) return load(a + L[i].off, L[i]); return A(3)[i]; }); return; }
    case Intrinsic::masked_store: { uint64_t a = ptr(*A(1)); auto* ti = D.ty0; for (size_t i = 0; i < ti->l.size(); i++) if (conc(A(3)[i], 1, false, "mask")) store(a + ti->l[i].off, ti->l[i], A(0)[i]); return; }
    case Intrinsic::x86_avx2_gather_q_pd_256: case Intrinsic::x86_avx2_gather_q_q_256: case Intrinsic::x86_avx2_gather_d_pd_256: case Intrinsic::x86_avx2_gather_d_ps_256: case Intrinsic::x86_avx2_gather_d_d_256: case Intrinsic::x86_avx2_gather_d_ps: case Intrinsic::x86_avx2_gather_d_d: case Intrinsic::x86_avx2_gather_q_pd: case Intrinsic::x86_avx2_gather_q_q: case Intrinsic::x86_avx2_gather_d_q_256: case Intrinsic::x86_avx2_gather_q_ps_256: { uint64_t a = ptr(*A(1)); auto* it = tyInfo(D.I->getOperand(2)->getType()); int64_t sc = (int64_t)A(4)->lo & 0xff; each([&](size_t i, bool) -> Val { Val m = A(3)[i]; unsigned w = L[i].bits; if (m.t) throw Unsupported("gather mask"); if (!((uI(m, w) >> (w - 1)) & 1)) return A(0)[i]; int64_t ix = (int64_t)conc(A(2)[i], it->l[i].bits, true, "gather index"); Leaf l = L[i]; return load(a + ix * sc, l); }); return; }
    case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log10: case Intrinsic::cos: case Intrinsic::sin: each([&](size_t i, bool s) { double x = s ? asF(A(0)[i]) : asD(A(0)[i]); if (A(0)[i].t) throw Unsupported("transcendental"); double r = D.iid == Intrinsic::log ? log(x) : D.iid == Intrinsic::log2 ? log2(x) : D.iid == Intrinsic::exp ? exp(x) : D.iid == Intrinsic::exp2 ? exp2(x) : D.iid == Intrinsic::log10 ? log10(x) : D.iid == Intrinsic::cos ? cos(x) : sin(x); return s ? mkF((float)r) : mkD(r); }); return;
    case Intrinsic::pow: each([&](size_t i, bool s) { if (A(0)[i].t || A(1)[i].t) throw Unsupported("pow"); return s ? mkF(powf(asF(A(0)[i]), asF(A(1)[i]))) : mkD(pow(asD(A(0)[i]), asD(A(1)[i]))); }); return;
    case Intrinsic::powi: each([&](size_t i, bool s) { if (A(0)[i].t) throw Unsupported("pow"); return s ? mkF(__builtin_powif(asF(A(0)[i]), (int)A(1)->lo)) : mkD(__builtin_powi(asD(A(0)[i]), (int)A(1)->lo)); }); return;
    case Intrinsic::ldexp: each([&](size_t i, bool s) { if (A(0)[i].t) throw Unsupported("ldexp"); return s ? mkF(ldexpf(asF(A(0)[i]), (int)A(1)->lo)) : mkD(ldexp(asD(A(0)[i]), (int)A(1)->lo)); }); return;
    default: throw Unsupported("intrinsic " + nm + " in " + where(*this));
  } }
// ---------------------------------------------------------------- models of library functions
void Interp::throwObj(uint64_t obj, uint64_t type) { excObj = obj; excType = type; excTypeOf[obj] = type; doThrow(); hPushed = true; }
void Interp::installHandlers() {
  auto& H = handlers;
  auto al = [](uint64_t a) { return mkI(a); };
  auto mallocH = [al](Interp& I, DInst& D, Val* r) { r[0] = al(I.heapAlloc((uint64_t)I.conc(I.arg(D, 0), 64, false, "allocation size"), 16, false)); };
  for (auto n : {"malloc", "_Znwm", "_Znam"}) H[n] = mallocH; for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) H[n] = mallocH;
  auto alignH = [al](Interp& I, DInst& D, Val* r) { r[0] = al(I.heapAlloc((uint64_t)I.conc(I.arg(D, 0), 64, false, "allocation size"), I.arg(D, 1).lo, false)); };
  H["_ZnwmSt11align_val_t"] = alignH; H["_ZnamSt11align_val_t"] = alignH;
  H["aligned_alloc"] = [al](Interp& I, DInst& D, Val* r) { r[0] = al(I.heapAlloc((uint64_t)I.conc(I.arg(D, 1), 64, false, "allocation size"), I.arg(D, 0).lo, false)); }; H["memalign"] = H["aligned_alloc"];
  H["calloc"] = [al](Interp& I, DInst& D, Val* r) { r[0] = al(I.heapAlloc((uint64_t)(I.conc(I.arg(D, 0), 64, false, "allocation size") * I.conc(I.arg(D, 1), 64, false, "allocation size")), 16, true)); };
  H["posix_memalign"] = [al](Interp& I, DInst& D, Val* r) { uint64_t a = I.heapAlloc((uint64_t)I.conc(I.arg(D, 2), 64, false, "allocation size"), I.arg(D, 1).lo, false); I.store(I.ptr(I.arg(D, 0)), Leaf{LK_PTR, 64, 0, 8}, mkI(a)); r[0] = mkI(0); };
  H["realloc"] = [al](Interp& I, DInst& D, Val* r) { uint64_t o = I.ptr(I.arg(D, 0)), n = (uint64_t)I.conc(I.arg(D, 1), 64, false, "allocation size"); if (o && !I.inArena(o)) { r[0] = mkI((uint64_t)realloc((void*)o, n)); return; } uint64_t a = I.heapAlloc(n, 16, false); if (o) { uint64_t m = gAllocs[o]; I.memcopy(a, o, std::min(n, m)); I.heapFree(o); } r[0] = mkI(a); };
  auto freeH = [](Interp& I, DInst& D, Val*) { I.heapFree(I.ptr(I.arg(D, 0))); };
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H[n] = freeH;
  auto mc = [](Interp& I, DInst& D, Val* r) { r[0] = I.arg(D, 0); I.memcopy(I.ptr(I.arg(D, 0)), I.ptr(I.arg(D, 1)), (uint64_t)I.conc(I.arg(D, 2), 64, false, "copy size")); }; H["memcpy"] = H["memmove"] = mc;
  H["memset"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.arg(D, 0); I.memfill(I.ptr(I.arg(D, 0)), (uint8_t)I.arg(D, 1).lo, (uint64_t)I.conc(I.arg(D, 2), 64, false, "fill size")); };
  H["fmod"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpBin(Instruction::FRem, I.arg(D, 0), I.arg(D, 1), false); }; H["fmodf"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpBin(Instruction::FRem, I.arg(D, 0), I.arg(D, 1), true); };
  int k = 0; for (auto n : {"floor", "ceil", "trunc", "rint"}) { int m = k++; H[n] = [m](Interp& I, DInst& D, Val* r) { r[0] = I.fpRound(I.arg(D, 0), false, m); }; H[std::string(n) + "f"] = [m](Interp& I, DInst& D, Val* r) { r[0] = I.fpRound(I.arg(D, 0), true, m); }; }
  H["round"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpRound(I.arg(D, 0), false, 4); }; H["roundf"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpRound(I.arg(D, 0), true, 4); };
  H["fma"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpFma(I.arg(D, 0), I.arg(D, 1), I.arg(D, 2), false, true); }; H["fmaf"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.fpFma(I.arg(D, 0), I.arg(D, 1), I.arg(D, 2), true, true); };
  // exceptions
  H["__cxa_allocate_exception"] = [al](Interp& I, DInst& D, Val* r) { r[0] = al(I.heapAlloc(I.arg(D, 0).lo, 16, false)); };
  H["__cxa_free_exception"] = [](Interp& I, DInst& D, Val*) { I.heapFree(I.arg(D, 0).lo); };
  H["__cxa_throw"] = [](Interp& I, DInst& D, Val*) { if (I.spec) throw NeedFork(); I.throwObj(I.arg(D, 0).lo, I.arg(D, 1).lo); };
  H["__cxa_rethrow"] = [](Interp& I, DInst&, Val*) { if (I.caughtStack.empty()) throw Unsupported("rethrow"); uint64_t o = I.caughtStack.back(); I.throwObj(o, I.excTypeOf[o]); };
  H["__cxa_begin_catch"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.arg(D, 0); I.caughtStack.push_back(I.arg(D, 0).lo); }; H["__cxa_get_exception_ptr"] = [](Interp& I, DInst& D, Val* r) { r[0] = I.arg(D, 0); };
  H["__cxa_end_catch"] = [](Interp& I, DInst&, Val*) { if (!I.caughtStack.empty()) I.caughtStack.pop_back(); };
  H["__clang_call_terminate"] = [](Interp& I, DInst&, Val*) { throw Candidate("std::terminate called"); };
  auto ab = [](const char* n) { std::string s = n; return [s](Interp& I, DInst&, Val*) { throw Candidate(s + " called in " + where(I)); }; };
  for (auto n : {"abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "__stack_chk_fail", "exit", "_exit", "__cxa_bad_cast"}) H[n] = ab(n);
  auto thr = [](const char* n) { std::string s = n; return [s](Interp& I, DInst&, Val*) { throw Candidate(s + " thrown in " + where(I)); }; };
  for (auto n : {"_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "__cxa_throw_bad_array_new_length"}) H[n] = thr(n);
  H["__cxa_guard_acquire"] = [](Interp& I, DInst& D, Val* r) { uint8_t* p = (uint8_t*)I.arg(D, 0).lo; r[0] = mkI(!*p); }; H["__cxa_guard_release"] = [](Interp& I, DInst& D, Val*) { *(uint8_t*)I.arg(D, 0).lo = 1; }; H["__cxa_guard_abort"] = [](Interp&, DInst&, Val*) {};
  H["__cxa_atexit"] = [](Interp&, DInst&, Val* r) { r[0] = mkI(0); }; H["atexit"] = H["__cxa_atexit"]; H["__cxa_thread_atexit"] = H["__cxa_atexit"];
  // environment
  auto ret = [](uint64_t v) { return [v](Interp&, DInst&, Val* r) { r[0] = mkI(v); }; };
  for (auto n : {"openblas_set_num_threads", "omp_set_num_threads", "omp_set_nested", "omp_set_dynamic", "omp_init_lock", "omp_destroy_lock", "omp_set_lock", "omp_unset_lock"}) H[n] = [](Interp&, DInst&, Val*) {};
  H["omp_get_thread_num"] = ret(0); H["omp_get_num_threads"] = ret(1); H["omp_get_max_threads"] = ret(1); H["omp_in_parallel"] = ret(0); H["omp_get_level"] = ret(0); H["omp_get_num_procs"] = ret(1); H["__kmpc_global_thread_num"] = ret(0);
  auto noop = [](Interp&, DInst&, Val*) {}; for (auto n : {"__kmpc_barrier", "__kmpc_push_num_threads", "__kmpc_taskgroup", "__kmpc_end_taskgroup", "__kmpc_critical", "__kmpc_end_critical", "__kmpc_end_single", "__kmpc_end_master", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_for_static_fini", "__kmpc_flush"}) H[n] = noop;
  H["__kmpc_omp_taskwait"] = ret(0); H["__kmpc_omp_taskyield"] = ret(0); H["__kmpc_single"] = ret(1); H["__kmpc_master"] = ret(1); H["__kmpc_omp_wait_deps"] = noop;
  // extended Euclid on symbolic data: x*a = 1 mod b (a != 0 mod b), real code otherwise
  auto euclid = [](Interp& I, DInst& D, Val*) {
    Val a = I.arg(D, 2), b = I.arg(D, 3); if (!a.t && !b.t) { I.hDeclined = true; return; } if (I.spec) throw NeedFork();
    auto* ti = tyInfo(cast<CallBase>(D.I)->getArgOperand(2)->getType()); Leaf l = ti->l[0]; bool fp = l.k != LK_INT; double x; TermP t = fp ? I.fpTerm(a, l.k == LK_F32, x) : I.asSigned(a, l.bits);
    if (t == tUndef) { Val u; u.t = tUndef; u.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0; I.store(I.arg(D, 0).lo, l, u); I.store(I.arg(D, 1).lo, l, u); return; }
    i128 m; if (fp) { double bb = l.k == LK_F32 ? asF(b) : asD(b); if (b.t) throw Unsupported("symbolic modulus"); m = (i128)bb; } else m = I.conc(b, l.bits, true, "modulus");
    i128 c; if (tryConst(t, c)) { // concrete value known on this path
      i128 r; Iv rg = fp ? Iv{0, 0} : Iv{0, 0}; (void)rg; i128 cc = ((c % m) + m) % m; TermP res; if (cc == 0) res = mkOpaque("inverse of zero", Iv{-m, m}, true); else { r = modInv(cc, m); res = mkConst(fp && r > m / 2 ? r - m : r); } Val v = fp ? I.fpRes(res, l.k == LK_F32, "inv") : fromT(res, l.bits); if (v.t) v.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0; I.store(I.arg(D, 0).lo, l, v); I.store(I.arg(D, 1).lo, l, fp ? (l.k == LK_F32 ? mkF(cc ? 1 : (float)m) : mkD(cc ? 1 : (double)m)) : mkI(cc ? 1 : (uint64_t)m)); return; }
    if (m != gP) throw Unsupported("inverse modulo " + i128s(m));
    TermP y; bool z = pDecideZero(clsOf(t)); if (z) y = mkOpaque("inverse of zero", Iv{-m, m}, true); else { y = mkInv(t, m); if (fp) { Term* w = const_cast<Term*>(y); if (y->k == T_INV && w->iv.lo == 1) { w->iv = Iv{-(m - 1), m - 1}; } } }
    Val v; v.r = l.k == LK_F64 ? 2 : l.k == LK_F32 ? 1 : 0; if (y->k == T_CONST) v = fp ? I.fpRes(y, l.k == LK_F32, "inv") : fromT(y, l.bits); else v.t = y; I.store(I.arg(D, 0).lo, l, v); Val one = fp ? (l.k == LK_F32 ? mkF(z ? (float)m : 1.f) : mkD(z ? (double)m : 1.0)) : mkI(z ? (uint64_t)m : 1); I.store(I.arg(D, 1).lo, l, one); };
  prefixHandlers.push_back({"_ZN6Givaro15extended_euclid", euclid});
}
