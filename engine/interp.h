#pragma once
#include "term.h"
#include <functional>
#include <set>
#include <unordered_set>
#include <llvm/IR/Module.h>
#include <llvm/IR/CFG.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

enum LK : uint8_t { LK_INT, LK_F32, LK_F64, LK_PTR, LK_F80 };
struct Leaf { LK k; uint16_t bits; uint32_t off; uint32_t bytes; };
struct TyInfo { std::vector<Leaf> l; uint64_t size; llvm::Type* ty; };
struct Val { uint64_t lo = 0, hi = 0; TermP t = nullptr; uint8_t r = 0; };
struct DBlock; struct DFunc;
struct DInst { unsigned opc; llvm::Instruction* I; int dst = -1; std::vector<int> op; TyInfo *ty = nullptr, *ty0 = nullptr; uint64_t imm = 0; std::vector<std::pair<int,int64_t>> gep; std::vector<int> aux; DFunc* callee = nullptr; int blk[2] = {-1, -1}; unsigned iid = 0; };
struct DBlock { std::vector<DInst> ins; std::vector<DInst> phis; std::map<int,int> predIdx; int idx; bool simple = false; int simpleSucc = -1; };
struct Frame;
struct Interp;
typedef std::function<void(Interp&, DInst&, Val* ret)> Handler;
struct DFunc { llvm::Function* F; std::string name, dem; int id; uint64_t addr; bool decoded = false; int nslots = 0; std::vector<Val> cpool; std::vector<int> argSlot; std::vector<DBlock> bl; Handler* h = nullptr; bool external = false; void* native = nullptr; uint64_t entries = 0; };
struct Frame { DFunc* f; std::vector<Val> s; int blk = 0; size_t ip = 0; uint64_t stackTop; DInst* call = nullptr; std::vector<Val> varargs; std::function<void()> onRet; };
