// qse: machine state, memory, decoded program.
#pragma once
#include "solver.hpp"
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ffi.h>
#include <semaphore.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Val { u64 lo, hi; Expr* s; };
static inline u128 v128(const Val& v) { return ((u128)v.hi << 64) | v.lo; }
static inline Val mkV(u128 x) { return { (u64)x, (u64)(x >> 64), nullptr }; }
static inline Val mkV64(u64 x) { return { x, 0, nullptr }; }
static inline Expr* toE(const Val& v, unsigned w) { return v.s ? v.s : mkConst(v128(v), w); }
static inline Val fromE(Expr* e) { if (isC(e)) return mkV(e->cv); return { 0, 0, e }; }

// scalar kinds
enum SK : uint8_t { SK_INT, SK_F32, SK_F64, SK_F80, SK_PTR };
struct SType { SK k; uint16_t w; uint32_t off; uint32_t size; }; // w bits; off: byte offset within the flattened aggregate; size: store size

enum OP : uint16_t {
    O_NOP, O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_ICMP, O_FCMP, O_ITRUNC, O_ZEXT, O_SEXT, O_FPTRUNC, O_FPEXT,
    O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET,
    O_CALL, O_UNREACH, O_RESUME, O_LANDING, O_BITCAST, O_INTRIN, O_RMW, O_CMPXCHG, O_EXTDYN, O_INSDYN, O_UNSUP
};
struct Ins {
    uint16_t op; uint16_t w; uint16_t w2; uint16_t aux; // w result/operand width
    int32_t d, a, b, c;
    void* x;
};
struct Move { int32_t d, s; };
struct Edge { int32_t pc; std::vector<Move> mv; };
struct BrInfo { Edge t, f; };
struct SwInfo { std::vector<std::pair<u128, Edge>> cs; Edge def; };
struct GepInfo { int64_t off; std::vector<std::tuple<int32_t, int64_t, int>> idx; }; // slot, scale, width
struct FuncInfo;
struct CallInfo {
    llvm::CallBase* cb;
    FuncInfo* direct = nullptr;
    int32_t calleeSlot = 0;
    bool invoke = false;
    Edge normal, unwind;
    struct Arg { int32_t slot; std::vector<SType> ts; uint64_t byval; std::vector<int32_t> slots; };
    std::vector<Arg> args;
    std::vector<SType> ret;
    int32_t d = -1;
    unsigned intrin = 0;
    ffi_cif* cif = nullptr;
    std::vector<ffi_type*> fty;
    ffi_type* frt = nullptr;
    bool intrinVec = false;
};
struct LandInfo { bool cleanup; std::vector<std::pair<int, u64>> clauses; std::vector<std::vector<u64>> filters; };
struct BitcastInfo { std::vector<int32_t> src; std::vector<SType> st, dt; };
struct DynIdx { std::vector<int32_t> src; int32_t idx; int32_t val; };

struct FuncInfo {
    llvm::Function* F = nullptr;
    std::string name;
    bool decoded = false;
    int nregs = 0;
    int nargs = 0;
    std::vector<Ins> code;
    std::vector<Val> consts;
    std::vector<uint64_t> argByval;
    u64 fakeAddr = 0;
    void* native = nullptr;
    int hook = -1;
    bool resolved = false;
    u64 calls = 0;
    bool vararg = false;
    bool noInstr = false;
};

struct Frame {
    FuncInfo* f;
    int pc;
    Val* r;
    CallInfo* ci;  // call instruction in the caller
    u64 sp;        // saved stack pointer
    u64 va = 0;    // vararg area
    u64 excCur;    // for landing pads
    int excSel;
    int cont = 0;  // continuation kind when frame returns (0 normal)
    u64 contArg = 0;
};

struct ExcInfo { u64 obj, ti, dtor; int handlers; };

enum TWait { TW_RUN, TW_MUTEX, TW_COND, TW_JOIN, TW_DONE, TW_FUTEX, TW_ONCE };
struct Thread {
    int id;
    std::vector<Frame> st;
    u64 sp, stLo, stHi;
    std::vector<Val*> chunks;
    Val* rtop; Val* rend;
    TWait wait = TW_RUN;
    u64 wobj = 0, wobj2 = 0;
    bool timed = false, timedOut = false, justResumed = false;
    u64 runState = 0;
    std::vector<u64> caught; // exception stack
    u64 ptid = 0;
};

static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 0x400000000ull; // 16 GB reserved
static const u64 SHADOW = 0x200000000000ull;
static const u64 FUNC_BASE = 0x300000000000ull;
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline uint8_t* sh(u64 a) { return (uint8_t*)(a - ARENA + SHADOW); }

struct SymByte { Expr* e; uint8_t off; };
