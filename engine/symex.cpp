// Symbolic execution of LLVM IR compiled from the library under test.
//
//   symex module.bc JOB...      JOB = function:len[,len...]:nout[:opts]
//
// The function is called as fn(b0, e0, [b1, e1, ...], int* out): each [bi, ei) is a buffer of `len`
// symbolic bytes ("n" = the null view), out is an array of nout ints. Every job prints one line of JSON:
// the expression DAG and the list of outcomes, each with its path condition.
#include "expr.hpp"

#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/Inliner.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>

#include <chrono>
#include <iostream>
#include <memory>
#include <set>

using namespace llvm;
static ExprStore X;
static Mdd* M = nullptr;
// what constant evaluation rejects is reported: pointers that leave their object, comparisons across objects, traps of
// -fsanitize=undefined. The module is executed as written, nothing is speculated.
static bool strict = false;

struct Unsup { std::string why; };

struct Val
{
    E s = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    bool empty() const { return !s && !agg; }
};

struct BlockInfo
{
    BasicBlock* bb;
    std::vector<Instruction*> ins;
    unsigned firstNonPhi = 0;
    std::vector<unsigned> liveIn; // slots, phis included
    std::map<const BasicBlock*, std::vector<unsigned>> dead; // predecessor -> slots that end there
    bool join = false; // reached from several places
    unsigned rpo = 0;
    std::vector<std::pair<unsigned, unsigned>> loops; // (header rpo, loop id), outer first
};
struct FnInfo
{
    Function* f;
    DenseMap<const Value*, unsigned> slot;
    std::map<const BasicBlock*, BlockInfo> blocks;
    unsigned nslots = 0, nloops = 0;
    std::map<const BasicBlock*, std::pair<unsigned, std::set<const BasicBlock*>>> header; // header -> loop id, body
};
struct Frame
{
    FnInfo* fi = nullptr;
    BlockInfo* b = nullptr;
    unsigned idx = 0;
    std::vector<Val> loc;
    std::vector<unsigned> iters;
    uint64_t sp = 0;
};
struct Obj
{
    uint64_t base;
    uint64_t size;
    std::shared_ptr<std::vector<E>> bytes;
    int kind; // 0 normal, 1 input, 2 out, 3 heap, 4 freed heap
};
struct State
{
    std::vector<Frame> fr;
    std::vector<Obj> objs;
    std::map<uint64_t, std::shared_ptr<std::vector<E>>> globs; // written globals
    E pc = nullptr;
    int pm = 1;
    unsigned flags = 0;
    uint64_t steps = 0;
    uint64_t brk = 0;
    const void* key = nullptr;
};
typedef std::unique_ptr<State> SP;
enum { OOBR = 1 };

struct Outcome
{
    std::string kind;
    unsigned flags;
    std::vector<E> out;
    E pc;
    int pm;
    uint64_t steps;
    std::string where;
};

struct Global { uint64_t base, size; GlobalVariable* gv; std::shared_ptr<std::vector<E>> bytes; };

static std::map<std::string, std::set<std::string>> madeOf; // harness function -> functions it calls

struct Engine
{
    Module& mod;
    const DataLayout& DL;
    static inline std::map<Function*, std::unique_ptr<FnInfo>> fns;
    std::map<uint64_t, Global> globs;
    std::map<const GlobalValue*, uint64_t> gaddr;
    std::map<uint64_t, Function*> faddr;
    uint64_t gnext = 0x1000000;
    std::set<std::string> encoded; // source functions seen (debug info / function names)

    // per job
    std::vector<Outcome> outs;
    std::map<std::string, size_t> outIdx;
    std::map<std::vector<int>, std::vector<SP>> work;
    struct VK { std::vector<uint32_t> k; size_t h = 0; bool operator==(const VK& o) const { return h == o.h && k == o.k; } };
    struct VH { size_t operator()(const VK& v) const { return v.h; } };
    std::unordered_map<VK, State*, VH> pending;
    std::unordered_map<VK, std::pair<E, int>, VH> visited;
    uint64_t steps = 0, forks = 0, merges = 0, nstates = 0;
    uint64_t maxSteps = 40000000, maxPath = 400000;
    double maxSecs = 200;
    std::chrono::steady_clock::time_point t0;
    std::vector<unsigned> lens;
    struct In { uint64_t base; unsigned len; unsigned var0; };
    std::vector<unsigned> extVar; // number of a byte in the order of the diagrams -> its number in the job
    std::vector<In> ins;
    uint64_t outBase = 0;
    unsigned nout = 0;

    Engine(Module& m): mod(m), DL(m.getDataLayout()) {}

    // ------------------------------------------------------------ static information
    FnInfo* info(Function* f)
    {
        auto& p = fns[f];
        if (p) return p.get();
        p = std::make_unique<FnInfo>();
        FnInfo& fi = *p;
        fi.f = f;
        for (auto& a: f->args()) fi.slot[&a] = fi.nslots++;
        for (auto& b: *f)
            for (auto& i: b)
                if (!i.getType()->isVoidTy()) fi.slot[&i] = fi.nslots++;
        DominatorTree dt(*f);
        LoopInfo li(dt);
        ReversePostOrderTraversal<Function*> rpot(f);
        unsigned n = 0;
        for (auto* b: rpot)
        {
            auto& bi = fi.blocks[b];
            bi.bb = b;
            bi.rpo = n++;
            for (auto& i: *b)
            {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (isa<PHINode>(i)) bi.firstNonPhi = bi.ins.size() + 1;
                bi.ins.push_back(&i);
            }
        }
        for (auto* l: li.getLoopsInPreorder())
        {
            unsigned id = fi.nloops++;
            auto& h = fi.header[l->getHeader()];
            h.first = id;
            for (auto* b: l->blocks()) h.second.insert(b);
        }
        for (auto& [b, bi]: fi.blocks)
        {
            std::vector<Loop*> ls;
            for (Loop* l = li.getLoopFor(b); l; l = l->getParentLoop()) ls.push_back(l);
            for (auto it = ls.rbegin(); it != ls.rend(); ++it)
                bi.loops.push_back({fi.blocks[(*it)->getHeader()].rpo, fi.header[(*it)->getHeader()].first});
        }
        // liveness
        std::map<const BasicBlock*, std::set<unsigned>> in;
        bool ch = true;
        std::vector<BlockInfo*> order;
        for (auto* b: rpot) order.push_back(&fi.blocks[b]);
        while (ch)
        {
            ch = false;
            for (auto it = order.rbegin(); it != order.rend(); ++it)
            {
                BlockInfo& bi = **it;
                std::set<unsigned> live;
                for (auto* s: successors(bi.bb))
                {
                    std::set<unsigned> l = in[s];
                    for (auto& p: s->phis()) l.erase(fi.slot[&p]);
                    live.insert(l.begin(), l.end());
                }
                for (auto* s: successors(bi.bb))
                    for (auto& p: s->phis())
                    {
                        Value* v = p.getIncomingValueForBlock(bi.bb);
                        auto f2 = fi.slot.find(v);
                        if (f2 != fi.slot.end()) live.insert(f2->second);
                    }
                for (auto i = bi.ins.rbegin(); i != bi.ins.rend(); ++i)
                {
                    Instruction* I = *i;
                    if (isa<PHINode>(I)) break;
                    if (!I->getType()->isVoidTy()) live.erase(fi.slot[I]);
                    for (auto& o: I->operands())
                    {
                        auto f2 = fi.slot.find(o.get());
                        if (f2 != fi.slot.end()) live.insert(f2->second);
                    }
                }
                for (auto& p: bi.bb->phis())
                {
                    if (!p.use_empty()) live.insert(fi.slot[&p]);
                }
                if (live != in[bi.bb]) { in[bi.bb] = live; ch = true; }
            }
        }
        for (auto& [b, bi]: fi.blocks) bi.liveIn.assign(in[b].begin(), in[b].end());
        for (auto& [b, bi]: fi.blocks)
        {
            std::set<unsigned> have(in[b]);
            if (b == &f->getEntryBlock()) for (auto& a: f->args()) have.insert(fi.slot[&a]);
            for (auto* i: bi.ins) if (!i->getType()->isVoidTy()) have.insert(fi.slot[i]);
            for (auto* t: successors(b))
            {
                std::vector<unsigned> d;
                for (unsigned x: have) if (!in[t].count(x)) d.push_back(x);
                fi.blocks[t].dead[b] = std::move(d);
            }
        }
        for (auto& [b, bi]: fi.blocks) bi.join = bi.dead.size() != 1;
        return p.get();
    }
    void noteFn(Function* f)
    {
        encoded.insert(f->getName().str());
    }
    // ------------------------------------------------------------ globals
    uint64_t addrOf(const GlobalValue* g)
    {
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        uint64_t a = gnext;
        gaddr[g] = a;
        if (auto* gv = dyn_cast<GlobalVariable>(g))
        {
            uint64_t sz = DL.getTypeAllocSize(gv->getValueType());
            gnext += (sz + 0x2ff) & ~0xffull;
            Global G{a, sz, const_cast<GlobalVariable*>(gv), nullptr};
            globs[a] = G;
        }
        else
        {
            gnext += 0x100;
            if (auto* f = dyn_cast<Function>(g)) faddr[a] = const_cast<Function*>(f);
        }
        return a;
    }
    std::shared_ptr<std::vector<E>> globBytes(Global& g)
    {
        if (!g.bytes)
        {
            g.bytes = std::make_shared<std::vector<E>>(g.size, X.undef(8));
            if (!g.gv->hasInitializer()) throw Unsup{"external global " + g.gv->getName().str()};
            Val v = constVal(g.gv->getInitializer());
            storeVal(*g.bytes, 0, v, g.gv->getValueType());
        }
        return g.bytes;
    }
    // ------------------------------------------------------------ values
    unsigned width(Type* t)
    {
        if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) throw Unsup{"wide int"}; return w; }
        if (t->isPointerTy()) return 64;
        throw Unsup{"type"};
    }
    Val sc(E e) { Val v; v.s = e; return v; }
    Val undefVal(Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (auto* e: st->elements()) v.agg->push_back(undefVal(e));
            return v;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(undefVal(at->getElementType()));
            return v;
        }
        return sc(X.undef(width(t)));
    }
    Val zeroVal(Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (auto* e: st->elements()) v.agg->push_back(zeroVal(e));
            return v;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroVal(at->getElementType()));
            return v;
        }
        return sc(X.cst(0, width(t)));
    }
    Val constVal(const Constant* c)
    {
        if (auto* ci = dyn_cast<ConstantInt>(c))
        {
            unsigned w = width(ci->getType());
            u128 v = ci->getValue().extractBitsAsZExtValue(std::min(w, 64u), 0);
            if (w > 64) v |= (u128)ci->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
            return sc(X.cst(v, w));
        }
        if (isa<UndefValue>(c)) return undefVal(c->getType());
        if (isa<ConstantPointerNull>(c)) return sc(X.cst(0, 64));
        if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
        if (auto* g = dyn_cast<GlobalValue>(c)) return sc(X.cst(addrOf(g), 64));
        if (auto* ca = dyn_cast<ConstantAggregate>(c))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (auto& o: ca->operands()) v.agg->push_back(constVal(cast<Constant>(o)));
            return v;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i)));
            return v;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            switch (ce->getOpcode())
            {
            case Instruction::GetElementPtr:
            {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Unsup{"const gep"};
                E b = constVal(ce->getOperand(0)).s;
                return sc(X.bin(Op::Add, b, X.cst((u128)(uint64_t)off.getSExtValue(), 64)));
            }
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            {
                E b = constVal(ce->getOperand(0)).s;
                unsigned w = width(ce->getType());
                return sc(w < b->w ? X.un(Op::Extract, w, 0, b) : X.un(Op::ZExt, w, 0, b));
            }
            case Instruction::Sub: return sc(X.bin(Op::Sub, constVal(ce->getOperand(0)).s, constVal(ce->getOperand(1)).s));
            case Instruction::Add: return sc(X.bin(Op::Add, constVal(ce->getOperand(0)).s, constVal(ce->getOperand(1)).s));
            default: throw Unsup{std::string("constexpr ") + ce->getOpcodeName()};
            }
        }
        throw Unsup{"constant"};
    }
    Val get(Frame& f, const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
        auto it = f.fi->slot.find(v);
        if (it == f.fi->slot.end()) throw Unsup{"value"};
        Val& r = f.loc[it->second];
        if (r.empty()) { std::string s; raw_string_ostream o(s); v->print(o); throw Unsup{"dead value read: " + s}; }
        return r;
    }
    // ------------------------------------------------------------ memory
    void storeVal(std::vector<E>& bytes, uint64_t off, const Val& v, Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            auto* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); i++)
                storeVal(bytes, off + (uint64_t)sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            uint64_t es = DL.getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); i++) storeVal(bytes, off + i * es, (*v.agg)[i], at->getElementType());
            return;
        }
        unsigned w = width(t), n = (w + 7) / 8;
        E e = v.s;
        if (w % 8) e = X.un(Op::ZExt, n * 8, 0, e);
        for (unsigned i = 0; i < n; i++) bytes[off + i] = X.un(Op::Extract, 8, 8 * i, e);
    }
    // read access: returns the byte or null with `bad` set
    struct Res { std::shared_ptr<std::vector<E>>* slot; uint64_t off; uint64_t size; uint64_t base; int kind; Global* g; };
    bool find(State& s, uint64_t a, Res& r)
    {
        for (auto it = s.objs.rbegin(); it != s.objs.rend(); ++it)
            if (a >= it->base && a < it->base + it->size)
            {
                r = {&it->bytes, a - it->base, it->size, it->base, it->kind, nullptr};
                return it->kind != 4;
            }
        auto g = globs.upper_bound(a);
        if (g != globs.begin())
        {
            --g;
            if (a < g->second.base + g->second.size)
            {
                r = {nullptr, a - g->second.base, g->second.size, g->second.base, 0, &g->second};
                return true;
            }
        }
        return false;
    }
    struct Fatal { std::string kind; };
    // the object an address belongs to, one past its end included; 0: none
    uint64_t objectOf(State& s, uint64_t a)
    {
        for (auto it = s.objs.rbegin(); it != s.objs.rend(); ++it)
            if (a >= it->base && a <= it->base + it->size) return it->base;
        auto g = globs.upper_bound(a);
        if (g != globs.begin())
        {
            --g;
            if (a <= g->second.base + g->second.size) return g->second.base;
        }
        return a ? 1 + a : 0;
    }
    E loadByte(State& s, uint64_t a)
    {
        Res r;
        if (find(s, a, r))
        {
            if (r.g)
            {
                auto w = s.globs.find(r.base);
                if (w != s.globs.end()) return (*w->second)[r.off];
                return (*globBytes(*r.g))[r.off];
            }
            return (**r.slot)[r.off];
        }
        // a read close to an input view: outside byte, a fixed unknown
        for (unsigned k = 0; k < ins.size(); k++)
        {
            int64_t d = (int64_t)(a - ins[k].base);
            if (ins[k].base && d >= -64 && d < (int64_t)ins[k].len + 64)
            {
                s.flags |= OOBR;
                return X.var(1000 + 400 * k + (unsigned)(d + 64));
            }
        }
        throw Fatal{a < 4096 ? "NULLREAD" : "OOBREAD"};
    }
    Val loadVal(State& s, uint64_t a, Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t))
        {
            auto* sl = DL.getStructLayout(st);
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            for (unsigned i = 0; i < st->getNumElements(); i++)
                v.agg->push_back(loadVal(s, a + (uint64_t)sl->getElementOffset(i), st->getElementType(i)));
            return v;
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            uint64_t es = DL.getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadVal(s, a + i * es, at->getElementType()));
            return v;
        }
        unsigned w = width(t), n = (w + 7) / 8;
        E e = nullptr;
        for (unsigned i = 0; i < n; i++)
        {
            E b = loadByte(s, a + i);
            e = e ? X.bin(Op::Concat, b, e) : b;
        }
        if (w % 8) e = X.un(Op::Extract, w, 0, e);
        return sc(e);
    }
    std::vector<E>& writable(State& s, uint64_t a, uint64_t n, uint64_t& off)
    {
        Res r;
        if (!find(s, a, r) || r.off + n > r.size) throw Fatal{a < 4096 ? "NULLWRITE" : "OOBWRITE"};
        if (r.kind == 1) throw Fatal{"INPUTWRITE"};
        off = r.off;
        if (r.g)
        {
            if (r.g->gv->isConstant()) throw Fatal{"CONSTWRITE"};
            auto& w = s.globs[r.base];
            if (!w) w = std::make_shared<std::vector<E>>(*globBytes(*r.g));
            else if (w.use_count() > 1) w = std::make_shared<std::vector<E>>(*w);
            return *w;
        }
        if (r.slot->use_count() > 1) *r.slot = std::make_shared<std::vector<E>>(**r.slot);
        return **r.slot;
    }
    // ------------------------------------------------------------ forking
    struct Fork {}; // the current instruction is abandoned; successors are queued
    void bind(State& s, E e, E v)
    {
        E ne = e->w == 1 ? X.not_(e) : nullptr, nv = e->w == 1 ? X.not_(v) : nullptr;
        for (auto& f: s.fr)
            for (auto& l: f.loc) bindVal(l, e, v, ne, nv);
    }
    void bindVal(Val& l, E e, E v, E ne, E nv)
    {
        if (l.s == e) l.s = v;
        else if (ne && l.s == ne) l.s = nv;
        if (l.agg)
        {
            bool any = false;
            for (auto& x: *l.agg) if (x.agg || x.s == e || (ne && x.s == ne)) any = true;
            if (any)
            {
                l.agg = std::make_shared<std::vector<Val>>(*l.agg);
                for (auto& x: *l.agg) bindVal(x, e, v, ne, nv);
            }
        }
    }
    SP clone(State& s) { return std::make_unique<State>(s); }
    static bool implies(int a, int b) { return M->and_(a, M->neg(b)) == 0; }
    // make the boolean e constant in s, forking if both values are possible
    bool decide(State& s, E e)
    {
        if (X.isc(e)) return e->cv;
        undefCheck(s, e);
        int m = M->of(e);
        int t = M->and_(s.pm, m), f = M->and_(s.pm, M->neg(m));
        if (t == 0) { s.pc = X.and_(s.pc, X.not_(e)); bind(s, e, X.F); return false; }
        if (f == 0) { s.pc = X.and_(s.pc, e); bind(s, e, X.T); return true; }
        forks++;
        SP o = clone(s);
        o->pc = X.and_(s.pc, X.not_(e)); o->pm = f; bind(*o, e, X.F);
        push(std::move(o));
        SP p = clone(s);
        p->pc = X.and_(s.pc, e); p->pm = t; bind(*p, e, X.T);
        push(std::move(p));
        throw Fork{};
    }
    // a decision that is not the value of a slot: the successors carry it in pc and re-derive it
    void undefCheck(State& s, E e)
    {
        if (ExprStore::hasUndef(e)) throw Fatal{"UNINIT"};
    }
    std::vector<u128> enumerate(State& s, E e)
    {
        std::set<u128> r;
        undefCheck(s, e);
        if (e->sup.size() != 1) 
        {
            // split on the first variables until one is left
            throw Unsup{"symbolic address over several variables"};
        }
        Mask m = M->values(s.pm, e->sup[0]);
        for (unsigned v = 0; v < 256; v++)
            if (m[v >> 6] >> (v & 63) & 1) r.insert(X.eval(e, [&](int) { return (u128)v; }));
        return {r.begin(), r.end()};
    }
    u128 concrete(State& s, E e)
    {
        if (X.isc(e)) return e->cv;
        if (e->w == 1) return decide(s, e);
        auto vals = enumerate(s, e);
        if (vals.size() == 1) { bind(s, e, X.cst(vals[0], e->w)); return vals[0]; }
        forks++;
        for (auto v: vals)
        {
            E c = X.bin(Op::Eq, e, X.cst(v, e->w));
            int m = M->and_(s.pm, M->of(c));
            if (!m) continue;
            SP o = clone(s);
            o->pc = X.and_(s.pc, c); o->pm = m;
            bind(*o, e, X.cst(v, e->w));
            push(std::move(o));
        }
        throw Fork{};
    }
    // ------------------------------------------------------------ scheduling
    std::vector<int> pos(State& s)
    {
        std::vector<int> p;
        for (auto& f: s.fr)
        {
            for (auto& l: f.b->loops) { p.push_back((int)l.first); p.push_back((int)f.iters[l.second]); }
            p.push_back((int)f.b->rpo);
            p.push_back((int)f.idx);
        }
        return p;
    }
    void valKey(std::vector<uint32_t>& k, const Val& v)
    {
        if (v.s) k.push_back(v.s->id + 2);
        else if (v.agg) { k.push_back(1); for (auto& x: *v.agg) valKey(k, x); }
        else k.push_back(0);
    }
    VK key(State& s)
    {
        VK r;
        auto& k = r.k;
        k.reserve(keyHint);
        auto put = [&](uint64_t x) { k.push_back((uint32_t)x); k.push_back((uint32_t)(x >> 32)); };
        for (auto& f: s.fr)
        {
            put((uint64_t)(uintptr_t)f.b);
            k.push_back(f.idx);
            if (f.idx == f.b->firstNonPhi) for (unsigned x: f.b->liveIn) valKey(k, f.loc[x]);
            else
                for (size_t x = 0; x < f.loc.size(); x++)
                    if (!f.loc[x].empty()) { k.push_back((uint32_t)x); valKey(k, f.loc[x]); }
        }
        put(~0ull);
        k.push_back(s.flags);
        put(s.brk);
        for (auto& o: s.objs)
        {
            put(o.base); put(o.size * 8 + o.kind);
            if (o.kind != 1) for (auto e: *o.bytes) k.push_back(e->id);
        }
        for (auto& g: s.globs) { put(g.first); for (auto e: *g.second) k.push_back(e->id); }
        keyHint = k.size() + 16;
        size_t h = k.size();
        for (auto x: k) h = (h ^ x) * 0x9e3779b97f4a7c15ull + (h >> 29);
        r.h = h;
        return r;
    }
    size_t keyHint = 64;
    void push(SP s)
    {
        nstates++;
        auto [it, fresh] = pending.try_emplace(key(*s), s.get());
        if (!fresh)
        {
            State* o = it->second;
            merges++;
            o->pc = X.or_(o->pc, s->pc);
            o->pm = M->or_(o->pm, s->pm);
            o->steps = std::max(o->steps, s->steps);
            return;
        }
        s->key = &it->first;
        work[pos(*s)].push_back(std::move(s));
    }
    void goTo(State& s, BasicBlock* from, BasicBlock* to)
    {
        Frame& f = s.fr.back();
        BlockInfo& b = f.fi->blocks[to];
        std::vector<std::pair<unsigned, Val>> nv;
        for (auto& p: to->phis())
            if (!p.use_empty()) nv.push_back({f.fi->slot[&p], get(f, p.getIncomingValueForBlock(from))});
        // loop counters
        auto h = f.fi->header.find(to);
        if (h != f.fi->header.end())
        {
            if (h->second.second.count(from)) f.iters[h->second.first]++;
            else f.iters[h->second.first] = 0;
        }
        for (auto& x: nv) f.loc[x.first] = x.second;
        f.b = &b;
        f.idx = b.firstNonPhi;
        // keep only what is live
        for (unsigned x: b.dead[from]) f.loc[x] = Val();
        for (unsigned x: b.liveIn)
        {
            Val& v = f.loc[x];
            if (v.s && v.s->w == 1 && !X.isc(v.s) && !ExprStore::hasUndef(v.s))
            {
                int m = M->of(v.s);
                if (M->and_(s.pm, m) == 0) { s.pc = X.and_(s.pc, X.not_(v.s)); v.s = X.F; }
                else if (implies(s.pm, m)) { s.pc = X.and_(s.pc, v.s); v.s = X.T; }
            }
        }
        // boolean phis are made concrete, so that states can merge
        for (auto& x: nv)
        {
            Val& v = f.loc[x.first];
            if (v.s && v.s->w == 1 && !X.isc(v.s) && !ExprStore::hasUndef(v.s)) decide(s, v.s);
        }
    }
    // ------------------------------------------------------------ outcomes
    std::string where(State& s)
    {
        if (s.fr.empty()) return "";
        Frame& f = s.fr.back();
        if (f.idx >= f.b->ins.size()) return "";
        Instruction* I = f.b->ins[f.idx];
        std::string r;
        if (auto& dl = I->getDebugLoc())
        {
            auto* sc = cast<DIScope>(dl.getScope());
            r = sc->getFilename().str() + ":" + std::to_string(dl.getLine());
        }
        return r;
    }
    void outcome(State& s, std::string kind, std::vector<E> out = {}, std::string wh = "")
    {
        std::string k = kind + "|" + std::to_string(s.flags) + "|" + wh;
        for (E e: out) k += "," + std::to_string(e->id);
        auto it = outIdx.find(k);
        if (it != outIdx.end())
        {
            auto& o = outs[it->second];
            o.pc = X.or_(o.pc, s.pc);
            o.pm = M->or_(o.pm, s.pm);
            o.steps = std::max(o.steps, s.steps);
            return;
        }
        outIdx[k] = outs.size();
        outs.push_back({kind, s.flags, out, s.pc, s.pm, s.steps, wh});
    }
    // ------------------------------------------------------------ execution
    E binop(unsigned opc, E a, E b)
    {
        switch (opc)
        {
        case Instruction::Add: if (a->w == 1) return X.bin(Op::Xor, a, b); return X.bin(Op::Add, a, b);
        case Instruction::Sub: if (a->w == 1) return X.bin(Op::Xor, a, b); return X.bin(Op::Sub, a, b);
        case Instruction::Mul: if (a->w == 1) return X.and_(a, b); return X.bin(Op::Mul, a, b);
        case Instruction::UDiv: return X.bin(Op::UDiv, a, b);
        case Instruction::SDiv: return X.bin(Op::SDiv, a, b);
        case Instruction::URem: return X.bin(Op::URem, a, b);
        case Instruction::SRem: return X.bin(Op::SRem, a, b);
        case Instruction::Shl: return X.bin(Op::Shl, a, b);
        case Instruction::LShr: return X.bin(Op::LShr, a, b);
        case Instruction::AShr: return X.bin(Op::AShr, a, b);
        case Instruction::And: return X.bin(Op::And, a, b);
        case Instruction::Or: return X.bin(Op::Or, a, b);
        case Instruction::Xor: return X.bin(Op::Xor, a, b);
        default: throw Unsup{"binary op"};
        }
    }
    E cmp(CmpInst::Predicate p, E a, E b)
    {
        switch (p)
        {
        case CmpInst::ICMP_EQ: return X.bin(Op::Eq, a, b);
        case CmpInst::ICMP_NE: return X.not_(X.bin(Op::Eq, a, b));
        case CmpInst::ICMP_ULT: return X.bin(Op::Ult, a, b);
        case CmpInst::ICMP_UGT: return X.bin(Op::Ult, b, a);
        case CmpInst::ICMP_ULE: return X.bin(Op::Ule, a, b);
        case CmpInst::ICMP_UGE: return X.bin(Op::Ule, b, a);
        case CmpInst::ICMP_SLT: return X.bin(Op::Slt, a, b);
        case CmpInst::ICMP_SGT: return X.bin(Op::Slt, b, a);
        case CmpInst::ICMP_SLE: return X.bin(Op::Sle, a, b);
        case CmpInst::ICMP_SGE: return X.bin(Op::Sle, b, a);
        default: throw Unsup{"compare"};
        }
    }
    void set(Frame& f, Instruction* I, Val v)
    {
        f.loc[f.fi->slot[I]] = std::move(v);
    }
    E symLoad(State& s, E addr, Type* t)
    {
        // a table indexed by an input byte
        auto vals = enumerate(s, addr);
        if (vals.size() > 256 || t->isAggregateType()) return nullptr;
        E r = nullptr;
        for (auto it = vals.rbegin(); it != vals.rend(); ++it)
        {
            E v = loadVal(s, (uint64_t)*it, t).s;
            r = r ? X.ite(X.bin(Op::Eq, addr, X.cst(*it, 64)), v, r) : v;
        }
        return r;
    }
    void copyBytes(State& s, uint64_t d, uint64_t a, uint64_t n)
    {
        if (!n) return;
        std::vector<E> tmp(n);
        for (uint64_t i = 0; i < n; i++) tmp[i] = loadByte(s, a + i);
        uint64_t off; auto& w = writable(s, d, n, off);
        for (uint64_t i = 0; i < n; i++) w[off + i] = tmp[i];
    }
    void fillObj(State& s, uint64_t a, E e)
    {
        for (auto& o: s.objs)
            if (o.base == a)
            {
                if (o.bytes.use_count() > 1) o.bytes = std::make_shared<std::vector<E>>(*o.bytes);
                for (auto& b: *o.bytes) b = e;
            }
    }
    // returns false when the call pushed a frame or ended the state
    bool call(State& s, CallBase* cb)
    {
        Frame& f = s.fr.back();
        Function* fn = cb->getCalledFunction();
        if (!fn)
        {
            uint64_t a = (uint64_t)concrete(s, get(f, cb->getCalledOperand()).s);
            auto it = faddr.find(a);
            if (it == faddr.end()) throw Fatal{"BADCALL"};
            fn = it->second;
        }
        if (fn->isIntrinsic())
        {
            auto arg = [&](unsigned i) { return get(f, cb->getArgOperand(i)).s; };
            switch (fn->getIntrinsicID())
            {
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
                fillObj(s, (uint64_t)concrete(s, arg(1)), X.undef(8));
                return true;
            case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::donothing:
            case Intrinsic::var_annotation:
                if (!cb->getType()->isVoidTy()) set(f, cb, zeroVal(cb->getType()));
                return true;
            case Intrinsic::expect:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::expect_with_probability: set(f, cb, sc(arg(0))); return true;
            case Intrinsic::is_constant: set(f, cb, sc(X.F)); return true;
            case Intrinsic::objectsize: set(f, cb, sc(X.cst(~(u128)0, width(cb->getType())))); return true;
            case Intrinsic::umax: set(f, cb, sc(X.ite(X.bin(Op::Ult, arg(0), arg(1)), arg(1), arg(0)))); return true;
            case Intrinsic::umin: set(f, cb, sc(X.ite(X.bin(Op::Ult, arg(0), arg(1)), arg(0), arg(1)))); return true;
            case Intrinsic::smax: set(f, cb, sc(X.ite(X.bin(Op::Slt, arg(0), arg(1)), arg(1), arg(0)))); return true;
            case Intrinsic::smin: set(f, cb, sc(X.ite(X.bin(Op::Slt, arg(0), arg(1)), arg(0), arg(1)))); return true;
            case Intrinsic::abs: set(f, cb, sc(X.ite(X.bin(Op::Slt, arg(0), X.cst(0, arg(0)->w)), X.bin(Op::Sub, X.cst(0, arg(0)->w), arg(0)), arg(0)))); return true;
            case Intrinsic::usub_sat: set(f, cb, sc(X.ite(X.bin(Op::Ult, arg(0), arg(1)), X.cst(0, arg(0)->w), X.bin(Op::Sub, arg(0), arg(1))))); return true;
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::umul_with_overflow:
            {
                E a = arg(0), b = arg(1), r, o;
                if (fn->getIntrinsicID() == Intrinsic::uadd_with_overflow) { r = X.bin(Op::Add, a, b); o = X.bin(Op::Ult, r, a); }
                else if (fn->getIntrinsicID() == Intrinsic::usub_with_overflow) { r = X.bin(Op::Sub, a, b); o = X.bin(Op::Ult, a, b); }
                else
                {
                    if (a->w > 64) throw Unsup{"umul overflow"};
                    E p = X.bin(Op::Mul, X.un(Op::ZExt, 2 * a->w, 0, a), X.un(Op::ZExt, 2 * a->w, 0, b));
                    r = X.un(Op::Extract, a->w, 0, p);
                    o = X.not_(X.bin(Op::Eq, X.un(Op::Extract, a->w, a->w, p), X.cst(0, a->w)));
                }
                Val v; v.agg = std::make_shared<std::vector<Val>>();
                v.agg->push_back(sc(r)); v.agg->push_back(sc(o));
                set(f, cb, v);
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr:
            {
                E a = arg(0), b = arg(1), c = arg(2);
                if (!X.isc(c) || a->w > 64) throw Unsup{"funnel shift"};
                unsigned k = (unsigned)(c->cv % a->w);
                E cc = X.bin(Op::Concat, a, b);
                set(f, cb, sc(fn->getIntrinsicID() == Intrinsic::fshl ? X.un(Op::Extract, a->w, a->w - k, cc) : X.un(Op::Extract, a->w, k, cc)));
                return true;
            }
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove:
                copyBytes(s, (uint64_t)concrete(s, arg(0)), (uint64_t)concrete(s, arg(1)), (uint64_t)concrete(s, arg(2)));
                return true;
            case Intrinsic::memset:
            {
                uint64_t d = (uint64_t)concrete(s, arg(0)), n = (uint64_t)concrete(s, arg(2));
                if (!n) return true;
                uint64_t off; auto& w = writable(s, d, n, off);
                E v = arg(1);
                for (uint64_t i = 0; i < n; i++) w[off + i] = v;
                return true;
            }
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::smul_with_overflow:
            {
                E a = arg(0), b = arg(1);
                if (a->w > 64) throw Unsup{"signed overflow"};
                unsigned w = fn->getIntrinsicID() == Intrinsic::smul_with_overflow ? 2 * a->w : a->w + 1;
                E p = X.un(Op::SExt, w, 0, a), q = X.un(Op::SExt, w, 0, b);
                E t = X.bin(fn->getIntrinsicID() == Intrinsic::sadd_with_overflow ? Op::Add : fn->getIntrinsicID() == Intrinsic::ssub_with_overflow ? Op::Sub : Op::Mul, p, q);
                E r = X.un(Op::Extract, a->w, 0, t);
                Val v; v.agg = std::make_shared<std::vector<Val>>();
                v.agg->push_back(sc(r)); v.agg->push_back(sc(X.not_(X.bin(Op::Eq, X.un(Op::SExt, w, 0, r), t))));
                set(f, cb, v);
                return true;
            }
            case Intrinsic::ubsantrap:
            case Intrinsic::trap: throw Fatal{"TRAP"};
            case Intrinsic::stacksave: set(f, cb, sc(X.cst(0, 64))); return true;
            case Intrinsic::stackrestore: return true;
            default: throw Unsup{"intrinsic " + fn->getName().str()};
            }
        }
        if (fn->isDeclaration())
        {
            StringRef n = fn->getName();
            auto arg = [&](unsigned i) { return get(f, cb->getArgOperand(i)).s; };
            if (n == "_Znwm" || n == "_Znam" || n == "malloc")
            {
                uint64_t sz = (uint64_t)concrete(s, arg(0));
                uint64_t b = s.brk;
                s.brk += (sz + 0x1ff) & ~0xffull;
                s.objs.push_back({b, sz, std::make_shared<std::vector<E>>(sz, X.undef(8)), 3});
                set(f, cb, sc(X.cst(b, 64)));
                return true;
            }
            if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free")
            {
                uint64_t a = (uint64_t)concrete(s, arg(0));
                if (!a) return true;
                for (auto it = s.objs.begin(); it != s.objs.end(); ++it)
                    if (it->base == a && it->kind == 3) { it->kind = 4; it->bytes = std::make_shared<std::vector<E>>(); return true; }
                throw Fatal{"BADFREE"};
            }
            if (n == "memcmp" || n == "bcmp")
            {
                uint64_t a = (uint64_t)concrete(s, arg(0)), b = (uint64_t)concrete(s, arg(1)), k = (uint64_t)concrete(s, arg(2));
                E r = X.cst(0, 32);
                for (uint64_t i = k; i-- > 0;)
                {
                    E x = loadByte(s, a + i), y = loadByte(s, b + i);
                    r = X.ite(X.bin(Op::Eq, x, y), r, X.ite(X.bin(Op::Ult, x, y), X.cst(~(u128)0, 32), X.cst(1, 32)));
                }
                set(f, cb, sc(r));
                return true;
            }
            if (n == "strlen")
            {
                uint64_t a = (uint64_t)concrete(s, arg(0)), i = 0;
                for (;; i++)
                {
                    E b = loadByte(s, a + i);
                    if (!X.isc(b)) throw Unsup{"strlen of symbolic data"};
                    if (b->cv == 0) break;
                }
                set(f, cb, sc(X.cst(i, 64)));
                return true;
            }
            if (n == "memchr")
            {
                uint64_t a = (uint64_t)concrete(s, arg(0)), k = (uint64_t)concrete(s, arg(2));
                E c = X.un(Op::Extract, 8, 0, arg(1));
                E r = X.cst(0, 64);
                std::vector<E> bs;
                for (uint64_t i = 0; i < k; i++) bs.push_back(loadByte(s, a + i));
                for (uint64_t i = k; i-- > 0;)
                {
                    E q = X.bin(Op::Eq, bs[i], c);
                    if (X.isc(q)) { if (q->cv) r = X.cst(a + i, 64); continue; }
                    // forks keep pointers concrete
                }
                bool sym = false;
                for (uint64_t i = 0; i < k; i++) if (!X.isc(X.bin(Op::Eq, bs[i], c))) sym = true;
                if (sym) throw Unsup{"memchr on symbolic data"};
                set(f, cb, sc(r));
                return true;
            }
            if (n == "__cxa_atexit") { set(f, cb, sc(X.cst(0, 32))); return true; }
            if (n.contains("__throw") || n == "__cxa_throw" || n == "__cxa_allocate_exception" || n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "__glibcxx_assert_fail" || n.contains("__glibcxx_assert"))
                throw Fatal{"THROW"};
            throw Unsup{"external function " + n.str()};
        }
        noteFn(fn);
        if (s.fr.size() > 2000) throw Fatal{"STACK"};
        FnInfo* fi = info(fn);
        Frame nf;
        nf.fi = fi;
        nf.loc.resize(fi->nslots);
        nf.iters.resize(fi->nloops);
        for (unsigned i = 0; i < fn->arg_size(); i++)
        {
            Val v = get(f, cb->getArgOperand(i));
            if (v.s && v.s->w == 1 && !X.isc(v.s)) { v = sc(X.cst(decide(s, v.s), 1)); }
            if (fn->getArg(i)->hasByValAttr())
            {
                // a private copy
                uint64_t src = (uint64_t)concrete(s, v.s), n = DL.getTypeAllocSize(fn->getParamByValType(i));
                if (!nf.sp) nf.sp = topSp(s);
                uint64_t b = alloc(s, nf, n);
                copyBytes(s, b, src, n);
                v = sc(X.cst(b, 64));
            }
            nf.loc[fi->slot[fn->getArg(i)]] = v;
        }
        if (!nf.sp) nf.sp = topSp(s);
        nf.b = &fi->blocks[&fn->getEntryBlock()];
        nf.idx = nf.b->firstNonPhi;
        s.fr.push_back(std::move(nf));
        return false;
    }
    uint64_t topSp(State& s)
    {
        uint64_t sp = 0x40000000;
        for (auto& o: s.objs) if (o.kind == 0 && o.base >= 0x40000000) sp = std::max(sp, (uint64_t)((o.base + o.size + 0x17f) & ~0xffull));
        return sp;
    }
    uint64_t alloc(State& s, Frame& f, uint64_t n)
    {
        uint64_t b = topSp(s);
        if (b < f.sp) b = f.sp;
        s.objs.push_back({b, n, std::make_shared<std::vector<E>>(n, X.undef(8)), 0});
        return b;
    }
    // executes one state until it forks, reaches a block boundary or ends
    void run(SP sp)
    {
        State& s = *sp;
        try
        {
            while (true)
            {
                Frame& f = s.fr.back();
                Instruction* I = f.b->ins[f.idx];
                steps++;
                s.steps++;
                if (s.steps > maxPath) throw Fatal{"LIMIT"};
                if (I->isTerminator())
                {
                    if (auto* br = dyn_cast<BranchInst>(I))
                    {
                        BasicBlock* to;
                        if (br->isUnconditional()) to = br->getSuccessor(0);
                        else if (br->getSuccessor(0) == br->getSuccessor(1)) to = br->getSuccessor(0);
                        else
                        {
                            E c = get(f, br->getCondition()).s;
                            to = br->getSuccessor(decide(s, c) ? 0 : 1);
                        }
                        goTo(s, f.b->bb, to);
                        if (!s.fr.back().b->join) continue;
                        push(std::move(sp));
                        return;
                    }
                    if (auto* iv = dyn_cast<InvokeInst>(I)) { (void)iv; throw Unsup{"invoke"}; }
                    if (auto* sw = dyn_cast<SwitchInst>(I))
                    {
                        E c = get(f, sw->getCondition()).s;
                        undefCheck(s, c);
                        if (X.isc(c))
                        {
                            BasicBlock* to = sw->getDefaultDest();
                            for (auto& cs: sw->cases())
                                if (constVal(cs.getCaseValue()).s == c) to = cs.getCaseSuccessor();
                            goTo(s, f.b->bb, to);
                            if (!s.fr.back().b->join) continue;
                            push(std::move(sp));
                            return;
                        }
                        std::vector<std::pair<BasicBlock*, E>> dest;
                        E dflt = X.T;
                        for (auto& cs: sw->cases())
                        {
                            E q = X.bin(Op::Eq, c, constVal(cs.getCaseValue()).s);
                            dflt = X.and_(dflt, X.not_(q));
                            bool found = false;
                            for (auto& d: dest) if (d.first == cs.getCaseSuccessor()) { d.second = X.or_(d.second, q); found = true; }
                            if (!found) dest.push_back({cs.getCaseSuccessor(), q});
                        }
                        bool found = false;
                        for (auto& d: dest) if (d.first == sw->getDefaultDest()) { d.second = X.or_(d.second, dflt); found = true; }
                        if (!found) dest.push_back({sw->getDefaultDest(), dflt});
                        for (auto& d: dest)
                        {
                            int m = M->and_(s.pm, M->of(d.second));
                            if (!m) continue;
                            SP o = clone(s);
                            o->pc = X.and_(s.pc, d.second);
                            o->pm = m;
                            try { goTo(*o, f.b->bb, d.first); push(std::move(o)); }
                            catch (Fork&) {}
                        }
                        return;
                    }
                    if (auto* rt = dyn_cast<ReturnInst>(I))
                    {
                        Val v;
                        if (rt->getReturnValue())
                        {
                            v = get(f, rt->getReturnValue());
                            if (v.s && v.s->w == 1 && !X.isc(v.s) && !ExprStore::hasUndef(v.s)) v = sc(X.cst(decide(s, v.s), 1));
                        }
                        uint64_t base = f.sp;
                        while (!s.objs.empty() && s.objs.back().kind == 0 && s.objs.back().base >= base) s.objs.pop_back();
                        s.fr.pop_back();
                        if (s.fr.empty())
                        {
                            finish(s);
                            return;
                        }
                        Frame& c = s.fr.back();
                        Instruction* ci = c.b->ins[c.idx];
                        if (!ci->getType()->isVoidTy()) set(c, ci, v);
                        c.idx++;
                        push(std::move(sp));
                        return;
                    }
                    if (isa<UnreachableInst>(I)) throw Fatal{"UNREACHABLE"};
                    throw Unsup{std::string("terminator ") + I->getOpcodeName()};
                }
                if (auto* cb = dyn_cast<CallBase>(I))
                {
                    if (!call(s, cb)) continue;
                    s.fr.back().idx++;
                    continue;
                }
                step(s, f, I);
                f.idx++;
            }
        }
        catch (Fork&) {}
        catch (Fatal& e) { outcome(s, e.kind, {}, where(s)); }
        catch (Unsup& e) { outcome(s, "UNSUP", {}, e.why + " @ " + where(s)); }
    }
    void step(State& s, Frame& f, Instruction* I)
    {
        if (auto* bo = dyn_cast<BinaryOperator>(I))
        {
            E a = get(f, bo->getOperand(0)).s, b = get(f, bo->getOperand(1)).s;
            unsigned oc = bo->getOpcode();
            if (oc == Instruction::UDiv || oc == Instruction::SDiv || oc == Instruction::URem || oc == Instruction::SRem)
                if (!X.isc(b) || b->cv == 0)
                {
                    if (X.isc(b)) throw Fatal{"DIVZERO"};
                    throw Unsup{"symbolic divisor"};
                }
            set(f, I, sc(binop(oc, a, b)));
            return;
        }
        if (auto* ic = dyn_cast<ICmpInst>(I))
        {
            E a = get(f, ic->getOperand(0)).s, b = get(f, ic->getOperand(1)).s;
            if (strict && ic->getOperand(0)->getType()->isPointerTy() && !ic->isEquality())
            {
                uint64_t p = (uint64_t)concrete(s, a), q = (uint64_t)concrete(s, b);
                if (p != q && objectOf(s, p) != objectOf(s, q)) throw Fatal{"PTRCMP"};
            }
            set(f, I, sc(cmp(ic->getPredicate(), a, b)));
            return;
        }
        switch (I->getOpcode())
        {
        case Instruction::Select:
        {
            auto* si = cast<SelectInst>(I);
            E c = get(f, si->getCondition()).s;
            if (X.isc(c)) { set(f, I, get(f, c->cv ? si->getTrueValue() : si->getFalseValue())); return; }
            Val a = get(f, si->getTrueValue()), b = get(f, si->getFalseValue());
            if (a.s && a.s == b.s) { set(f, I, a); return; }
            if (ExprStore::hasUndef(c))
            {
                if (!a.s) throw Fatal{"UNINIT"};
                set(f, I, sc(a.s->w == 1 ? X.ite(c, a.s, b.s) : X.undef(a.s->w)));
                return;
            }
            if (a.s && a.s->w == 1) { set(f, I, sc(X.ite(c, a.s, b.s))); return; }
            bool v = decide(s, c);
            set(f, I, v ? a : b);
            return;
        }
        case Instruction::ZExt:
        case Instruction::SExt:
        {
            E a = get(f, I->getOperand(0)).s;
            if (a->w == 1 && !X.isc(a) && !ExprStore::hasUndef(a)) a = X.cst(decide(s, a), 1);
            set(f, I, sc(X.un(I->getOpcode() == Instruction::ZExt ? Op::ZExt : Op::SExt, width(I->getType()), 0, a)));
            return;
        }
        case Instruction::Trunc: set(f, I, sc(X.un(Op::Extract, width(I->getType()), 0, get(f, I->getOperand(0)).s))); return;
        case Instruction::PtrToInt:
        case Instruction::IntToPtr:
        {
            E a = get(f, I->getOperand(0)).s;
            unsigned w = width(I->getType());
            set(f, I, sc(w < a->w ? X.un(Op::Extract, w, 0, a) : X.un(Op::ZExt, w, 0, a)));
            return;
        }
        case Instruction::BitCast:
        {
            if (I->getType()->isVectorTy() || I->getOperand(0)->getType()->isVectorTy()) throw Unsup{"vector"};
            set(f, I, get(f, I->getOperand(0)));
            return;
        }
        case Instruction::Freeze: set(f, I, get(f, I->getOperand(0))); return;
        case Instruction::Alloca:
        {
            auto* al = cast<AllocaInst>(I);
            uint64_t n = (uint64_t)concrete(s, get(f, al->getArraySize()).s) * DL.getTypeAllocSize(al->getAllocatedType());
            set(f, I, sc(X.cst(alloc(s, f, n), 64)));
            return;
        }
        case Instruction::GetElementPtr:
        {
            auto* g = cast<GetElementPtrInst>(I);
            E a = get(f, g->getPointerOperand()).s;
            const uint64_t from = strict && g->isInBounds() ? (uint64_t)concrete(s, a) : 0;
            for (auto ti = gep_type_begin(g); ti != gep_type_end(g); ++ti)
            {
                if (auto* st = ti.getStructTypeOrNull())
                {
                    unsigned k = (unsigned)cast<ConstantInt>(ti.getOperand())->getZExtValue();
                    a = X.bin(Op::Add, a, X.cst(DL.getStructLayout(st)->getElementOffset(k), 64));
                }
                else
                {
                    E i = get(f, ti.getOperand()).s;
                    if (i->w < 64) i = X.un(Op::SExt, 64, 0, i);
                    uint64_t sz = DL.getTypeAllocSize(ti.getIndexedType());
                    if (X.isc(i)) a = X.bin(Op::Add, a, X.cst((u128)((uint64_t)i->cv * sz), 64));
                    else a = X.bin(Op::Add, a, sz == 1 ? i : X.bin(Op::Mul, i, X.cst(sz, 64)));
                }
            }
            if (strict && g->isInBounds())
            {
                uint64_t to = (uint64_t)concrete(s, a);
                if (from != to && objectOf(s, from) != objectOf(s, to)) throw Fatal{"PTROUT"};
            }
            set(f, I, sc(a));
            return;
        }
        case Instruction::Load:
        {
            auto* ld = cast<LoadInst>(I);
            E a = get(f, ld->getPointerOperand()).s;
            if (!X.isc(a))
            {
                if (E r = symLoad(s, a, ld->getType())) { set(f, I, sc(r)); return; }
            }
            uint64_t p = (uint64_t)concrete(s, a);
            set(f, I, loadVal(s, p, ld->getType()));
            return;
        }
        case Instruction::Store:
        {
            auto* st = cast<StoreInst>(I);
            Val v = get(f, st->getValueOperand());
            if (v.s && v.s->w == 1 && !X.isc(v.s) && !ExprStore::hasUndef(v.s)) v = sc(X.cst(decide(s, v.s), 1));
            uint64_t p = (uint64_t)concrete(s, get(f, st->getPointerOperand()).s), off;
            auto& w = writable(s, p, DL.getTypeStoreSize(st->getValueOperand()->getType()), off);
            storeVal(w, off, v, st->getValueOperand()->getType());
            return;
        }
        case Instruction::ExtractValue:
        {
            auto* ev = cast<ExtractValueInst>(I);
            Val v = get(f, ev->getAggregateOperand());
            for (unsigned k: ev->indices()) { Val t = (*v.agg)[k]; v = t; }
            set(f, I, v);
            return;
        }
        case Instruction::InsertValue:
        {
            auto* iv = cast<InsertValueInst>(I);
            Val v = get(f, iv->getAggregateOperand());
            Val x = get(f, iv->getInsertedValueOperand());
            set(f, I, insert(v, iv->getIndices(), 0, x));
            return;
        }
        default: throw Unsup{std::string("instruction ") + I->getOpcodeName()};
        }
    }
    Val insert(Val v, ArrayRef<unsigned> idx, unsigned d, Val x)
    {
        if (d == idx.size()) return x;
        v.agg = std::make_shared<std::vector<Val>>(*v.agg);
        (*v.agg)[idx[d]] = insert((*v.agg)[idx[d]], idx, d + 1, x);
        return v;
    }
    void finish(State& s)
    {
        Res r;
        std::vector<E> out;
        if (nout)
        {
            find(s, outBase, r);
            auto& b = **r.slot;
            for (unsigned i = 0; i < nout; i++)
            {
                E e = nullptr;
                for (unsigned k = 0; k < 4; k++) e = e ? X.bin(Op::Concat, b[4 * i + k], e) : b[4 * i + k];
                if (ExprStore::hasUndef(e)) { outcome(s, "UNINIT", {}, "result " + std::to_string(i)); return; }
                out.push_back(e);
            }
        }
        outcome(s, "RET", out);
    }
    // ------------------------------------------------------------ a job
    void job(const std::string& spec, raw_ostream& os)
    {
        t0 = std::chrono::steady_clock::now();
        outs.clear(); outIdx.clear(); work.clear(); pending.clear(); visited.clear(); encoded.clear(); ins.clear();
        steps = forks = merges = nstates = 0;
        std::vector<std::string> part(1);
        for (char c: spec) if (c == ':') part.emplace_back(); else part.back() += c;
        Function* f = mod.getFunction(part[0]);
        if (!f || f->isDeclaration()) { os << "{\"job\":\"" << spec << "\",\"error\":\"no function\"}\n"; return; }
        nout = (unsigned)std::stoul(part[2]);
        if (part.size() > 3) maxPath = std::stoull(part[3]);
        SP s = std::make_unique<State>();
        s->pc = X.T;
        s->brk = 0x80000000;
        std::vector<Val> args;
        std::string num;
        unsigned var = 0;
        uint64_t base = 0x100000;
        // bytes at the same place of several buffers are neighbours in the order of the diagrams
        extVar.clear();
        {
            std::vector<std::pair<unsigned, unsigned>> at; // place, number
            unsigned n = 0;
            std::string t;
            for (char c: part[1] + ",")
            {
                if (c != ',') { t += c; continue; }
                // "n": a null view; "4": four bytes; "4@61????62": four bytes, only the second and the third of them symbolic
                if (t != "n") for (unsigned i = 0; i < (unsigned)std::stoul(t); i++) at.push_back({i, n++});
                t.clear();
            }
            std::stable_sort(at.begin(), at.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& a: at) extVar.push_back(a.second);
        }
        std::vector<unsigned> intVar(extVar.size());
        for (unsigned i = 0; i < extVar.size(); i++) intVar[extVar[i]] = i;
        for (char c: part[1] + ",")
        {
            if (c != ',') { num += c; continue; }
            if (num == "n")
            {
                ins.push_back({0, 0, var});
                args.push_back(sc(X.cst(0, 64))); args.push_back(sc(X.cst(0, 64)));
            }
            else
            {
                unsigned n = (unsigned)std::stoul(num);
                ins.push_back({base, n, var});
                auto bytes = std::make_shared<std::vector<E>>();
                const size_t known = num.find('@');
                for (unsigned i = 0; i < n; i++, var++)
                {
                    if (known != std::string::npos && num[known + 1 + 2 * i] != '?') bytes->push_back(X.cst(std::stoul(num.substr(known + 1 + 2 * i, 2), nullptr, 16), 8));
                    else bytes->push_back(X.var(intVar[var]));
                }
                s->objs.push_back({base, n, bytes, 1});
                args.push_back(sc(X.cst(base, 64)));
                args.push_back(sc(X.cst(base + n, 64)));
                base += 0x10000;
            }
            num.clear();
        }
        outBase = 0x800000;
        s->objs.push_back({outBase, 4ull * nout, std::make_shared<std::vector<E>>(4 * nout, X.cst(0x55, 8)), 2});
        args.push_back(sc(X.cst(outBase, 64)));
        FnInfo* fi = info(f);
        if (f->arg_size() != args.size()) { os << "{\"job\":\"" << spec << "\",\"error\":\"arity\"}\n"; return; }
        noteFn(f);
        Frame fr;
        fr.fi = fi; fr.loc.resize(fi->nslots); fr.iters.resize(fi->nloops); fr.sp = 0x40000000;
        for (unsigned i = 0; i < args.size(); i++) fr.loc[fi->slot[f->getArg(i)]] = args[i];
        fr.b = &fi->blocks[&f->getEntryBlock()];
        fr.idx = fr.b->firstNonPhi;
        s->fr.push_back(std::move(fr));
        push(std::move(s));
        bool limit = false;
        try {
        while (!work.empty())
        {
            auto it = work.begin();
            SP st = std::move(it->second.back());
            it->second.pop_back();
            if (it->second.empty()) work.erase(it);
            auto node = pending.extract(*(const VK*)st->key);
            if (limit) { outcome(*st, "LIMIT"); continue; }
            auto [v, fresh] = visited.try_emplace(std::move(node.key()), st->pc, st->pm);
            if (!fresh)
            {
                int both = M->and_(v->second.second, st->pm);
                if (both)
                {
                    // the same complete state again for the same input: it never ends
                    SP o = clone(*st);
                    o->pc = X.and_(st->pc, v->second.first);
                    o->pm = both;
                    outcome(*o, "NONTERM", {}, where(*o));
                    st->pm = M->and_(st->pm, M->neg(v->second.second));
                    st->pc = X.and_(st->pc, X.not_(v->second.first));
                    if (!st->pm) continue;
                }
                v->second.first = X.or_(v->second.first, st->pc);
                v->second.second = M->or_(v->second.second, st->pm);
            }
            run(std::move(st));
            if (steps > maxSteps || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > maxSecs) limit = true;
        }
        }
        catch (Mdd::TooBig&) { os << "{\"job\":\"" << spec << "\",\"error\":\"LIMIT: too many distinct inputs\"}\n"; return; }
        print(spec, os);
    }
    void print(const std::string& spec, raw_ostream& os)
    {
        // DAG in creation order
        std::set<uint32_t> need;
        std::vector<E> st;
        auto add = [&](E e) { if (e && need.insert(e->id).second) st.push_back(e); };
        for (auto& o: outs) { add(o.pc); for (E e: o.out) add(e); }
        while (!st.empty()) { E e = st.back(); st.pop_back(); add(e->a); add(e->b); add(e->c); }
        static const char* names[] = {"const", "var", "opaque", "undef", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "not", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat"};
        auto str = [](u128 v) { std::string r; if (!v) return std::string("0"); while (v) { r += char('0' + (int)(v % 10)); v /= 10; } std::reverse(r.begin(), r.end()); return r; };
        auto esc = [](const std::string& s) { std::string r; for (char c: s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) c = ' '; r += c; } return r; };
        os << "{\"job\":\"" << spec << "\",\"nodes\":[";
        bool first = true;
        for (uint32_t id: need)
        {
            E e = X.all[id];
            if (!first) os << ",";
            first = false;
            os << "[" << id << ",\"" << names[(int)e->op] << "\"," << e->w << ",";
            if (e->op == Op::Const) os << str(e->cv);
            else os << (e->op == Op::Var && (size_t)e->aux < extVar.size() ? (int64_t)extVar[e->aux] : (int64_t)e->aux);
            for (E x: {e->a, e->b, e->c}) if (x) os << "," << x->id;
            os << "]";
        }
        os << "],\"outcomes\":[";
        first = true;
        for (auto& o: outs)
        {
            if (!first) os << ",";
            first = false;
            os << "{\"kind\":\"" << o.kind << "\",\"flags\":" << o.flags << ",\"pc\":" << o.pc->id << ",\"steps\":" << o.steps << ",\"where\":\"" << esc(o.where) << "\",\"out\":[";
            for (size_t i = 0; i < o.out.size(); i++)
            {
                if (i) os << ",";
                E e = o.out[i];
                if (X.isc(e)) os << (int64_t)sx(e->cv, 32);
                else os << "{\"e\":" << e->id << "}";
            }
            os << "]}";
        }
        os << "],\"fns\":[";
        first = true;
        for (auto& n: madeOf[spec.substr(0, spec.find(':'))]) encoded.insert(n);
        for (auto& n: encoded) { if (!first) os << ","; first = false; os << "\"" << esc(n) << "\""; }
        double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        os << "],\"stats\":{\"steps\":" << steps << ",\"states\":" << nstates << ",\"forks\":" << forks << ",\"merges\":" << merges << ",\"secs\":" << format("%.3f", secs) << "}}\n";
    }
};

static void optimize(Module& m)
{
    if (strict)
    {
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cgam, mam);
        ModulePassManager mpm;
        mpm.addPass(AlwaysInlinerPass(false));
        {
            FunctionPassManager fpm;
            fpm.addPass(LowerInvokePass());
            mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
        }
        mpm.run(m, mam);
        for (auto& f: m) if (!f.isDeclaration()) removeUnreachableBlocks(f);
        FunctionPassManager fpm;
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        for (auto& f: m) if (!f.isDeclaration()) { fam.clear(); fpm.run(f, fam); }
        return;
    }
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
    PassBuilder pb;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cgam, mam);
    ModulePassManager mpm;
    mpm.addPass(AlwaysInlinerPass(false));
    {
        FunctionPassManager fpm;
        fpm.addPass(LowerInvokePass());
        fpm.addPass(SimplifyCFGPass());
        fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
        fpm.addPass(EarlyCSEPass());
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
    }
    InlineParams ip = getInlineParams(100000);
    mpm.addPass(ModuleInlinerPass(ip));
    {
        FunctionPassManager fpm;
        fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
        fpm.addPass(EarlyCSEPass(true));
        fpm.addPass(InstCombinePass());
        fpm.addPass(SimplifyCFGPass());
        fpm.addPass(SROAPass(SROAOptions::ModifyCFG));
        fpm.addPass(EarlyCSEPass(true));
        fpm.addPass(SCCPPass());
        fpm.addPass(InstCombinePass());
        fpm.addPass(SimplifyCFGPass());
        fpm.addPass(ADCEPass());
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
    }
    mpm.run(m, mam);
}

int main(int argc, char** argv)
{
    if (argc < 2) return 2;
    strict = getenv("SYMEX_STRICT") != nullptr;
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("symex", errs()); return 2; }
    for (auto& f: *m)
    {
        f.removeFnAttr(Attribute::OptimizeNone);
        if (f.hasFnAttribute(Attribute::NoInline) && !f.hasFnAttribute("symex-keep")) f.removeFnAttr(Attribute::NoInline);
        f.removeFnAttr(Attribute::MustProgress);
        f.removeFnAttr(Attribute::WillReturn);
    }
    // what each harness function is made of, before inlining
    for (auto& f: *m)
    {
        if (f.isDeclaration() || f.hasLocalLinkage() || f.getName().starts_with("_Z")) continue;
        std::set<const Function*> seen {&f};
        std::vector<const Function*> todo {&f};
        auto& names = madeOf[f.getName().str()];
        while (!todo.empty())
        {
            const Function* g = todo.back();
            todo.pop_back();
            for (auto& bb: *g)
                for (auto& in: bb)
                    if (auto* cb = dyn_cast<CallBase>(&in))
                        if (auto* c = cb->getCalledFunction())
                            if (!c->isDeclaration() && seen.insert(c).second)
                            {
                                todo.push_back(c);
                                std::string d = demangle(c->getName().str()), r;
                                int depth = 0;
                                for (size_t k = 0; k < d.size(); k++)
                                {
                                    char ch = d[k];
                                    if (d.compare(k, 8, "operator") == 0) { size_t e = d.find('(', k + 8); if (e == k + 8) e = d.find('(', e + 1); if (!depth) r += d.substr(k, e == std::string::npos ? e : e - k); break; }
                                    if (ch == '<') depth++;
                                    else if (ch == '>') depth--;
                                    else if (!depth && ch == '(') break;
                                    else if (!depth) r += ch;
                                }
                                size_t sp = r.rfind(' ');
                                if (sp != std::string::npos && r.find("operator") == std::string::npos) r = r.substr(sp + 1);
                                names.insert(r.substr(0, 100));
                            }
        }
    }
    optimize(*m);
    if (getenv("SYMEX_DUMP")) { std::error_code ec; raw_fd_ostream o(getenv("SYMEX_DUMP"), ec); m->print(o, nullptr); }
    // jobs: the arguments, or with "-" one per line of the input
    std::string line;
    for (int i = 2; i < argc; i++)
    {
        std::string spec = argv[i];
        if (spec == "-")
        {
            if (!std::getline(std::cin, line)) break;
            spec = line;
            i--;
        }
        X.~ExprStore();
        new (&X) ExprStore();
        delete M;
        M = new Mdd(X);
        Engine e(*m);
        if (getenv("SYMEX_SECS")) e.maxSecs = atof(getenv("SYMEX_SECS"));
        try { e.job(spec, outs()); }
        catch (Unsup& u) { outs() << "{\"job\":\"" << spec << "\",\"error\":\"" << u.why << "\"}\n"; }
        outs().flush();
    }
    return 0;
}
