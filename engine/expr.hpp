// Hash-consed bit-vector expressions, path-condition decision diagrams (used for pruning only),
// and SMT-LIB printing.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

enum class Op : uint8_t
{
    Const, Var, Opaque, Undef, // Var: 8-bit input byte; Opaque: free boolean (i1); Undef: an uninitialised value
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, // bit-vector (w>1) or boolean (w==1 for And/Or/Xor)
    Not,                       // boolean
    Eq, Ult, Ule, Slt, Sle,    // -> boolean
    Ite,                       // cond, a, b
    ZExt, SExt, Extract, Concat // Extract: aux = low bit
};

struct Expr
{
    Op op;
    unsigned w;
    unsigned aux = 0; // Var id, Opaque id, Extract low bit
    u128 cv = 0;
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    uint32_t id = 0;
    std::vector<int> sup; // sorted variable support (byte vars >= 0; opaque as -(id+1))
};
typedef const Expr* E;

struct ExprStore
{
    struct Key
    {
        Op op; unsigned w, aux; u128 cv; E a, b, c;
        bool operator==(const Key& o) const
        {
            return op == o.op && w == o.w && aux == o.aux && cv == o.cv && a == o.a && b == o.b && c == o.c;
        }
    };
    struct KH
    {
        size_t operator()(const Key& k) const
        {
            size_t h = (size_t)k.op * 1000003u + k.w * 31 + k.aux * 7919;
            auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
            mix((size_t)k.cv); mix((size_t)(k.cv >> 64));
            mix((size_t)k.a); mix((size_t)k.b); mix((size_t)k.c);
            return h;
        }
    };
    std::unordered_map<Key, Expr*, KH> tab;
    std::vector<Expr*> all;
    E T, F;
    ExprStore() { T = cst(1, 1); F = cst(0, 1); }
    E mk(Op op, unsigned w, unsigned aux, u128 cv, E a, E b, E c)
    {
        Key k{op, w, aux, cv, a, b, c};
        auto it = tab.find(k);
        if (it != tab.end()) return it->second;
        Expr* e = new Expr;
        e->op = op; e->w = w; e->aux = aux; e->cv = cv; e->a = a; e->b = b; e->c = c;
        e->id = all.size();
        if (op == Op::Var) e->sup = {(int)aux};
        else if (op == Op::Opaque) e->sup = {-(int)aux - 1};
        else if (op == Op::Undef) e->sup = {-1000000 - (int)aux};
        else
            for (E x: {a, b, c})
                if (x)
                {
                    std::vector<int> r;
                    std::set_union(e->sup.begin(), e->sup.end(), x->sup.begin(), x->sup.end(), std::back_inserter(r));
                    e->sup.swap(r);
                }
        all.push_back(e);
        tab.emplace(k, e);
        return e;
    }
    E cst(u128 v, unsigned w) { return mk(Op::Const, w, 0, v & maskw(w), nullptr, nullptr, nullptr); }
    E var(unsigned id) { return mk(Op::Var, 8, id, 0, nullptr, nullptr, nullptr); }
    E opaque(unsigned id) { return mk(Op::Opaque, 1, id, 0, nullptr, nullptr, nullptr); }
    E undef(unsigned w) { return mk(Op::Undef, w, 0, 0, nullptr, nullptr, nullptr); }
    static bool hasUndef(E e) { return !e->sup.empty() && e->sup[0] <= -1000000; }
    static u128 evalOp(Op op, unsigned w, unsigned aux, unsigned wa, u128 x, u128 y, u128 z, unsigned wb = 0)
    {
        u128 m = maskw(w);
        switch (op)
        {
        case Op::Add: return (x + y) & m;
        case Op::Sub: return (x - y) & m;
        case Op::Mul: return (x * y) & m;
        case Op::UDiv: return y ? (x / y) & m : m;
        case Op::URem: return y ? (x % y) & m : x;
        case Op::SDiv: { i128 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u128)(-(u128)a) & m; return (u128)(a / b) & m; }
        case Op::SRem: { i128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
        case Op::Shl: return y >= w ? 0 : (x << (unsigned)y) & m;
        case Op::LShr: return y >= w ? 0 : (x >> (unsigned)y) & m;
        case Op::AShr: { i128 a = sx(x, w); if (y >= w) return a < 0 ? m : 0; return (u128)(a >> (unsigned)y) & m; }
        case Op::And: return x & y;
        case Op::Or: return x | y;
        case Op::Xor: return x ^ y;
        case Op::Not: return x ^ 1;
        case Op::Eq: return x == y;
        case Op::Ult: return x < y;
        case Op::Ule: return x <= y;
        case Op::Slt: return sx(x, wa) < sx(y, wa);
        case Op::Sle: return sx(x, wa) <= sx(y, wa);
        case Op::Ite: return x ? y : z;
        case Op::ZExt: return x;
        case Op::SExt: return (u128)sx(x, wa) & m;
        case Op::Extract: return (x >> aux) & m;
        case Op::Concat: return ((x << wb) | y) & m;
        default: abort();
        }
    }
    bool isc(E e) { return e->op == Op::Const; }
    E un(Op op, unsigned w, unsigned aux, E a)
    {
        if (isc(a)) return cst(evalOp(op, w, aux, a->w, a->cv, 0, 0), w);
        if (op == Op::Not && a->op == Op::Not) return a->a;
        if ((op == Op::ZExt || op == Op::SExt || op == Op::Extract) && w == a->w) return a;
        if (op == Op::Extract)
        {
            if (a->op == Op::Concat)
            {
                unsigned lw = a->b->w;
                if (aux + w <= lw) return un(Op::Extract, w, aux, a->b);
                if (aux >= lw) return un(Op::Extract, w, aux - lw, a->a);
            }
            if (a->op == Op::ZExt)
            {
                if (aux >= a->a->w) return cst(0, w);
                if (aux + w <= a->a->w && a->a->w > 1) return un(Op::Extract, w, aux, a->a);
                if (aux == 0) return un(Op::ZExt, w, 0, a->a);
            }
            if (a->op == Op::Extract) return un(Op::Extract, w, aux + a->aux, a->a);
        }
        if (op == Op::ZExt && a->op == Op::ZExt) return un(Op::ZExt, w, 0, a->a);
        return mk(op, w, aux, 0, a, nullptr, nullptr);
    }
    E bin(Op op, E a, E b)
    {
        bool cmp = op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
        unsigned w = cmp ? 1 : (op == Op::Concat ? a->w + b->w : a->w);
        if (isc(a) && isc(b)) return cst(evalOp(op, w, 0, a->w, a->cv, b->cv, 0, b->w), w);
        if (op == Op::And)
        {
            if (a == b) return a;
            if (isc(a)) std::swap(a, b);
            if (isc(b)) { if (b->cv == 0) return cst(0, w); if (b->cv == maskw(w)) return a; }
            if (w == 1 && (a->op == Op::Not ? a->a == b : (b->op == Op::Not && b->a == a))) return F;
            if (w > 1 && isc(b) && (b->cv & (b->cv + 1)) == 0)
            {
                unsigned k = 0; while ((b->cv >> k) & 1) k++;
                return un(Op::ZExt, w, 0, un(Op::Extract, k, 0, a));
            }
        }
        if (op == Op::Or)
        {
            if (a == b) return a;
            if (isc(a)) std::swap(a, b);
            if (isc(b)) { if (b->cv == 0) return a; if (b->cv == maskw(w)) return b; }
            if (w == 1 && (a->op == Op::Not ? a->a == b : (b->op == Op::Not && b->a == a))) return T;
            if (w > 1)
                for (int k = 0; k < 2; k++, std::swap(a, b))
                    if (a->op == Op::ZExt && b->op == Op::Concat && isc(b->b) && b->b->cv == 0 && a->a->w <= b->b->w)
                        return bin(Op::Concat, b->a, un(Op::ZExt, b->b->w, 0, a->a));
        }
        if (op == Op::Xor)
        {
            if (a == b) return cst(0, w);
            if (isc(a)) std::swap(a, b);
            if (isc(b)) { if (b->cv == 0) return a; if (w == 1) return un(Op::Not, 1, 0, a); }
        }
        if (op == Op::Add || op == Op::Sub) { if (isc(b) && b->cv == 0) return a; if (op == Op::Sub && a == b) return cst(0, w); }
        if (op == Op::Eq)
        {
            if (a == b) return T;
            if (isc(a)) std::swap(a, b);
            if (a->w == 1 && isc(b)) return b->cv ? a : un(Op::Not, 1, 0, a);
            if (a->op == Op::ZExt && isc(b))
            {
                if (b->cv >> a->a->w) return F;
                return bin(Op::Eq, a->a, cst(b->cv, a->a->w));
            }
            if (a->op == Op::Concat && isc(b))
            {
                unsigned lw = a->b->w;
                return bin(Op::And, bin(Op::Eq, a->b, cst(b->cv, lw)), bin(Op::Eq, a->a, cst(b->cv >> lw, a->a->w)));
            }
            if (a->op == Op::Concat && b->op == Op::Concat && a->b->w == b->b->w)
                return bin(Op::And, bin(Op::Eq, a->b, b->b), bin(Op::Eq, a->a, b->a));
            if (a->op == Op::Xor && isc(b) && b->cv == 0) return bin(Op::Eq, a->a, a->b);
            if (a->op == Op::Or && isc(b) && b->cv == 0)
                return bin(Op::And, bin(Op::Eq, a->a, cst(0, a->w)), bin(Op::Eq, a->b, cst(0, a->w)));
        }
        if ((op == Op::Ult || op == Op::Slt) && a == b) return F;
        if ((op == Op::Ule || op == Op::Sle) && a == b) return T;
        if (op == Op::Concat && a->op == Op::Extract && b->op == Op::Extract && a->a == b->a && a->aux == b->aux + b->w)
            return un(Op::Extract, w, b->aux, a->a);
        if ((op == Op::Shl || op == Op::LShr || op == Op::AShr) && isc(b) && b->cv == 0) return a;
        if (op == Op::LShr && isc(b) && b->cv < w) return un(Op::ZExt, w, 0, un(Op::Extract, w - (unsigned)b->cv, (unsigned)b->cv, a));
        if (op == Op::Shl && isc(b) && b->cv < w) return bin(Op::Concat, un(Op::Extract, w - (unsigned)b->cv, 0, a), cst(0, (unsigned)b->cv));
        return mk(op, w, 0, 0, a, b, nullptr);
    }
    E ite(E c, E a, E b)
    {
        if (isc(c)) return c->cv ? a : b;
        if (a == b) return a;
        if (a->w == 1)
        {
            if (isc(a)) return a->cv ? bin(Op::Or, c, b) : bin(Op::And, un(Op::Not, 1, 0, c), b);
            if (isc(b)) return b->cv ? bin(Op::Or, un(Op::Not, 1, 0, c), a) : bin(Op::And, c, a);
        }
        return mk(Op::Ite, a->w, 0, 0, c, a, b);
    }
    E not_(E a) { return un(Op::Not, 1, 0, a); }
    E and_(E a, E b) { return bin(Op::And, a, b); }
    E or_(E a, E b) { return bin(Op::Or, a, b); }

    u128 eval(E e, const std::function<u128(int)>& val)
    {
        std::unordered_map<E, u128> memo;
        return evalr(e, val, memo);
    }
    u128 evalr(E e, const std::function<u128(int)>& val, std::unordered_map<E, u128>& memo)
    {
        if (e->op == Op::Const) return e->cv;
        if (e->op == Op::Var) return val(e->aux);
        if (e->op == Op::Opaque) return val(-(int)e->aux - 1);
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        u128 x = evalr(e->a, val, memo), y = e->b ? evalr(e->b, val, memo) : 0, z = e->c ? evalr(e->c, val, memo) : 0;
        u128 r = evalOp(e->op, e->w, e->aux, e->a->w, x, y, z, e->b ? e->b->w : 0);
        memo[e] = r;
        return r;
    }
};

// ---------------------------------------------------------------- decision diagrams over bytes
typedef std::array<uint64_t, 4> Mask;
struct Mdd
{
    struct Node
    {
        int var;
        std::vector<std::pair<int, Mask>> kids; // child id -> values; sorted by child id, a partition of the 256 values
        bool operator==(const Node& o) const { return var == o.var && kids == o.kids; }
    };
    struct NH
    {
        size_t operator()(const Node& n) const
        {
            size_t h = n.var * 7919u;
            for (auto& k: n.kids)
            {
                h = h * 1000003u ^ k.first;
                for (auto m: k.second) h = (h ^ m) * 0x9e3779b97f4a7c15ull;
            }
            return h;
        }
    };
    struct TooBig {};
    std::vector<Node> nodes;
    std::unordered_map<Node, int, NH> tab;
    std::unordered_map<uint64_t, int> andc, orc;
    std::unordered_map<int, int> notc;
    ExprStore& X;
    std::unordered_map<E, int> exprc;
    std::vector<int> order; // var -> level (identity); opaque variables are numbered from 100000
    Mdd(ExprStore& x): X(x)
    {
        nodes.push_back({1 << 30, {}}); // 0 = false
        nodes.push_back({1 << 30, {}}); // 1 = true
    }
    int make(int var, std::map<int, Mask>& kids)
    {
        if (kids.size() == 1) return kids.begin()->first;
        Node n{var, {}};
        for (auto& k: kids) n.kids.push_back(k);
        auto it = tab.find(n);
        if (it != tab.end()) return it->second;
        int id = nodes.size();
        if (id > 1500000) throw TooBig();
        nodes.push_back(n);
        tab.emplace(std::move(n), id);
        return id;
    }
    static void addm(std::map<int, Mask>& k, int c, const Mask& m)
    {
        auto it = k.find(c);
        if (it == k.end()) k.emplace(c, m);
        else for (int i = 0; i < 4; i++) it->second[i] |= m[i];
    }
    int atom(int var, const Mask& m)
    {
        Mask n; bool all = true, none = true;
        for (int i = 0; i < 4; i++) { n[i] = ~m[i]; if (m[i]) none = false; if (n[i]) all = false; }
        if (all) return 1;
        if (none) return 0;
        std::map<int, Mask> k; k[1] = m; k[0] = n;
        return make(var, k);
    }
    int neg(int a)
    {
        if (a < 2) return 1 - a;
        auto it = notc.find(a);
        if (it != notc.end()) return it->second;
        std::map<int, Mask> k;
        auto kids = nodes[a].kids; int var = nodes[a].var;
        for (auto& c: kids) addm(k, neg(c.first), c.second);
        return notc[a] = make(var, k);
    }
    template<bool AND> int apply(int a, int b)
    {
        if (a == b) return a;
        if (AND) { if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; }
        else { if (a == 1 || b == 1) return 1; if (a == 0) return b; if (b == 0) return a; }
        if (a > b) std::swap(a, b);
        uint64_t key = ((uint64_t)a << 32) | (uint32_t)b;
        auto& cache = AND ? andc : orc;
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        int va = nodes[a].var, vb = nodes[b].var, v = std::min(va, vb);
        std::map<int, Mask> k;
        if (va == vb)
        {
            auto ka = nodes[a].kids, kb = nodes[b].kids;
            for (auto& x: ka)
                for (auto& y: kb)
                {
                    Mask m; bool any = false;
                    for (int i = 0; i < 4; i++) { m[i] = x.second[i] & y.second[i]; any |= m[i] != 0; }
                    if (any) addm(k, apply<AND>(x.first, y.first), m);
                }
        }
        else
        {
            int n = va < vb ? a : b, o = va < vb ? b : a;
            auto kn = nodes[n].kids;
            for (auto& x: kn) addm(k, apply<AND>(x.first, o), x.second);
        }
        return cache[key] = make(v, k);
    }
    int and_(int a, int b) { return apply<true>(a, b); }
    int or_(int a, int b) { return apply<false>(a, b); }
    static E strip(E e) { return (e->op == Op::ZExt || e->op == Op::SExt) ? e->a : e; }
    static bool eqvars(E e)
    {
        if (e->a->op != e->b->op) return false;
        E x = strip(e->a), y = strip(e->b);
        return x->op == Op::Var && y->op == Op::Var && x != y;
    }
    static int level(int s) { return s >= 0 ? s : 100000 + (-s - 1); }
    int of(E e)
    {
        if (e->op == Op::Const) return e->cv ? 1 : 0;
        auto it = exprc.find(e);
        if (it != exprc.end()) return it->second;
        int r;
        if (e->op == Op::Not) r = neg(of(e->a));
        else if (e->w == 1 && e->op == Op::And) r = and_(of(e->a), of(e->b));
        else if (e->w == 1 && e->op == Op::Or) r = or_(of(e->a), of(e->b));
        else if (e->w == 1 && e->op == Op::Xor) { int a = of(e->a), b = of(e->b); r = or_(and_(a, neg(b)), and_(neg(a), b)); }
        else if (e->w == 1 && e->op == Op::Eq && e->a->w == 1) { int a = of(e->a), b = of(e->b); r = or_(and_(a, b), and_(neg(a), neg(b))); }
        else if (e->w == 1 && e->op == Op::Ite) { int c = of(e->a); r = or_(and_(c, of(e->b)), and_(neg(c), of(e->c))); }
        else if (e->op == Op::Opaque) { Mask m{2, 0, 0, 0}; r = atom(100000 + e->aux, m); }
        else if (e->sup.size() == 1 && e->sup[0] >= 0)
        {
            Mask m{0, 0, 0, 0};
            for (unsigned v = 0; v < 256; v++)
                if (X.eval(e, [&](int) { return (u128)v; })) m[v >> 6] |= 1ull << (v & 63);
            r = atom(e->sup[0], m);
        }
        else if (e->op == Op::Eq && eqvars(e))
        {
            E x = strip(e->a), y = strip(e->b);
            int v0 = std::min(x->aux, y->aux), v1 = std::max(x->aux, y->aux);
            std::map<int, Mask> k;
            for (unsigned c = 0; c < 256; c++)
            {
                Mask m{0, 0, 0, 0}; m[c >> 6] |= 1ull << (c & 63);
                addm(k, atom(v1, m), m);
            }
            r = make(v0, k);
        }
        else if (e->sup.size() == 2 && e->sup[0] >= 0 && e->sup[1] >= 0)
        {
            int v0 = e->sup[0], v1 = e->sup[1];
            std::map<int, Mask> k;
            for (unsigned x = 0; x < 256; x++)
            {
                Mask m{0, 0, 0, 0};
                for (unsigned y = 0; y < 256; y++)
                    if (X.eval(e, [&](int v) { return (u128)(v == v0 ? x : y); })) m[y >> 6] |= 1ull << (y & 63);
                Mask mx{0, 0, 0, 0}; mx[x >> 6] |= 1ull << (x & 63);
                addm(k, atom(v1, m), mx);
            }
            r = make(v0, k);
        }
        else
        {
            // not decided here: a free atom (over-approximates feasibility; the solver decides later)
            Mask m{2, 0, 0, 0};
            r = atom(200000 + (int)e->id, m);
        }
        exprc[e] = r;
        return r;
    }
    // a binary pseudo variable only has values 0 and 1; masks of its complement contain unused values,
    // which is harmless: both sides stay non-empty.
    // one value per variable on some path to true, restricted to variable v: the set of feasible values of v
    Mask values(int a, int v)
    {
        std::unordered_map<int, Mask> memo;
        return valuesr(a, v, memo);
    }
    Mask valuesr(int a, int v, std::unordered_map<int, Mask>& memo)
    {
        Mask all{~0ull, ~0ull, ~0ull, ~0ull}, none{0, 0, 0, 0};
        if (a == 0) return none;
        if (a == 1 || nodes[a].var > v) return all;
        auto it = memo.find(a);
        if (it != memo.end()) return it->second;
        Mask r = none;
        auto kids = nodes[a].kids;
        if (nodes[a].var == v)
        {
            for (auto& k: kids) if (k.first != 0) for (int i = 0; i < 4; i++) r[i] |= k.second[i];
        }
        else
            for (auto& k: kids) { Mask s = valuesr(k.first, v, memo); for (int i = 0; i < 4; i++) r[i] |= s[i]; }
        memo[a] = r;
        return r;
    }
};
