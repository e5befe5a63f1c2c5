"""Harness texts. Every harness is extern "C" and uses the library through its public interface
(the unoptimised matcher of C09 and the set types of C16 are the exceptions: there is no public name
for them)."""
from .core import cstr

HEADER = r'''
#include <e_regex.hpp>
#include <array>
#include <string_view>
#include <tuple>
#include <utility>
using view_t = e_regex::literal_string_view<>;
static constexpr int off(const char* p, const char* b) { return p == nullptr ? -1 : (int)(p - b); }
static constexpr void put(std::string_view v, const char* b, int* out)
{
    // an empty text is reported as such; where it lies does not matter
    out[0] = (int)v.size();
    out[1] = v.size() == 0 ? -1 : off(v.data(), b);
}
template<class R> static constexpr void emit_match(const R& m, const char* b, int* out)
{
    out[0] = m.is_accepted() ? 1 : 0;
    auto v = m.to_view();
    out[1] = m.is_accepted() ? off(v.data(), b) : -1;
    out[2] = (int)v.size();
}
template<unsigned G, class R> static constexpr void emit_groups(const R& m, const char* b, int* out)
{
    for (unsigned i = 1; i <= G; ++i) put(m.get_group(i), b, out + 2 * (i - 1));
}
static constexpr bool same(std::string_view x, std::string_view y)
{
    return x.size() == y.size() && (x.size() == 0 || x.data() == y.data());
}
// a search
template<unsigned G, class F> static constexpr void run_search(F match, const char* b, const char* e, int* out)
{
    auto m = match(view_t {b, e});
    emit_match(m, b, out);
    emit_groups<G>(m, b, out + 3);
}
// all matches: out[0] their number (at most MAX), out[1] flags, then begin, size, groups of each
template<unsigned G, int MAX, class F> static constexpr void run_iter(F match, const char* b, const char* e, int* out)
{
    constexpr int W = 2 + 2 * G;
    int* rec = out + 2;
    auto m = match(view_t {b, e});
    int k = 0;
    bool more = m.is_accepted();
    int flags = 0;
    while (more && k < MAX)
    {
        auto v = m.to_view();
        rec[k * W] = off(v.data(), b);
        rec[k * W + 1] = (int)v.size();
        emit_groups<G>(m, b, rec + k * W + 2);
        ++k;
        more = m.next();
        if (more != m.is_accepted()) flags |= 1;
    }
    out[0] = k;
    if (!more)
    {
        // it stays exhausted
        for (int i = 0; i < 2; ++i)
        {
            if (m.is_accepted() || m.to_view().size() != 0) flags |= 2;
            for (unsigned g = 0; g <= G; ++g) if (m.get_group(g).size() != 0) flags |= 2;
            if (i == 0) { if (m.next()) flags |= 4; }
        }
    }
    out[1] = flags;
}
// the other two ways to iterate visit the matches `next` visits
template<unsigned G, int MAX, class F> static constexpr void run_ways(F match, const char* b, const char* e, int* out)
{
    int begins[MAX + 1], sizes[MAX + 1];
    auto m = match(view_t {b, e});
    int k = 0;
    bool more = m.is_accepted();
    while (more && k < MAX)
    {
        auto v = m.to_view();
        begins[k] = off(v.data(), b);
        sizes[k] = (int)v.size();
        ++k;
        more = m.next();
    }
    int flags = more ? 32 : 0;
    {
        auto n = match(view_t {b, e});
        int j = 0;
        for (auto v: n)
        {
            if (j >= k) { flags |= 1; break; }
            if (off(v.data(), b) != begins[j] || (int)v.size() != sizes[j]) flags |= 2;
            ++j;
        }
        if (j != k) flags |= 4;
    }
    {
        auto n = match(view_t {b, e});
        int j = 0;
        while (n)
        {
            if (j >= k) { flags |= 8; break; }
            auto v = *n;
            if (off(v.data(), b) != begins[j] || (int)v.size() != sizes[j]) flags |= 16;
            ++j;
            ++n;
        }
        if (j != k) flags |= 8;
    }
    // iterating a result that was advanced starts again from the first match, and leaves the result where it was
    for (int s = 1; s <= 2; ++s)
    {
        auto n = match(view_t {b, e});
        for (int i = 0; i < s; ++i) n.next();
        auto at = n.to_view();
        bool acc = n.is_accepted();
        int j = 0;
        for (auto v: n)
        {
            if (j >= k) { flags |= 64; break; }
            if (off(v.data(), b) != begins[j] || (int)v.size() != sizes[j]) flags |= 64;
            ++j;
        }
        if (j != k) flags |= 64;
        if (n.is_accepted() != acc || !same(n.to_view(), at)) flags |= 128;
    }
    out[0] = k;
    out[1] = flags;
}
// the most steps that any way to iterate takes (at most MAX)
template<int MAX, class F> static constexpr void run_finish(F match, const char* b, const char* e, int* out)
{
    int k = 0;
    {
        auto m = match(view_t {b, e});
        bool more = m.is_accepted();
        while (more && k < MAX) { ++k; more = m.next(); }
    }
    int j = 0;
    for (auto v: match(view_t {b, e}))
    {
        (void)v;
        if (++j >= MAX) break;
    }
    int i = 0;
    {
        auto m = match(view_t {b, e});
        for (auto x = m.begin(); x != m.end() && i < MAX; ++x) ++i;
    }
    out[0] = k;
    out[1] = j;
    out[2] = i;
}
template<e_regex::static_string P> struct plain
{
    constexpr auto operator()(view_t v) const { return e_regex::regex<P>::match(v); }
};
'''

UNOPT = r'''
template<e_regex::static_string P> struct unoptimized
{
    auto operator()(view_t v) const
    {
        return e_regex::match_result<typename e_regex::tree_builder<e_regex::build_pack_string_t<P>>::tree> {v};
    }
};
'''

REPARSE = r'''
template<unsigned S> constexpr auto as_static(std::string_view v)
{
    std::array<char, S> a {};
    for (unsigned i = 0; i < S; ++i) a[i] = v[i];
    return e_regex::static_string<S> {a};
}
template<e_regex::static_string P> struct reparsed
{
    static constexpr auto view = e_regex::regex<P>::get_expression();
    static constexpr auto text = as_static<view.size()>(view);
    auto operator()(view_t v) const { return e_regex::regex<text>::match(v); }
};
'''


def fn(name, body, bufs=1):
    args = ','.join('const char*b%s,const char*e%s' % (i or '', i or '') for i in range(bufs))
    return 'extern "C" void %s(%s,int*out){ %s }' % (name, args, body)


def cefn(name, body):
    """a harness that can be constant-evaluated too"""
    a = '(const char*b,const char*e,int*out)'
    return 'static constexpr void ce_%s%s{ %s } extern "C" void %s%s{ ce_%s(b,e,out); }' % (name, a, body, name, a, name)


def search(name, pattern, groups, how='plain'):
    """accepted, begin, size, then size/begin of every group"""
    return fn(name, 'run_search<%d>(%s<%s>{},b,e,out);' % (groups, how, cstr(pattern))), 3 + 2 * groups


def iterate(name, pattern, groups, n, how='plain'):
    return (fn(name, 'run_iter<%d,%d>(%s<%s>{},b,e,out);' % (groups, n + 3, how, cstr(pattern))),
            2 + (n + 3) * (2 + 2 * groups))


def ways(name, pattern, groups, n):
    return fn(name, 'run_ways<%d,%d>(plain<%s>{},b,e,out);' % (groups, n + 3, cstr(pattern))), 2


def finish(name, pattern, n):
    return fn(name, 'run_finish<%d>(plain<%s>{},b,e,out);' % (n + 3, cstr(pattern))), 3


def admits(name, pattern, both=True):
    """does a search find a text at the very beginning whose first character is outside the admission set?"""
    return fn(name, 'using O=%s;using U=%s;' % ('e_regex::regex<%s>::ast' % cstr(pattern), 'typename e_regex::tree_builder<e_regex::build_pack_string_t<%s>>::tree' % cstr(pattern)) +
              'auto m=e_regex::regex<%s>::match(view_t{b,e}); auto v=m.to_view(); out[0]=(m.is_accepted()&&v.size()!=0&&v.data()==b'
              '&&!(e_regex::nodes::extract_admission_set<O>::type::can_admit(*b)%s))?1:0;' % (
                  cstr(pattern), '&&e_regex::nodes::extract_admission_set<U>::type::can_admit(*b)' if both else '')), 1


def expect_search(res, groups, caps=True):
    """out array for a reference result (start, end, caps) or None"""
    if res is None:
        return [0, -1, 0] + [0, -1] * groups
    s, e, cs = res
    out = [1, s, e - s]
    return out + expect_caps(cs)


def expect_caps(cs):
    out = []
    for b, f in cs:
        out += [0, -1] if f - b <= 0 else [f - b, b]
    return out


def agree(name, pattern, groups):
    """C18: every way of reading a result agrees; out[0] 0, or what differs"""
    g = groups
    b = ['using R=e_regex::regex<%s>; auto m=R::match(view_t{b,e}); int f=0;' % cstr(pattern),
         'const bool acc=m.is_accepted(); if(acc!=static_cast<bool>(m)) f|=1; if(m){ if(!acc) f|=1; } else if(acc) f|=1;',
         'std::string_view w=m.to_view();',
         'if(!same(w,m[0])||!same(w,m.get_group(0))||!same(w,*m)||!same(w,m.template get<0>())) f|=2;',
         '{ view_t l=m; if(!same(w,std::string_view{l.begin(),(std::size_t)(l.end()-l.begin())})) f|=4; }',
         'if(!same(w,static_cast<std::string_view>(m))) f|=4;',
         'if((unsigned)m.size()!=%du||(unsigned)m.groups()!=%du||(unsigned)R::groups!=%du) f|=8;' % (g, g, g)]
    names = ['q%d' % i for i in range(g + 1)]
    b.append('{ auto [%s]=m; if(!same(q0,w)) f|=16;' % ','.join(names))
    for i in range(1, g + 1):
        b.append('if(!same(q%d,m[%d])) f|=32;' % (i, i))
    b.append('}')
    for i in range(0, g + 1):
        b.append('if(!same(m[%d],m.get_group(%d))||!same(m[%d],m.template get<%d>())||!same(m[%d],std::get<%d>(m))) f|=64;' % ((i,) * 6))
    b.append('if(!acc){ if(w.size()!=0) f|=128;')
    for i in range(1, g + 1):
        b.append('if(m[%d].size()!=0) f|=128;' % i)
    b.append('}')
    b.append('auto c=m; auto d=R::match(view_t{}); d=m;')
    for x in 'cd':
        b.append('if(%s.is_accepted()!=acc||!same(%s.to_view(),w)) f|=256;' % (x, x))
        for i in range(1, g + 1):
            b.append('if(!same(%s[%d],m[%d])) f|=256;' % (x, i, i))
    b.append('bool n1=m.next(),n2=c.next(),n3=d.next(); if(n1!=n2||n1!=n3||n1!=m.is_accepted()||!same(m.to_view(),c.to_view())||!same(m.to_view(),d.to_view())) f|=512;')
    for i in range(1, g + 1):
        b.append('if(!same(c[%d],m[%d])||!same(d[%d],m[%d])) f|=512;' % ((i,) * 4))
    b.append('{ constexpr R r; auto k=r(view_t{b,e}); if(k.is_accepted()!=acc||!same(k.to_view(),w)) f|=1024;')
    b.append('}')
    b.append('out[0]=f;')
    return fn(name, '\n'.join(b)), 1


# ---------------------------------------------------------------- tokenizers
TOKHEAD = r'''
enum class tt { T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11 };
template<int MAX, class T> static constexpr void run_tok(T t, const char* b, const char* e, int* out)
{
    auto it = t(view_t {b, e});
    int k = 0;
    while (it && k < MAX)
    {
        auto tk = *it;
        out[1 + 3 * k] = (int)(tk.value.begin() - b);
        out[2 + 3 * k] = (int)tk.value.size();
        out[3 + 3 * k] = (int)tk.type;
        ++k;
        ++it;
    }
    out[0] = it ? k + 1000 : k;
}
template<int MAX, class T> static constexpr void run_tokfinish(T t, const char* b, const char* e, int* out)
{
    auto it = t(view_t {b, e});
    int k = 0;
    while (it && k < MAX) { ++k; ++it; }
    out[0] = k;
    int j = 0;
    for (auto tk: t(view_t {b, e}))
    {
        (void)tk;
        if (++j >= MAX) break;
    }
    out[1] = j;
    auto x = t(view_t {b, e});
    int i = 0;
    while (x != x.end() && i < MAX) { ++i; ++x; }
    out[2] = i;
    i = 0;
    auto y = t(view_t {b, e});
    while (!(y == y.end()) && i < MAX) { ++i; ++y; }
    out[3] = i;
}
template<int MAX, class T> static constexpr void run_protocol(T t, const char* b, const char* e, int* out)
{
    int begins[MAX + 1], sizes[MAX + 1], types[MAX + 1];
    int f = 0, k = 0;
    auto it = t(view_t {b, e});
    while (it && k < MAX)
    {
        auto tk = *it;
        if (tk.value.empty()) f |= 1;
        if (it->value.begin() != tk.value.begin() || it->value.size() != tk.value.size() || it->type != tk.type) f |= 2;
        if (it == it.end() || !(it != it.end())) f |= 4;
        begins[k] = (int)(tk.value.begin() - b);
        sizes[k] = (int)tk.value.size();
        types[k] = (int)tk.type;
        if (begins[k] < 0 || sizes[k] < 1 || tk.value.end() > e) f |= 8;
        if (k && begins[k] < begins[k - 1] + sizes[k - 1]) f |= 8;
        ++k;
        ++it;
    }
    if (it) f |= 16;
    else
    {
        for (int i = 0; i < 2; ++i)
        {
            if (it || !(it == it.end()) || it != it.end()) f |= 32;
            ++it;
        }
        if (it) f |= 32;
    }
    // a second begin(), of the exhausted iterator
    auto s = it.begin();
    for (int j = 0; j < k; ++j)
    {
        if (!s || (int)((*s).value.begin() - b) != begins[j] || (int)(*s).value.size() != sizes[j] || (int)(*s).type != types[j]) { f |= 64; break; }
        ++s;
    }
    if (!(f & 64) && s) f |= 64;
    // range-based for
    auto res = t(view_t {b, e});
    int j = 0;
    for (auto tk: res)
    {
        if (j >= k) { f |= 128; break; }
        if ((int)(tk.value.begin() - b) != begins[j] || (int)tk.value.size() != sizes[j] || (int)tk.type != types[j]) f |= 256;
        ++j;
    }
    if (j != k) f |= 128;
    // the range was not consumed by iterating it
    if (k && (!res || (int)((*res).value.begin() - b) != begins[0])) f |= 512;
    out[0] = k;
    out[1] = f;
}
'''


def tokenizer_type(defs):
    a = []
    ty = 0
    for kind, text in defs:
        if kind == 's':
            a.append('e_regex::separator{%s}' % cstr(text))
        else:
            a.append('e_regex::token{tt::T%s,%s}' % (kind[1:], cstr(text)))
    return 'e_regex::tokenization::tokenizer<%s>{}' % ','.join(a)
