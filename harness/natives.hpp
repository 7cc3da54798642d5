// native objects read from and shown as text, without configor; bound types; forms of conversion
#pragma once
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
using V = VALUE;
using S = V::string_type;

// ---- reading and showing natives, without configor
template <typename T, typename = void> struct Nat;
template <typename T> void wr(Out& o, const T& x) { Nat<T>::wr(o, x); }
template <typename T> T    rd(In& in) { return Nat<T>::rd(in); }

template <> struct Nat<bool>
{
    static bool rd(In& in) { return in.word() == "t"; }
    static void wr(Out& o, bool b) { o.raw(b ? "[\"b\",1]" : "[\"b\",0]"); }
};
template <typename T> struct Nat<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
{
    static T    rd(In& in) { in.word(); return static_cast<T>(in.num()); }
    static void wr(Out& o, T x) { o.raw("[\"i\","); put_int(o, static_cast<long long>(x)); o.raw("]"); }
};
template <typename T> struct Nat<T, typename std::enable_if<std::is_floating_point<T>::value>::type>
{
    static T    rd(In& in) { in.word(); return static_cast<T>(std::strtod(in.word().c_str(), nullptr)); }
    static void wr(Out& o, T x) { o.raw("[\"d\","); put_flt(o, static_cast<double>(x)); o.raw("]"); }
};
template <> struct Nat<S>
{
    static S    rd(In& in) { in.word(); auto e = enc<S::value_type>(in.nums()); return S(e.begin(), e.end()); }
    static void wr(Out& o, const S& s) { o.raw("[\"s\",").nums(cps_of(s)).raw("]"); }
};
template <> struct Nat<V>
{
    static V    rd(In& in) { return build<V>(in); }
    static void wr(Out& o, const V& v) { show(o, v); }
};
class Name  // made from a string and made into one
{
    S s;
public:
    Name() {}
    Name(S x) : s(std::move(x)) {}
    operator S() const { return s; }
    const S& str() const { return s; }
    bool operator<(const Name& o) const { return s < o.s; }
    bool operator==(const Name& o) const { return s == o.s; }
    bool operator!=(const Name& o) const { return s != o.s; }
};
template <> struct Nat<Name>
{
    static Name rd(In& in) { return Name(::rd<S>(in)); }
    static void wr(Out& o, const Name& x) { ::wr<S>(o, x.str()); }
};
template <typename It> void wr_seq(Out& o, It b, It e)
{
    o.raw("[\"a\",[");
    for (bool f = true; b != e; ++b, f = false) { if (!f) o.raw(","); wr<typename std::decay<decltype(*b)>::type>(o, *b); }
    o.raw("]]");
}
template <typename C> struct NatSeq  // in order, built through a vector
{
    using E = typename C::value_type;
    static C rd(In& in)
    {
        in.word();
        std::deque<E> t;
        for (auto n = in.num(); n > 0; --n) t.push_back(::rd<E>(in));
        return C(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end()));
    }
    static void wr(Out& o, const C& c) { wr_seq(o, c.begin(), c.end()); }
};
template <typename T> struct Nat<std::vector<T>, typename std::enable_if<!std::is_same<T, bool>::value>::type> : NatSeq<std::vector<T>> {};
template <> struct Nat<std::vector<bool>>
{
    static std::vector<bool> rd(In& in) { in.word(); std::vector<bool> c; for (auto n = in.num(); n > 0; --n) c.push_back(::rd<bool>(in)); return c; }
    static void wr(Out& o, const std::vector<bool>& c) { o.raw("[\"a\",["); for (size_t i = 0; i < c.size(); ++i) { if (i) o.raw(","); bool b = c[i]; ::wr<bool>(o, b); } o.raw("]]"); }
};
template <typename T> struct Nat<std::list<T>> : NatSeq<std::list<T>> {};
template <typename T> struct Nat<std::deque<T>> : NatSeq<std::deque<T>> {};
template <typename T> struct Nat<std::forward_list<T>> : NatSeq<std::forward_list<T>> {};
template <typename T> struct Nat<std::set<T>> : NatSeq<std::set<T>> {};
template <typename T> struct Nat<std::unordered_set<T>> : NatSeq<std::unordered_set<T>> {};
template <typename T, size_t N> struct Nat<std::array<T, N>>
{
    static std::array<T, N> rd(In& in) { in.word(); in.num(); std::array<T, N> c; for (auto& x : c) x = ::rd<T>(in); return c; }
    static void wr(Out& o, const std::array<T, N>& c) { wr_seq(o, c.begin(), c.end()); }
};
template <typename C> struct NatMap
{
    using E = typename C::mapped_type;
    static C rd(In& in)
    {
        in.word();
        C c;
        for (auto n = in.num(); n > 0; --n) { auto e = enc<S::value_type>(in.nums()); S k(e.begin(), e.end()); c.emplace(k, ::rd<E>(in)); }
        return c;
    }
    static void wr(Out& o, const C& c)
    {
        o.raw("[\"o\",[");
        bool f = true;
        for (auto& p : c) { if (!f) o.raw(","); f = false; o.raw("[").nums(cps_of(static_cast<S>(p.first))).raw(","); ::wr<E>(o, p.second); o.raw("]"); }
        o.raw("]]");
    }
};
template <typename T> struct Nat<std::map<S, T>> : NatMap<std::map<S, T>> {};
template <typename T> struct Nat<std::map<Name, T>> : NatMap<std::map<Name, T>> {};
template <typename T> struct Nat<std::unordered_map<S, T>> : NatMap<std::unordered_map<S, T>> {};
template <typename P, typename T> struct NatPtr
{
    static P    rd(In& in) { if (in.word() == "n") return P(); return P(new T(::rd<T>(in))); }
    static void wr(Out& o, const P& p) { if (!p) { o.raw("[\"n\"]"); return; } o.raw("[\"p\","); ::wr<T>(o, *p); o.raw("]"); }
};
template <typename T> struct Nat<std::unique_ptr<T>> : NatPtr<std::unique_ptr<T>, T> {};
template <typename T> struct Nat<std::shared_ptr<T>> : NatPtr<std::shared_ptr<T>, T> {};

// ---- bound types
struct ND  // no default constructor, own binder
{
    int n;
    explicit ND(int i) : n(i) {}
};
inline bool operator!=(const ND& a, const ND& b) { return a.n != b.n; }
inline bool operator==(const ND& a, const ND& b) { return a.n == b.n; }
namespace configor
{
template <> struct value_binder<ND>
{
    static void to_value(V& c, const ND& x) { c = x.n; }
    static ND   from_value(const V& c) { return ND(c.get<int>()); }
};
}
template <> struct Nat<ND>
{
    static ND   rd(In& in) { return ND(::rd<int>(in)); }
    static void wr(Out& o, const ND& x) { ::wr<int>(o, x.n); }
};
template <typename T> void wr_fields(Out& o, const T& f) { ::wr<T>(o, f); }
template <typename T, typename... R> void wr_fields(Out& o, const T& f, const R&... r) { ::wr<T>(o, f); o.raw(","); wr_fields(o, r...); }
inline void rd_fields(In&) {}
template <typename T, typename... R> void rd_fields(In& in, T& f, R&... r) { f = ::rd<T>(in); rd_fields(in, r...); }
#define RECNAT(R, ...)                                                                     \
    template <> struct Nat<R>                                                              \
    {                                                                                      \
        template <typename X> static X& self(X& x) { return x; }                           \
        static R    rd(In& in) { in.word(); in.num(); R x; get(in, x); return x; }         \
        static void wr(Out& o, const R& x) { o.raw("[\"r\",["); put(o, x); o.raw("]]"); }  \
        static void get(In& in, R& x) { auto& v = x; (void)v; rd_fields(in, __VA_ARGS__); } \
        static void put(Out& o, const R& x) { auto& v = x; (void)v; wr_fields(o, __VA_ARGS__); } \
    };
#include "records.inc"

template <typename T> T implicit(const V& c, std::true_type) { T t = c; return t; }
template <typename T> T implicit(const V& c, std::false_type) { return c.get<T>(); }

