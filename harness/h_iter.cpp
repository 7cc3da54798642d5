// iterator operations
//   S <c> <dir> nv V1..Vn nr (vi pos)*  m op..     explicit;  c: c const m mutable; dir: f r; op: name reg args
//   H <c> <dir> nv V1..Vn nr  m (a b c)*           operations from random numbers, those that are not defined are skipped
#include "common.hpp"
#include <configor/configor.hpp>
#include "variants.hpp"
using V = VALUE;
using C = V::char_type;
using K = V::object_type::key_type;

static K mkkey(const std::vector<long long>& k) { auto e = enc<C>(k); return K(e.begin(), e.end()); }
static std::vector<V> vals;

template <bool Const, bool Rev>
struct M
{
    using VV = typename std::conditional<Const, const V, V>::type;
    using F  = typename std::conditional<Const, V::const_iterator, V::iterator>::type;
    using R  = typename std::conditional<Const, V::const_reverse_iterator, V::reverse_iterator>::type;
    using I  = typename std::conditional<Rev, R, F>::type;
    struct Reg { long vi; I it; };
    std::vector<Reg> regs;

    static F bg(VV& v, std::false_type) { return v.begin(); }
    static R bg(VV& v, std::true_type) { return v.rbegin(); }
    static F en(VV& v, std::false_type) { return v.end(); }
    static R en(VV& v, std::true_type) { return v.rend(); }
    using T = std::integral_constant<bool, Rev>;
    static I begin(long vi) { VV& v = vals[size_t(vi) - 1]; return bg(v, T{}); }
    static I end(long vi) { VV& v = vals[size_t(vi) - 1]; return en(v, T{}); }
    static F none(std::false_type) { return F(nullptr); }
    static R none(std::true_type) { return R(F(nullptr)); }

    long pos(const Reg& r)
    {
        if (r.vi == 0) return 0;
        I    i = begin(r.vi);
        long n = long(vals[size_t(r.vi) - 1].size());
        for (long k = 0; k <= n; ++k)
        {
            if (i == r.it) return k;
            if (k < n) ++i;
        }
        return -7;
    }
    void put(Out& o, char dir)
    {
        o.raw("[[");
        for (size_t i = 0; i < vals.size(); ++i) { if (i) o.raw(","); show(o, vals[i]); }
        o.raw("],[");
        for (size_t i = 0; i < regs.size(); ++i) { if (i) o.raw(","); o.raw("[").num(regs[i].vi).raw(",").num(pos(regs[i])).raw("]"); }
        o.raw(dir == 'f' ? "],\"f\"]" : "],\"r\"]");
    }

    // a walk, in many ways that must agree
    template <typename It>
    static std::string way(It b, It e, bool obj, int kind)
    {
        Out  o;
        bool first = true;
        o.raw("[");
        while (kind == 2 ? !(b == e) : b != e)
        {
            if (!first) o.raw(",");
            first = false;
            o.raw("[");
            if (obj) o.nums(cps_of(b.key())); else o.raw("[]");
            o.raw(",");
            if (kind == 0) { show(o, *b); ++b; }
            else if (kind == 1) { show(o, b.value()); b++; }
            else { show(o, *b.operator->()); It c = b; ++c; b = c; }
            o.raw("]");
        }
        o.raw("]");
        return o.s;
    }
    static std::string range_for(VV& v, bool obj)
    {
        Out  o;
        bool first = true;
        auto k = v.begin();
        o.raw("[");
        for (auto& x : v)
        {
            if (!first) o.raw(",");
            first = false;
            o.raw("[");
            if (obj) o.nums(cps_of(k.key())); else o.raw("[]");
            ++k;
            o.raw(",");
            show(o, x);
            o.raw("]");
        }
        o.raw("]");
        return o.s;
    }
    static std::string backwards(VV& v, bool obj)   // with -- from the end
    {
        Out o;
        bool first = true;
        o.raw("[");
        auto b = v.begin();
        auto e = v.end();
        while (e != b)
        {
            --e;
            if (!first) o.raw(",");
            first = false;
            o.raw("[");
            if (obj) o.nums(cps_of(e.key())); else o.raw("[]");
            o.raw(",");
            show(o, *e);
            o.raw("]");
        }
        o.raw("]");
        return o.s;
    }
    void walk(Out& o, long vi)
    {
        VV&      v = vals[size_t(vi) - 1];
        const V& c = v;
        bool     obj = c.is_object();
        std::vector<std::string> w;
        for (int k = 0; k < 3; ++k)
        {
            w.push_back(way(begin(vi), end(vi), obj, k));
            if (Rev) { w.push_back(way(c.crbegin(), c.crend(), obj, k)); w.push_back(way(c.rbegin(), c.rend(), obj, k)); }
            else { w.push_back(way(c.cbegin(), c.cend(), obj, k)); w.push_back(way(c.begin(), c.end(), obj, k)); }
        }
        if (!Rev) w.push_back(range_for(v, obj));
        if (Rev) w.push_back(backwards(v, obj));
        for (auto& x : w) if (x != w[0]) { o.raw("[\"w\",[\"differ\",").raw(w[0]).raw(",").raw(x).raw("]]"); return; }
        if (std::distance(begin(vi), end(vi)) != long(c.size())) { o.raw("[\"w\",[\"distance\"]]"); return; }
        o.raw("[\"w\",").raw(w[0]).raw("]");
    }

    static void base(Out&, Reg&, long, std::false_type) { exit(3); }
    static void base(Out& o, Reg& r, long vi, std::true_type)
    {
        VV& v = vals[size_t(vi) - 1];
        auto b = r.it.base();
        auto i = v.begin();
        long k = 0, n = long(v.size());
        while (k < n && !(i == b)) { ++i; ++k; }
        num(o, i == b ? k : -7);
    }
    static void num(Out& o, long n) { o.raw("[\"n\",").num(n).raw("]"); }
    static void val(Out& o, const V& v) { o.raw("[\"v\","); show(o, v); o.raw("]"); }
    static V::const_iterator conv(const F& i, std::false_type) { V::const_iterator c = i; V::const_iterator d(nullptr); d = i; if (i == i && !(c == d)) exit(5); return d; }
    static R conv(const R& i, std::true_type) { R c(i); return c; }
    template <typename X> static void write(X&& x, V&& v, std::false_type) { x = std::move(v); }
    template <typename X> static void write(X&&, V&&, std::true_type) { exit(3); }
    static void erase(VV& v, Reg& a, Reg* b, std::true_type)
    {
        if (&a != &b[0] && b && b->vi == a.vi && (b->it == v.end()))   // through const iterators
        {
            V::const_iterator f = a.it, l = b->it, c = v.erase(f, l);
            a.it = v.begin();
            while (!(V::const_iterator(a.it) == c)) ++a.it;
            return;
        }
        if (!b && v.size() % 2)
        {
            V::const_iterator f = a.it, c = v.erase(f);
            a.it = v.begin();
            while (!(V::const_iterator(a.it) == c)) ++a.it;
            return;
        } if (b) a.it = v.erase(a.it, b->it); else a.it = v.erase(a.it); }
    static void erase(VV&, Reg&, Reg*, std::false_type) { exit(3); }

    struct Op { std::string n; long r, a; std::vector<long long> key; };
    void run(const Op& op, Out& o)
    {
        const std::string& n = op.n;
        Reg&   x = regs[size_t(op.r) - 1];
        size_t mark = o.s.size();
        const char* ok = "[\"ok\"]";
        try
        {
            if (n == "bg") { x = Reg{ op.a, begin(op.a) }; o.raw(ok); }
            else if (n == "en") { x = Reg{ op.a, end(op.a) }; o.raw(ok); }
            else if (n == "mt") { x = Reg{ 0, none(T{}) }; o.raw(ok); }
            else if (n == "as") { x = regs[size_t(op.a) - 1]; o.raw(ok); }
            else if (n == "fd") { find(x, op); o.raw(ok); }
            else if (n == "wk") walk(o, op.a);
            else if (n == "eq") num(o, x.it == regs[size_t(op.a) - 1].it);
            else if (n == "ne") num(o, x.it != regs[size_t(op.a) - 1].it);
            else if (n == "lt") num(o, x.it < regs[size_t(op.a) - 1].it);
            else if (n == "le") num(o, x.it <= regs[size_t(op.a) - 1].it);
            else if (n == "gt") num(o, x.it > regs[size_t(op.a) - 1].it);
            else if (n == "ge") num(o, x.it >= regs[size_t(op.a) - 1].it);
            else if (n == "df") num(o, x.it - regs[size_t(op.a) - 1].it);
            else if (n == "dr") val(o, *x.it);
            else if (n == "va") val(o, x.it.value());
            else if (n == "ar") val(o, *x.it.operator->());
            else if (n == "ky") { auto& k = x.it.key(); o.raw("[\"k\",").nums(cps_of(k)).raw("]"); }
            else if (n == "bs") base(o, x, x.vi, T{});
            else if (n == "cv") { auto c = conv(x.it, T{}); val(o, *c); }
            else if (n == "pi") { auto& y = ++x.it; if (static_cast<void*>(&y) != static_cast<void*>(&x.it)) exit(5); o.raw(ok); }
            else if (n == "pd") { --x.it; o.raw(ok); }
            else if (n == "qi") { auto y = x.it++; post(o, y); }
            else if (n == "qd") { auto y = x.it--; post(o, y); }
            else if (n == "ad") { x.it += op.a; o.raw(ok); }
            else if (n == "sb") { x.it -= op.a; o.raw(ok); }
            else if (n == "pl") val(o, *(x.it + op.a));
            else if (n == "mi") val(o, *(x.it - op.a));
            else if (n == "wr") { write(*x.it, V(9), std::integral_constant<bool, Const>{}); o.raw(ok); }
            else if (n == "er" || n == "ee")
            {
                VV& v = vals[size_t(x.vi) - 1];
                erase(v, x, n == "ee" ? &regs[size_t(op.a) - 1] : nullptr, std::integral_constant<bool, !Const && !Rev>{});
                for (auto& y : regs) if (&y != &x && y.vi == x.vi) y.it = end(x.vi);
                o.raw(ok);
            }
            else { fprintf(stderr, "harness: op %s\n", n.c_str()); exit(3); }
        }
        catch (...) { o.s.resize(mark); o.raw("[\"x\",").str(exc_class()).raw("]"); }
    }
    template <typename It> void post(Out& o, It& y)   // reading the old position may throw; the move has happened
    {
        try { val(o, *y); } catch (...) { o.raw("[\"x\",").str(exc_class()).raw("]"); }
    }
    void find(Reg& x, const Op& op) { find(x, op, T{}); }
    void find(Reg& x, const Op& op, std::false_type) { VV& v = vals[size_t(op.a) - 1]; x = Reg{ op.a, v.find(mkkey(op.key)) }; }
    void find(Reg&, const Op&, std::true_type) { exit(3); }

    bool defined(const Op& op)
    {
        auto& n = op.n;
        Reg&  x = regs[size_t(op.r) - 1];
        long  p = pos(x), t = 0;
        bool  obj = x.vi && vals[size_t(x.vi) - 1].is_object(), arr = x.vi && vals[size_t(x.vi) - 1].is_array();
        long  sz = x.vi ? long(vals[size_t(x.vi) - 1].size()) : 0;
        bool  off = n == "ad" || n == "sb" || n == "pl" || n == "mi";
        bool  move = off || n == "pi" || n == "pd" || n == "qi" || n == "qd";
        t = n == "pi" || n == "qi" ? p + 1 : n == "pd" || n == "qd" ? p - 1 : n == "ad" || n == "pl" ? p + op.a : p - op.a;
        if (p < 0) return false;
        if (move && !(x.vi == 0 || (off && obj) || (t >= 0 && t <= sz))) return false;
        if (n == "er" && !(x.vi && (!(arr || obj) || p < sz))) return false;
        if (n == "ee" && !(x.vi && (!(arr || obj) || (regs[size_t(op.a) - 1].vi == x.vi && p <= pos(regs[size_t(op.a) - 1]))))) return false;
        if ((n == "wr" || n == "cv") && !x.vi) return false;
        if (Rev)
        {
            if (n == "er" || n == "ee" || n == "fd" || n == "mt") return false;
            if ((n == "dr" || n == "va" || n == "ar" || n == "ky" || n == "cv" || n == "wr" || n == "qi" || n == "qd") && p >= sz) return false;
            if ((n == "pl" || n == "mi") && !(obj || t < sz)) return false;
        }
        else if (n == "bs") return false;
        if (Const && (n == "wr" || n == "er" || n == "ee")) return false;
        return true;
    }

    void go(In& in, bool random, char dir)
    {
        Out o;
        auto k = in.num();
        for (; k > 0; --k)
        {
            if (random) { regs.push_back(Reg{ 1, begin(1) }); continue; }
            auto vi = in.num(), p = in.num();
            Reg  r{ long(vi), none(T{}) };
            if (vi) { r.it = begin(long(vi)); for (; p > 0; --p) ++r.it; }
            regs.push_back(r);
        }
        static const char* names[] = { "bg", "en", "mt", "as", "fd", "wk", "eq", "ne", "lt", "le", "gt", "ge", "df", "dr", "va", "ar", "ky", "bs", "cv", "pi", "pd", "qi", "qd", "ad", "sb", "pl", "mi", "wr", "er", "ee", "pi", "qi", "pd", "ad" };
        bool first = true;
        o.raw("{\"h\":[");
        auto m = in.num();
        for (; m > 0; --m)
        {
            Op op;
            op.n = random ? names[size_t(in.num()) % (sizeof names / sizeof *names)] : in.word();
            auto& n = op.n;
            op.r = long(in.num());
            auto rnd = random ? in.num() : 0;
            if (random) op.r = op.r % long(regs.size()) + 1;
            op.a = 0;
            bool reg2 = n == "as" || n == "eq" || n == "ne" || n == "lt" || n == "le" || n == "gt" || n == "ge" || n == "df" || n == "ee";
            bool value = n == "bg" || n == "en" || n == "fd" || n == "wk";
            bool off = n == "ad" || n == "sb" || n == "pl" || n == "mi";
            if (reg2) op.a = random ? rnd % long(regs.size()) + 1 : in.num();
            else if (value) op.a = random ? rnd % long(vals.size()) + 1 : in.num();
            else if (off) op.a = random ? rnd % 7 - 3 : in.num();
            if (n == "wk") op.r = 1;
            if (n == "fd") { if (random) op.key = rnd % 3 ? std::vector<long long>{ 97 + rnd % 4 } : std::vector<long long>{}; else op.key = in.nums(); }
            if (random && !defined(op)) continue;
            if (!first) o.raw(",");
            first = false;
            o.raw("[[").str(n).raw(",").num(op.r).raw(",");
            if (n == "fd") o.raw("[").num(op.a).raw(",").nums(op.key).raw("]");
            else if (n == "wr") o.raw("[\"i\",[1,9]]");
            else o.num(op.a);
            o.raw("],");
            run(op, o);
            o.raw(",");
            put(o, dir);
            o.raw("]");
        }
        o.raw("]}").flush();
    }
};

int main()
{
    std::string line;
    while (next_case(line))
    {
        In   in(line);
        bool random = in.word() == "H";
        bool cst = in.word() == "c";
        bool rev = in.word() == "r";
        vals.clear();
        auto n = in.num();
        vals.reserve(size_t(n));
        for (; n > 0; --n) vals.push_back(build<V>(in));
        if (cst && rev) M<true, true>().go(in, random, 'r');
        else if (cst) M<true, false>().go(in, random, 'f');
        else if (rev) M<false, true>().go(in, random, 'r');
        else M<false, false>().go(in, random, 'f');
    }
}
