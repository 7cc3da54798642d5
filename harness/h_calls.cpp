// programs of calls run by several threads over shared values (only read) and a private value each
//   <mode> <rounds> <S> shared..  <T> { init n call.. }*T  <n> picks..
//   mode: f threads run freely, b one at a time, switching at every allocation, source and sink character as picks say,
//         c likewise at source and sink characters only, n nested: picks name the thread whose call goes on; a new one runs inside the current one
//   call: <k|-1: allocation that fails>
//         st a b c d                  operation on the store, from random numbers
//         rd x y                  every way of reading the container x designates, at the key or index y designates
//         pa <unit> <form> n cps..    parse into the private value; s c i string forms, y source handing out character by character, h with a counting handler, x the source throws after the text
//         du <unit> <form> x st ch es dump what x designates; r s o <, y sink taking character by character
//         en bits                 what surrounds the calls changes (sequential programs only)
//         cm x y   it x   ge T x      comparisons, iteration, conversion to a native and back into the private value
//   -> {"t":[[init,[[call,result,private value]..]]..],"shared":[..]}   every distinct transcript of every thread
#define COUNT_ALLOC
static void yield_alloc();
#define ALLOC_HOOK() yield_alloc()
#define ROOTS_TLS
#include "common.hpp"
#include "variants.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <iostream>
#include <locale>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <stdexcept>
#include <thread>
#include "store_ops.hpp"
#include "natives.hpp"
using J = JSON;
template <typename C> using Tr = std::char_traits<C>;

// ---- the scheduler
static thread_local int  me     = -1;
static thread_local bool yields = false;  // inside a library call
struct Sched
{
    std::mutex               m;
    std::condition_variable  cv;
    char                     mode = 'f';
    std::vector<long long>   picks;
    size_t                   next = 0;
    std::vector<int>         alive;
    int                      turn = 0;
    long                     beat = 0;
    void choose()  // with m held
    {
        ++beat;
        if (alive.empty()) return;
        long long p = next < picks.size() ? picks[next] : static_cast<long long>(next);
        ++next;
        for (int a : alive) if (a == p) { turn = a; return; }
        turn = alive[static_cast<size_t>(p) % alive.size()];
    }
    void wait(std::unique_lock<std::mutex>& l)
    {
        while (turn != me)
        {
            long b = beat;
            // somebody may be blocked by a lock of the library that we hold: go on
            if (cv.wait_for(l, std::chrono::milliseconds(300)) == std::cv_status::timeout && b == beat) { ++beat; turn = me; }
        }
    }
    void yield()
    {
        std::unique_lock<std::mutex> l(m);
        choose();
        if (turn == me) return;
        cv.notify_all();
        wait(l);
    }
    void start()
    {
        std::unique_lock<std::mutex> l(m);
        wait(l);
    }
    void stop()
    {
        std::unique_lock<std::mutex> l(m);
        for (size_t i = 0; i < alive.size(); ++i) if (alive[i] == me) alive.erase(alive.begin() + static_cast<long>(i));
        choose();
        cv.notify_all();
    }
};
static Sched* sched = nullptr;
static void   nested();
static void   yield_char()
{
    if (!yields || !sched || sched->mode == 'f') return;
    yields = false;
    if (sched->mode == 'n') nested();
    else sched->yield();
    yields = true;
}
static void yield_alloc()
{
    if (!yields || !sched || sched->mode != 'b') return;
    yields = false;
    sched->yield();
    yields = true;
}

// ---- sources and sinks, character by character
template <typename C> struct Slow : std::basic_streambuf<C>
{
    std::basic_string<C> s;
    size_t               n = 0;
    bool                 ended = false, throws;
    Slow(std::basic_string<C> t, bool throws) : s(std::move(t)), throws(throws) {}
    typename Tr<C>::int_type underflow() override
    {
        if (!ended) yield_char();
        if (n == s.size()) { ended = true; if (throws) throw std::runtime_error("source"); return Tr<C>::eof(); }
        this->setg(&s[n], &s[n], &s[n] + 1);
        ++n;
        return Tr<C>::to_int_type(s[n - 1]);
    }
};
template <typename C> struct SlowSink : std::basic_streambuf<C>
{
    std::basic_string<C> s;
    typename Tr<C>::int_type overflow(typename Tr<C>::int_type c) override
    {
        yield_char();
        s.push_back(Tr<C>::to_char_type(c));
        return Tr<C>::not_eof(c);
    }
};
struct Counter : cf::error_handler
{
    int n = 0;
    void handle(std::exception_ptr) override { ++n; }
};

// ---- what surrounds the calls
template <typename C> struct OddPunct : std::numpunct<C>
{
    C                    do_decimal_point() const override { return C(','); }
    C                    do_thousands_sep() const override { return C('.'); }
    std::string          do_grouping() const override { return std::string(1, char(1)) + char(2); }
    std::basic_string<C> do_truename() const override { return std::basic_string<C>(3, C('y')); }
    std::basic_string<C> do_falsename() const override { return std::basic_string<C>(2, C('n')); }
};
// digits, brackets and quotes are spaces, letters punctuation, spaces letters
static const std::ctype_base::mask* odd_table()
{
    static std::ctype_base::mask t[std::ctype<char>::table_size];
    for (size_t i = 0; i < std::ctype<char>::table_size; ++i)
    {
        auto c = std::ctype<char>::classic_table()[i];
        if (c & (std::ctype_base::digit | std::ctype_base::punct)) t[i] = std::ctype_base::space;
        else if (c & std::ctype_base::space) t[i] = std::ctype_base::alpha;
        else t[i] = std::ctype_base::punct;
    }
    return t;
}
struct OddCtype : std::ctype<char>
{
    OddCtype() : std::ctype<char>(odd_table()) {}
    char        do_toupper(char c) const override { return c == 'i' ? '?' : c; }
    char        do_tolower(char c) const override { return c == 'I' ? '?' : c; }
};
struct OddWide : std::ctype<wchar_t>
{
    bool    do_is(mask m, wchar_t c) const override { return (m & space) ? (c >= L'0' && c <= L'9') : c == L' '; }
    wchar_t do_toupper(wchar_t c) const override { return c == L'i' ? L'?' : c; }
    wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? L'?' : c; }
};
static long long env = 0;
static void surround(long long x)
{
    env = x;
    auto l = std::locale::classic();
    if (x & 1) { l = std::locale(l, new OddPunct<char>()); l = std::locale(l, new OddPunct<wchar_t>()); }
    if (x & 2) { l = std::locale(l, new OddCtype()); l = std::locale(l, new OddWide()); }
    std::locale::global(l);
    std::setlocale(LC_ALL, (x & 4) ? "C.UTF-8" : "C");
    errno = (x & 8) ? ERANGE : 0;
    std::feclearexcept(FE_ALL_EXCEPT);
    if (x & 16) std::feraiseexcept(FE_ALL_EXCEPT);
    std::cout.copyfmt(std::ios(nullptr));
    std::cin.copyfmt(std::ios(nullptr));
    if (x & 32)
    {
        std::cout << std::hex << std::showbase << std::uppercase << std::boolalpha << std::showpos << std::scientific;
        std::cout.precision(2);
        std::cin >> std::hex >> std::noskipws;
    }
}
// streams the caller hands over: what is no formatting that dump is to honour (width, fill, precision, notation)
template <typename S> void furnish(S& s)
{
    if (env & 64)
    {
        s.setf(std::ios::hex, std::ios::basefield);
        s.setf(std::ios::boolalpha | std::ios::showbase | std::ios::showpos | std::ios::uppercase | std::ios::showpoint | std::ios::unitbuf);
    }
    if (env & 128) s.unsetf(std::ios::skipws);
    if (env & 256) s.exceptions(std::ios::badbit);
}

// ---- calls
static size_t nshared;
static const V& cat(const Loc& l) { return at(l); }
static Loc any(In& in) { auto x = static_cast<unsigned long long>(in.num()); return resolve(x % 64, x / 64); }
static V&  own() { return *roots.back(); }

struct Lib  // a library call goes on
{
    bool faulty;
    explicit Lib(long k) : faulty(k >= 0)
    {
        if (faulty) { auto& s = AS(); s.count = 0; s.failed = false; s.fail = k; }
        yields = true;
    }
    ~Lib() { yields = false; AS().fail = -1; }
};

template <typename C>
void parse(In& in, Out& o, long k)
{
    char       form = in.word()[0];
    auto       cps  = in.nums();
    // one text after the other in the same place, unless calls are nested
    static thread_local std::basic_string<C> place;
    const auto  here = enc<C>(cps);
    const bool  same = !sched || sched->mode != 'n';
    if (same) place = here;
    const auto& s = same ? place : here;
    const char* x = nullptr;
    Counter    eh;
    {
        V v;
        try
        {
            if (form == 'y' || form == 'x')
            {
                Slow<C>               b(s, form == 'x');
                std::basic_istream<C> is(&b);
                if (form == 'y') furnish(is);
                Lib                   lib(k);
                v = J::parse<C>(is);
            }
            else
            {
                Lib lib(k);
                if (form == 's') v = J::parse<C>(s);
                else if (form == 'c') v = J::parse<C>(s.c_str());
                else if (form == 'i') { std::basic_istringstream<C> is(s); furnish(is); v = J::parse<C>(is); }
                else if (form == 'h') J::parse<C>(v, s, { J::parser_type<C>::with_error_handler(&eh) });
                else exit(3);
            }
        }
        catch (...) { x = exc_class(); }
        if (!x && eh.n) x = eh.n == 1 ? "handled" : "again";
        if (!x) own() = std::move(v);
    }
    o.str(std::string(1, form)).raw(",").nums(cps).raw("],");
    if (x) o.raw("[\"x\",").str(x).raw("]"); else o.raw("[\"ok\"]");
}
template <typename C>
void dump(In& in, Out& o, long k)
{
    using SZ = typename J::template serializer_type<C>;
    char form = in.word()[0];
    Loc  l    = any(in);
    auto st = static_cast<uint8_t>(in.num());
    auto ch = in.num(), es = in.num();
    const V& v = cat(l);
    std::basic_string<C> s;
    const char* x = nullptr;
    try
    {
        auto ind = SZ::with_indent(st, static_cast<C>(ch));
        auto esc = SZ::with_unicode_escaping(es != 0);
        if (form == 'y')
        {
            SlowSink<C>           b;
            std::basic_ostream<C> os(&b);
            furnish(os);
            { Lib lib(k); J::template dump<C>(os, v, { ind, esc }); }
            s = b.s;
        }
        else if (form == 'o' || form == '<')
        {
            std::basic_ostringstream<C> os;
            furnish(os);
            { Lib lib(k); if (form == 'o') J::template dump<C>(os, v, { ind, esc }); else os << J::wrap(v); }
            if (!os) x = "stream";
            s = os.str();
        }
        else
        {
            Lib lib(k);
            if (form == 'r') s = J::template dump<C>(v, { ind, esc });
            else if (form == 's') J::template dump<C>(s, v, { ind, esc });
            else exit(3);
        }
    }
    catch (...) { x = exc_class(); }
    o.str(std::string(1, form)).raw(",");
    put_loc(o, l);
    o.raw(",").num(st).raw(",").num(ch).raw(",").num(es).raw("],");
    if (x) o.raw("[\"x\",").str(x).raw("]"); else o.raw("[\"t\",").nums(dec(s)).raw("]");
}
template <typename T> const char* turn_native(const Loc& l, long k)
{
    try
    {
        const V& v = cat(l);
        V        w;
        {
            Lib lib(k);
            T   t = v.template get<T>();
            w     = t;
        }
        own() = std::move(w);
        return nullptr;
    }
    catch (...) { return exc_class(); }
}
static const char* native(const std::string& t, const Loc& l, long k)
{
#define TYPE(i, ...) if (t == i) return turn_native<__VA_ARGS__>(l, k);
#include "types.inc"
    exit(3);
}
static void put_children(Out& o, const std::vector<std::pair<std::vector<long long>, const V*>>& c)
{
    o.raw("[");
    for (size_t i = 0; i < c.size(); ++i) { if (i) o.raw(","); o.raw("[").nums(c[i].first).raw(","); show(o, *c[i].second); o.raw("]"); }
    o.raw("]");
}
// of a few operations drawn, one that suits the type of the value
static bool fitting_op(In& in, Op& op)
{
    static const char* arrays[] = { "ci", "ai", "ix", "ei", "pb", "pm", "eb", "pv" };
    static const char* objects[] = { "ck", "ak", "cC", "aC", "ik", "iC", "ek", "fd", "fc", "ct" };
    long long x[4];
    for (auto& y : x) y = in.num();
    for (int n = 0;; ++n)
    {
        In d("");
        d.t = { std::to_string(x[0]), std::to_string(x[1]), std::to_string(x[2]), std::to_string(x[3]) };
        op = Op();
        bool ok = random_op(d, op), fits = ok;
        if (ok)
        {
            auto& v = cat(op.l);
            for (auto a : arrays) if (op.n == a) fits = v.is_array() || v.is_null();
            for (auto a : objects) if (op.n == a) fits = v.is_object();
        }
        if (fits || n == 5) return ok;
        x[0] += 1 + n; x[1] = x[1] * 7 + 3; x[2] = x[2] / 3 + 5;
    }
}
static void call(In& in, Out& o)
{
    long        k = static_cast<long>(in.num());
    std::string n = in.word();
    o.raw("[[").num(k >= 0).raw(",").str(n).raw(",");
    if (n == "st")
    {
        static const char* reading[] = { "ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fc" };
        Op  op;
        Res r;
        bool ok;
        {
            size_t j = in.i;
            ok = fitting_op(in, op);
            auto writes_arg = [&] { return op.n == "mv" || op.n == "sw" || op.n == "mc" || op.n == "pm"; };
            // only the private value is written or used otherwise than as const
            if (ok && op.l.r < nshared)
            {
                bool rd = false;
                for (auto x : reading) if (op.n == x) rd = true;
                ok = rd;
            }
            if (ok && writes_arg() && op.a.r < nshared) ok = false;
            in.i = j + 4;
        }
        if (!ok) { op.n = "sz"; op.l.r = roots.size() - 1; op.l.p.clear(); }
        put_op(o, op);
        o.raw("],");
        {
            Lib lib(-1);
            run(op, r);
        }
        r.put(o);
    }
    else if (n == "rd")
    {
        static const char* ways[] = { "ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fc" };
        Loc l = any(in);
        auto y = static_cast<size_t>(in.num());
        if (!cat(l).is_array() && !cat(l).is_object() && !l.p.empty() && y % 8) l.p.pop_back();
        const V&  v = cat(l);
        Op        ops[sizeof ways / sizeof *ways];
        Res       r[sizeof ways / sizeof *ways];
        long long flags[6];
        bool      hit = v.is_object() && v.size() && y % 4;
        for (size_t i = 0; i < sizeof ways / sizeof *ways; ++i)
        {
            Op& op = ops[i];
            op.n   = ways[i];
            op.l   = l;
            op.i   = static_cast<long long>(y % (v.size() + 2));
            if (hit)
            {
                auto it = v.data().object->begin();
                std::advance(it, static_cast<long>(y / 4 % v.size()));
                op.key = cps_of(it->first);
                op.k   = it->first;
            }
            if (hit && op.n[1] == 'C')  // a C string ends at a zero
            {
                op.key.resize(static_cast<size_t>(std::find(op.key.begin(), op.key.end(), 0) - op.key.begin()));
                op.k = mkkey(op.key);
            }
            if (!hit) { op.key = { 122, static_cast<long long>(97 + y % 3) }; op.k = mkkey(op.key); }
        }
        o.raw("[");
        for (size_t i = 0; i < sizeof ways / sizeof *ways; ++i) { if (i) o.raw(","); put_op(o, ops[i]); }
        o.raw("]],[\"m\",[");
        {
            Lib lib(-1);
            for (size_t i = 0; i < sizeof ways / sizeof *ways; ++i) run(ops[i], r[i]);
            flags[0] = v.template get_ptr<const bool*>() != nullptr;
            flags[1] = v.template get_ptr<const V::integer_type*>() != nullptr;
            flags[2] = v.template get_ptr<const V::float_type*>() != nullptr;
            flags[3] = v.template get_ptr<const V::string_type*>() != nullptr;
            flags[4] = v.template get_ptr<const V::array_type*>() != nullptr;
            flags[5] = v.template get_ptr<const V::object_type*>() != nullptr;
        }
        for (size_t i = 0; i < sizeof ways / sizeof *ways; ++i) { if (i) o.raw(","); r[i].put(o); }
        o.raw("],[");
        for (int i = 0; i < 6; ++i) { if (i) o.raw(","); o.num(flags[i]); }
        o.raw("]]");
    }
    else if (n == "pa" || n == "du")
    {
        auto unit = in.word();
        o.str(unit).raw(",");
        if (n == "pa") { if (unit == "1") parse<char>(in, o, k); else parse<wchar_t>(in, o, k); }
        else { if (unit == "1") dump<char>(in, o, k); else dump<wchar_t>(in, o, k); }
    }
    else if (n == "cm")
    {
        Loc      a = any(in), b = any(in);
        const V &x = cat(a), &y = cat(b);
        int      r[6];
        {
            Lib lib(-1);
            r[0] = x == y; r[1] = x != y; r[2] = x < y; r[3] = x <= y; r[4] = x > y; r[5] = x >= y;
        }
        put_loc(o, a);
        o.raw(",");
        put_loc(o, b);
        o.raw("],[\"c\",[");
        for (int i = 0; i < 6; ++i) { if (i) o.raw(","); o.num(r[i]); }
        o.raw("]]");
    }
    else if (n == "it")
    {
        Loc      l = any(in);
        const V& v = cat(l);
        std::vector<std::pair<std::vector<long long>, const V*>> f, b;
        f.reserve(64); b.reserve(64);
        for (auto i = v.begin(); i != v.end();) { f.emplace_back(v.is_object() ? cps_of(i.key()) : std::vector<long long>(), &*i); Lib lib(-1); ++i; }
        for (auto i = v.rbegin(); i != v.rend();) { b.emplace_back(v.is_object() ? cps_of(i.key()) : std::vector<long long>(), &*i); Lib lib(-1); ++i; }
        put_loc(o, l);
        o.raw("],[\"i\",");
        put_children(o, f);
        o.raw(",");
        put_children(o, b);
        o.raw("]");
    }
    else if (n == "en")
    {
        auto x = in.num();
        surround(x);
        o.num(x).raw("],[\"ok\"]");
    }
    else if (n == "ge")
    {
        auto t = in.word();
        Loc  l = any(in);
        o.str(t).raw(",");
        put_loc(o, l);
        auto x = native(t, l, k);
        o.raw("],");
        if (x) o.raw("[\"x\",").str(x).raw("]"); else o.raw("[\"ok\"]");
    }
    else exit(3);
    o.raw(",");
    show(o, own());
    o.raw("]");
}

// ---- programs
struct Prog
{
    In                       in{ "" };
    size_t                   from = 0;
    V                        init;
    long long                n = 0;
    std::vector<std::string> seen;
    bool                     started = false, done = false;
};
static std::vector<V*>   shared;
static std::vector<Prog> progs;

static void skip(In& in)
{
    in.num();
    auto n = in.word();
    if (n == "st") in.i += 4;
    else if (n == "rd") in.i += 2;
    else if (n == "pa") { in.i += 2; in.nums(); }
    else if (n == "du") in.i += 6;
    else if (n == "it" || n == "en") in.i += 1;
    else in.i += 2;
}
static void run_prog(Prog& p)
{
    Out o;
    p.in.i = p.from;
    roots  = shared;
    roots.push_back(new V(p.init));  // operations may put another in its place
    o.raw("[");
    show(o, p.init);
    o.raw(",[");
    for (long long i = 0; i < p.n; ++i) { if (i) o.raw(","); call(p.in, o); }
    o.raw("]]");
    delete roots.back();
    roots.clear();
    for (auto& s : p.seen) if (s == o.s) return;
    p.seen.push_back(o.s);
}
static std::vector<int> stack;
static void             nested()
{
    // while the picks name calls that have not begun, they run here
    while (sched->next < sched->picks.size())
    {
        int p = static_cast<int>(sched->picks[sched->next]);
        ++sched->next;
        if (p == stack.back() || progs[size_t(p)].started) return;
        auto keep = roots;
        stack.push_back(p);
        progs[size_t(p)].started = true;
        run_prog(progs[size_t(p)]);
        stack.pop_back();
        roots = keep;
    }
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In    in(line);
        char  mode   = in.word()[0];
        auto  rounds = in.num();
        Sched s;
        nshared = static_cast<size_t>(in.num());
        for (size_t i = 0; i < nshared; ++i) shared.push_back(new V(build<V>(in)));
        auto T = static_cast<size_t>(in.num());
        progs.resize(T);
        for (size_t t = 0; t < T; ++t)
        {
            Prog& p = progs[t];
            p.init  = build<V>(in);
            p.n     = in.num();
            p.from  = in.i;
            for (long long i = 0; i < p.n; ++i) skip(in);
            p.in = in;
        }
        s.picks = in.nums();
        s.mode  = mode;
        sched   = &s;
        if (mode == 'n')
        {
            for (size_t t = 0; t < T; ++t)
            {
                size_t q = s.next < s.picks.size() ? static_cast<size_t>(s.picks[s.next++]) : t;
                if (progs[q].started) q = t;
                if (progs[q].started) continue;
                stack.push_back(static_cast<int>(q));
                progs[q].started = true;
                run_prog(progs[q]);
                stack.pop_back();
            }
            for (size_t t = 0; t < T; ++t) if (!progs[t].started) { progs[t].started = true; stack.push_back(static_cast<int>(t)); run_prog(progs[t]); stack.pop_back(); }
        }
        else
        {
            if (mode == 'b')
            {
                sched = nullptr;  // statics come into being without the scheduler
                for (auto& p : progs) run_prog(p);
                sched = &s;
            }
            if (mode != 'f')
            {
                for (size_t t = 0; t < T; ++t) s.alive.push_back(static_cast<int>(t));
                s.choose();
            }
            std::atomic<int>         go(static_cast<int>(T));
            std::vector<std::thread> ths;
            for (size_t t = 0; t < T; ++t)
                ths.emplace_back([&, t] {
                    me = static_cast<int>(t);
                    if (mode == 'f')
                    {
                        go.fetch_sub(1, std::memory_order_relaxed);
                        while (go.load(std::memory_order_relaxed) > 0) std::this_thread::yield();
                    }
                    else s.start();
                    for (long long r = 0; r < rounds; ++r) run_prog(progs[t]);
                    roots.clear();
                    if (mode != 'f') s.stop();
                });
            for (auto& t : ths) t.join();
        }
        sched = nullptr;
        if (env) surround(0);
        Out o;
        o.raw("{\"t\":[");
        bool first = true;
        for (auto& p : progs) for (auto& x : p.seen) { if (!first) o.raw(","); first = false; o.raw(x); }
        o.raw("],\"shared\":[");
        for (size_t i = 0; i < nshared; ++i) { if (i) o.raw(","); show(o, *shared[i]); }
        o.raw("]}").flush();
        roots.clear();
        progs.clear();
        for (auto x : shared) delete x;
        shared.clear();
    }
}
