// parses and dumps with failing allocations, sources and sinks
//   pa <unit> <form> n cps..          every allocation of a parse fails in turn
//       form: s string, c C string, i string stream, into a variable; S C I returned; > extraction through wrap
//       -> {"ok":result,"f":[[result,result of a repetition]..],"n":faults,"leak":..}
//   ps <unit> <form> n cps..          the source fails at every position
//       form: t/T stream buffer that throws for ever / once, m the same with the stream's exceptions on, a/A adapter that throws for ever / once, b adapter with block reads,
//             > / } extraction from a stream buffer that throws for ever / once
//       -> {"ok":result,"f":[[whole characters before the fault,result]..],"n":..}
//   da <unit> <form> step ch esc V    every allocation of a dump fails in turn
//       form: r returned, s into a string, o into a string stream, < insertion through wrap
//   dw <unit> <form> step ch esc V    the sink fails at every position
//       form: e/E stream buffer that refuses for ever / once, t/T throws, p partial block writes, m refuses, with the stream's exceptions on,
//             a/A adapter that throws for ever / once, < insertion through wrap
//       -> {"ok":..,"f":[[position,"ok" or class,characters received]..],"n":..}
#define COUNT_ALLOC
#include "common.hpp"
#include "variants.hpp"
#include <stdexcept>
using V = VALUE;
using J = JSON;
template <typename C> using T = std::char_traits<C>;

static void arm(long k) { auto& s = AS(); s.count = 0; s.failed = false; s.fail = k; }
static bool disarm() { AS().fail = -1; return AS().failed; }

// ---- sources and sinks
template <typename C>
struct Source : std::basic_streambuf<C>
{
    std::basic_string<C> s;
    size_t               k;
    bool                 once, failed = false;
    Source(std::basic_string<C> t, size_t k, bool once) : s(std::move(t)), k(k), once(once) { expose(0, std::min(k, s.size())); }
    void expose(size_t a, size_t b) { C* p = s.empty() ? nullptr : &s[0]; this->setg(p, p + a, p + b); }
    typename T<C>::int_type underflow() override
    {
        size_t p = static_cast<size_t>(this->gptr() - this->eback());
        if (p >= k && !(once && failed)) { failed = true; throw std::runtime_error("source"); }
        if (p >= s.size()) return T<C>::eof();
        expose(p, s.size());
        return T<C>::to_int_type(s[p]);
    }
};
template <typename C, bool BLOCK>
struct Feed : cf::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               i = 0, k;
    bool                 once, failed = false;
    Feed(std::basic_string<C> t, size_t k, bool once) : s(std::move(t)), k(k), once(once) {}
    C read() override
    {
        if (i >= k && !(once && failed)) { failed = true; throw std::runtime_error("adapter"); }
        return i < s.size() ? s[i++] : C(0);
    }
    void read(C* p, size_t n) override
    {
        if (!BLOCK) return cf::basic_iadapter<C>::read(p, n);
        for (; n; --n) *p++ = read();
    }
};
template <typename C>
struct Sink : std::basic_streambuf<C>
{
    std::basic_string<C> s;
    size_t               k;
    bool                 once, throws, partial, failed = false;
    Sink(size_t k, bool once, bool throws, bool partial) : k(k), once(once), throws(throws), partial(partial) {}
    bool refuse()
    {
        if (s.size() < k || (once && failed)) return false;
        failed = true;
        if (throws) throw std::runtime_error("sink");
        return true;
    }
    typename T<C>::int_type overflow(typename T<C>::int_type c) override
    {
        if (refuse()) return T<C>::eof();
        s.push_back(T<C>::to_char_type(c));
        return T<C>::not_eof(c);
    }
    std::streamsize xsputn(const C* p, std::streamsize n) override
    {
        if (!partial) return std::basic_streambuf<C>::xsputn(p, n);
        size_t m = std::min(static_cast<size_t>(n), s.size() < k || (once && failed) ? k - std::min(k, s.size()) : 0);
        if (once && failed) m = static_cast<size_t>(n);
        if (m < static_cast<size_t>(n)) failed = true;
        s.append(p, m);
        return static_cast<std::streamsize>(m);
    }
};
template <typename C>
struct Eat : cf::basic_oadapter<C>
{
    std::basic_string<C> s;
    size_t               k;
    bool                 once, failed = false;
    Eat(size_t k, bool once) : k(k), once(once) {}
    void write(const C ch) override
    {
        if (s.size() >= k && !(once && failed)) { failed = true; throw std::runtime_error("adapter"); }
        s.push_back(ch);
    }
    using cf::basic_oadapter<C>::write;
};

// ---- results, kept without allocating
struct Res
{
    const char* x = nullptr;  // class of the failure, or "stream": only the stream's state tells
    V           v;
    void put(Out& o) const
    {
        if (x) o.raw("[\"x\",").str(x).raw("]");
        else { o.raw("[\"v\","); show(o, v); o.raw("]"); }
    }
};
// the value that a failed parse left is used: copied, assigned, destroyed
static void use(V& v)
{
    V w = v;
    Out o;
    show(o, w);
    v.clear();
    v = w;
    V e;
    v.swap(e);
}

template <typename C>
void parse_with(char form, const std::basic_string<C>& s, Res& r)
{
    V v(7);
    try
    {
        r.x = nullptr;
        switch (form)
        {
        case 's': J::parse<C>(v, s); break;
        case 'c': J::parse<C>(v, s.c_str()); break;
        case 'i': { std::basic_istringstream<C> is(s); J::parse<C>(v, is); break; }
        case 'S': v = J::parse<C>(s); break;
        case 'C': v = J::parse<C>(s.c_str()); break;
        case 'I': { std::basic_istringstream<C> is(s); v = J::parse<C>(is); break; }
        case '>': { std::basic_istringstream<C> is(s); is >> J::wrap(v); if (is.fail()) r.x = "stream"; break; }
        default: exit(3);
        }
    }
    catch (...) { r.x = exc_class(); }
    AS().fail = -1;
    if (r.x) use(v);
    else r.v = std::move(v);
}

template <typename C>
void parse_allocs(char form, const std::vector<long long>& cps, Out& o)
{
    const auto  s = enc<C>(cps);
    std::string fs;
    Out         e;
    fs.reserve(1 << 18);
    e.s.reserve(1 << 16);
    std::vector<std::string> seen;
    seen.reserve(64);
    long n = 0, leak = 0;
    { Res r; parse_with(form, s, r); e.s.clear(); r.put(e); o.raw("\"ok\":").raw(e.s); }
    for (long k = 0;; ++k)
    {
        long live0 = AS().live;
        bool hit;
        e.s.clear();
        {
            Res r, again;
            arm(k);
            parse_with(form, s, r);
            hit = disarm();
            e.raw("[");
            r.put(e);
            e.raw(",");
            parse_with(form, s, again);
            again.put(e);
            e.raw("]");
        }
        leak += AS().live - live0;
        if (!hit) break;
        ++n;
        bool known = false;
        for (auto& x : seen) if (x == e.s) known = true;
        if (known) continue;
        seen.push_back(e.s);
        if (!fs.empty()) fs += ",";
        fs += e.s;
    }
    o.raw(",\"f\":[").raw(fs).raw("],\"n\":").num(n).raw(",\"leak\":").num(leak);
}

template <typename C>
void parse_faulty(char form, const std::basic_string<C>& s, size_t k, Res& r)
{
    V v(7);
    const bool once = form == 'T' || form == 'A' || form == '}';
    try
    {
        if (form == 'a' || form == 'A') { Feed<C, false> f(s, k, once); cf::basic_iadapterstream<C> is(f); J::parse<C>(v, is); }
        else if (form == 'b') { Feed<C, true> f(s, k, once); cf::basic_iadapterstream<C> is(f); J::parse<C>(v, is); }
        else
        {
            Source<C>             b(s, k, once);
            std::basic_istream<C> is(&b);
            if (form == 'm') is.exceptions(std::ios_base::badbit);
            if (form == '>' || form == '}') { is >> J::wrap(v); if (is.fail()) r.x = "stream"; }
            else J::parse<C>(v, is);
        }
    }
    catch (...) { r.x = exc_class(); }
    if (r.x) use(v);
    else r.v = std::move(v);
}
template <typename C>
void parse_sources(char form, const std::vector<long long>& cps, Out& o)
{
    std::basic_string<C> s;
    std::vector<size_t>  whole;  // whole characters before a unit
    for (size_t i = 0; i < cps.size(); ++i) { auto u = enc<C>({ cps[i] }); s += u; for (size_t j = 0; j < u.size(); ++j) whole.push_back(i); }
    whole.push_back(cps.size());
    { Res r; parse_faulty(form, s, s.size() + 100000, r); o.raw("\"ok\":"); r.put(o); }
    o.raw(",\"f\":[");
    for (size_t k = 0; k <= s.size(); ++k)
    {
        Res r;
        parse_faulty(form, s, k, r);
        if (k) o.raw(",");
        o.raw("[").num(static_cast<long long>(whole[k])).raw(",");
        r.put(o);
        o.raw("]");
    }
    o.raw("],\"n\":").num(static_cast<long long>(s.size() + 1)).raw(",\"leak\":0");
}

template <typename C>
struct Dump
{
    using S = typename J::template serializer_type<C>;
    uint8_t step;
    C       ch;
    bool    esc;
    V       v;
    explicit Dump(In& in) : step(static_cast<uint8_t>(in.num())), ch(static_cast<C>(in.num())), esc(in.num() != 0), v(build<V>(in)) {}
    template <typename D> void to(D& d) { J::template dump<C>(d, v, { S::with_indent(step, ch), S::with_unicode_escaping(esc) }); }

    // -> class of the failure or null
    const char* allocs(char form, std::basic_string<C>& out, long k)
    {
        const char* x = nullptr;
        {
            std::basic_string<C> s;
            std::basic_ostringstream<C> os;
            arm(k);
            try
            {
                if (form == 'r') s = J::template dump<C>(v, { S::with_indent(step, ch), S::with_unicode_escaping(esc) });
                else if (form == 's') to(s);
                else if (form == 'o') to(os);
                else { os << J::wrap(v); if (!os) x = "stream"; }
            }
            catch (...) { x = exc_class(); }
            disarm();
            out = form == 'o' || form == '<' ? os.str() : s;
        }
        return x;
    }
    void every_alloc(char form, Out& o)
    {
        std::string fs;
        Out         e;
        fs.reserve(1 << 18);
        e.s.reserve(1 << 16);
        std::vector<std::string> seen;
        seen.reserve(64);
        long n = 0, leak = 0;
        auto one = [&](const char* x, const std::basic_string<C>& s) { if (x) e.raw("[\"x\",").str(x).raw("]"); else e.raw("[\"t\",").nums(dec(s)).raw("]"); };
        e.s.clear();
        { std::basic_string<C> s; auto x = allocs(form, s, -1); one(x, s); o.raw("\"ok\":").raw(e.s); }
        for (long k = 0;; ++k)
        {
            long live0 = AS().live;
            bool hit;
            e.s.clear();
            {
                std::basic_string<C> s, t;
                auto x = allocs(form, s, k);
                hit    = AS().failed;
                e.raw("[");
                one(x, s);
                e.raw(",");
                x = allocs(form, t, -1);
                one(x, t);
                e.raw(",");
                show(e, v);
                e.raw("]");
            }
            leak += AS().live - live0;
            if (!hit) break;
            ++n;
            bool known = false;
            for (auto& y : seen) if (y == e.s) known = true;
            if (known) continue;
            seen.push_back(e.s);
            if (!fs.empty()) fs += ",";
            fs += e.s;
        }
        o.raw(",\"f\":[").raw(fs).raw("],\"n\":").num(n).raw(",\"leak\":").num(leak);
    }
    const char* sink(char form, size_t k, std::basic_string<C>& out)
    {
        const char* x = nullptr;
        const bool once = form == 'E' || form == 'T' || form == 'A';
        if (form == 'a' || form == 'A')
        {
            Eat<C> e(k, once);
            try { cf::basic_oadapterstream<C> os(e); to(os); }
            catch (...) { x = exc_class(); }
            out = e.s;
        }
        else
        {
            Sink<C> b(k, once, form == 't' || form == 'T', form == 'p');
            std::basic_ostream<C> os(&b);
            try
            {
                if (form == 'm') os.exceptions(std::ios_base::badbit);
                if (form == '<') { os << J::wrap(v); if (!os) x = "stream"; }
                else to(os);
            }
            catch (...) { x = exc_class(); }
            out = b.s;
        }
        return x;
    }
    void every_write(char form, Out& o)
    {
        std::basic_string<C> s;
        auto chars = [&](const std::basic_string<C>& t) { auto d = dec(t); while (!d.empty() && d.back() >= BADUNIT) d.pop_back(); return d; };
        auto x = sink(form, 1 << 20, s);
        if (x) o.raw("\"ok\":[\"x\",").str(x).raw("]"); else o.raw("\"ok\":[\"t\",").nums(dec(s)).raw("]");
        o.raw(",\"f\":[");
        const size_t n = s.size();
        for (size_t k = 0; k <= n; ++k)
        {
            std::basic_string<C> t;
            x = sink(form, k, t);
            if (k) o.raw(",");
            o.raw("[").num(static_cast<long long>(k)).raw(",").str(x ? x : "ok").raw(",").nums(chars(t)).raw("]");
        }
        o.raw("],\"n\":").num(static_cast<long long>(n)).raw(",\"leak\":0");
    }
};

template <typename C>
void run(const std::string& kind, char form, In& in, Out& o)
{
    if (kind == "pa") parse_allocs<C>(form, in.nums(), o);
    else if (kind == "ps") parse_sources<C>(form, in.nums(), o);
    else { Dump<C> d(in); if (kind == "da") d.every_alloc(form, o); else d.every_write(form, o); }
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In   in(line);
        auto kind = in.word(), unit = in.word(), form = in.word();
        Out  o;
        o.s.reserve(1 << 20);
        o.raw("{");
        if (unit == "1") run<char>(kind, form[0], in, o);
        else run<wchar_t>(kind, form[0], in, o);
        o.raw("}").flush();
    }
}
