// histories of parses and dumps with error handlers
//   nops, then per call: kind unit picky nh handlers.. payload
//   kind: p + (a into a variable, r returned) + (s string, c C string, i stream, t stream buffer that throws where the text cannot be decoded), payload: cps
//         d + (r returned, s into a string, o stream, t stream whose buffer throws), payload: step limit value
//   unit: 1 char, w wchar_t; picky: 10 * k + p: an encoding that throws (k = 1 std::runtime_error, 2 no std::exception, 3 bad_alloc) at U+E000 is named before (p = 1) or after (p = 2) the handlers
#include "common.hpp"
#include "variants.hpp"
#include <stdexcept>
using V = VALUE;
using J = JSON;

template <typename C> struct base { using type = cf::encoding::auto_utf<C>; };
struct Odd {};
template <int K>
void refuse()
{
    if (K == 1) throw std::runtime_error("picky");
    if (K == 2) throw Odd();
    throw std::bad_alloc();
}
template <typename C, int K>
struct PickyK
{
    using B = typename base<C>::type;
    static bool decode(std::basic_istream<C>& is, uint32_t& c)
    {
        bool r = B::decode(is, c);
        if (r && is.good() && c == 0xE000) refuse<K>();
        return r;
    }
    static void encode(std::basic_ostream<C>& os, uint32_t c)
    {
        if (c == 0xE000) refuse<K>();
        B::encode(os, c);
    }
};

template <typename C> struct Picky1 : PickyK<C, 1> {};
template <typename C> struct Picky2 : PickyK<C, 2> {};
template <typename C> struct Picky3 : PickyK<C, 3> {};

std::string what_of(std::exception_ptr p)
{
    try { std::rethrow_exception(p); }
    catch (const std::exception& e) { return e.what(); }
    catch (...) { return "?"; }
}
void put_msg(Out& o, const std::string& s)
{
    std::vector<long long> u;
    for (char c : s) u.push_back(static_cast<unsigned char>(c));
    o.nums(u);
}

struct Count : cf::error_handler
{
    long        n = 0;
    std::string m;
    bool        again;
    explicit Count(bool a) : again(a) {}
    void handle(std::exception_ptr p) override
    {
        ++n;
        m = what_of(p);
        if (again) std::rethrow_exception(p);
    }
};
struct Own : cf::error_handler
{
    long n = 0;
    void handle(std::exception_ptr) override { ++n; throw 42; }
};
struct Nest : cf::error_handler
{
    long               n = 0;
    cf::error_handler* r;
    void handle(std::exception_ptr) override
    {
        ++n;
        V v = J::parse<char>(std::string("["), { J::parser_type<char>::with_error_handler(r) });
    }
};

struct Handlers
{
    cf::error_handler_with<cf::error_policy::strict> s;
    cf::error_handler_with<cf::error_policy::ignore> i;
    cf::error_handler_with<cf::error_policy::record> r1, r2;
    Count c{ false }, g{ true };
    Own   o;
    Nest  x;
    Handlers() { x.r = &r2; }
    cf::error_handler* get(const std::string& n)
    {
        if (n == "N") return nullptr;
        if (n == "S") return &s;
        if (n == "I") return &i;
        if (n == "R1") return &r1;
        if (n == "R2") return &r2;
        if (n == "C") return &c;
        if (n == "G") return &g;
        if (n == "O") return &o;
        if (n == "X") return &x;
        exit(3);
    }
    void show(Out& out)
    {
        out.raw("[");
        put_msg(out, r1.error); out.raw(","); put_msg(out, r2.error); out.raw(",").num(c.n).raw(","); put_msg(out, c.m);
        out.raw(",").num(g.n).raw(","); put_msg(out, g.m); out.raw(",").num(o.n).raw(",").num(x.n).raw("]");
    }
};

template <typename C>
struct Thrower : std::basic_streambuf<C>
{
    std::basic_string<C> s;
    bool                 thrown = false;
    explicit Thrower(std::basic_string<C> t) : s(std::move(t)) { if (!s.empty()) this->setg(&s[0], &s[0], &s[0] + s.size()); }
    typename std::char_traits<C>::int_type underflow() override
    {
        throw std::runtime_error("source");
    }
};
template <typename C>
struct Sink : std::basic_streambuf<C>
{
    using T = std::char_traits<C>;
    std::basic_string<C> s;
    long long            limit;
    bool                 throws;
    Sink(long long l, bool t) : limit(l), throws(t) {}
    typename T::int_type overflow(typename T::int_type c) override
    {
        if (limit >= 0 && static_cast<long long>(s.size()) >= limit) { if (throws) throw std::runtime_error("sink"); return T::eof(); }
        s.push_back(T::to_char_type(c));
        return T::not_eof(c);
    }
};

struct Call
{
    std::string              kind;
    char                     unit;
    int                      picky;
    std::vector<std::string> hs;
    std::vector<long long>   text;
    long long                step = 0, limit = -1;
    V                        v;
    explicit Call(In& in)
    {
        kind  = in.word();
        unit  = in.word()[0];
        picky = static_cast<int>(in.num());
        for (auto n = in.num(); n > 0; --n) hs.push_back(in.word());
        if (kind[0] == 'p') text = in.nums();
        else { step = in.num(); limit = in.num(); v = build<V>(in); }
    }
};

// hands the options to f as an initializer list
template <typename O, typename F>
void with(const std::vector<O>& o, F f)
{
    switch (o.size())
    {
    case 0: f(std::initializer_list<O>{}); break;
    case 1: f(std::initializer_list<O>{ o[0] }); break;
    case 2: f(std::initializer_list<O>{ o[0], o[1] }); break;
    case 3: f(std::initializer_list<O>{ o[0], o[1], o[2] }); break;
    case 4: f(std::initializer_list<O>{ o[0], o[1], o[2], o[3] }); break;
    case 5: f(std::initializer_list<O>{ o[0], o[1], o[2], o[3], o[4] }); break;
    default: exit(3);
    }
}

template <typename C>
V do_parse(const Call& c, Handlers* h)
{
    using P = J::parser_type<C>;
    std::vector<typename P::option> o;
    if (c.picky % 10 == 1) o.push_back(c.picky < 20 ? P::template with_source_encoding<Picky1>() : c.picky < 30 ? P::template with_source_encoding<Picky2>() : P::template with_source_encoding<Picky3>());
    if (h) for (auto& n : c.hs) o.push_back(P::with_error_handler(h->get(n)));
    if (c.picky % 10 == 2) o.push_back(c.picky < 20 ? P::template with_source_encoding<Picky1>() : c.picky < 30 ? P::template with_source_encoding<Picky2>() : P::template with_source_encoding<Picky3>());
    std::basic_string<C> s;
    for (auto x : c.text)
    {
        if (x >= 0) s += enc<C>({ x });
        else if (c.kind[2] == 't') break;
        else s.push_back(sizeof(C) == 1 ? C(0x80) : C(0xDC00));
    }
    V v(7);
    const bool a = c.kind[1] == 'a';
    with(o, [&](std::initializer_list<typename P::option> l) {
        if (c.kind[2] == 's') { if (a) J::parse<C>(v, s, l); else v = J::parse<C>(s, l); }
        else if (c.kind[2] == 'c') { if (a) J::parse<C>(v, s.c_str(), l); else v = J::parse<C>(s.c_str(), l); }
        else if (c.kind[2] == 'i') { std::basic_istringstream<C> is(s); if (a) J::parse<C>(v, is, l); else v = J::parse<C>(is, l); }
        else { Thrower<C> b(s); std::basic_istream<C> is(&b); if (a) J::parse<C>(v, is, l); else v = J::parse<C>(is, l); }
    });
    return v;
}
template <typename C>
std::basic_string<C> do_dump(const Call& c, Handlers* h)
{
    using P = J::serializer_type<C>;
    std::vector<typename P::option> o;
    if (c.step) o.push_back(P::with_indent(static_cast<uint8_t>(c.step), C(' ')));
    if (c.picky % 10 == 1) o.push_back(c.picky < 20 ? P::template with_target_encoding<Picky1>() : c.picky < 30 ? P::template with_target_encoding<Picky2>() : P::template with_target_encoding<Picky3>());
    if (h) for (auto& n : c.hs) o.push_back(P::with_error_handler(h->get(n)));
    if (c.picky % 10 == 2) o.push_back(c.picky < 20 ? P::template with_target_encoding<Picky1>() : c.picky < 30 ? P::template with_target_encoding<Picky2>() : P::template with_target_encoding<Picky3>());
    std::basic_string<C> s;
    with(o, [&](std::initializer_list<typename P::option> l) {
        if (c.kind[1] == 'r') s = J::dump<C>(c.v, l);
        else if (c.kind[1] == 's') J::dump<C>(s, c.v, l);
        else
        {
            Sink<C>               b(c.limit, c.kind[1] == 't');
            std::basic_ostream<C> os(&b);
            J::dump<C>(os, c.v, l);
            s = b.s;
        }
    });
    return s;
}
template <typename C>
void run(const Call& c, Handlers* h, Out& o)
{
    if (c.kind[0] == 'p') { V v = do_parse<C>(c, h); o.raw("[\"v\","); show(o, v); o.raw("]"); }
    else o.raw("[\"t\",").nums(dec(do_dump<C>(c, h))).raw("]");
}
void attempt(const Call& c, Handlers* h, Out& o)
{
    Out r;
    try
    {
        if (c.unit == '1') run<char>(c, h, r);
        else run<wchar_t>(c, h, r);
        o.raw(r.s);
    }
    catch (int) { o.raw("[\"own\"]"); }
    catch (...)
    {
        const std::string e = exc_class();
        o.raw("[\"x\",").str(e).raw(",");
        put_msg(o, what_of(std::current_exception()));
        o.raw("]");
    }
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In       in(line);
        Handlers h;
        Out      o;
        o.raw("{\"nest\":");
        try { J::parse<char>(std::string("[")); o.raw("[]"); }
        catch (const std::exception& e) { put_msg(o, e.what()); }
        o.raw(",\"h\":[");
        auto n = in.num();
        for (long long i = 0; i < n; ++i)
        {
            Call c(in);
            if (i) o.raw(",");
            o.raw("[");
            attempt(c, nullptr, o);
            o.raw(",");
            attempt(c, &h, o);
            o.raw(",");
            h.show(o);
            o.raw("]");
        }
        o.raw("]}").flush();
    }
}
