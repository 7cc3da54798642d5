// histories of dumps and other insertions on one output stream
//   <v><t><sink> nops op..     sink: s string stream, c adapter of single characters, b adapter of blocks, f string buffer of our own
#include "common.hpp"
#include <locale>
#include <map>

template <typename C>
struct Punct : std::numpunct<C>
{
    C                    do_decimal_point() const override { return C(','); }
    C                    do_thousands_sep() const override { return C('\''); }
    std::string          do_grouping() const override { return "\3"; }
    std::basic_string<C> do_truename() const override { return enc<C>({ 'y', 'e', 's' }); }
    std::basic_string<C> do_falsename() const override { return enc<C>({ 'n', 'o' }); }
};
static std::locale odd_locale()
{
    static std::locale l(std::locale(std::locale::classic(), new Punct<char>), new Punct<wchar_t>);
    return l;
}

template <typename C>
struct CharSink : cf::basic_oadapter<C>
{
    std::basic_string<C>& s;
    explicit CharSink(std::basic_string<C>& s) : s(s) {}
    void write(const C ch) override { s.push_back(ch); }
};
template <typename C>
struct BlockSink : CharSink<C>
{
    using CharSink<C>::CharSink;
    void write(const C ch) override { this->s.push_back(ch); }
    void write(const C* p, std::size_t n) override { this->s.append(p, n); }
};
template <typename C>
struct OwnBuf : std::basic_streambuf<C>
{
    using T = std::char_traits<C>;
    std::basic_string<C>& s;
    explicit OwnBuf(std::basic_string<C>& s) : s(s) {}
    typename T::int_type overflow(typename T::int_type c) override
    {
        if (!T::eq_int_type(c, T::eof())) s.push_back(T::to_char_type(c));
        return T::not_eof(c);
    }
};

const std::ios_base::fmtflags KNOWN[] = { std::ios_base::hex, std::ios_base::oct, std::ios_base::showpos, std::ios_base::uppercase, std::ios_base::showbase,
                                          std::ios_base::boolalpha, std::ios_base::left, std::ios_base::showpoint, std::ios_base::unitbuf };

template <typename J, typename C>
struct Run
{
    using V = typename J::value;
    using S = typename J::template serializer_type<C>;
    using Opt = typename S::option;

    static Opt option(In& in)
    {
        const std::string k = in.word();
        if (k == "ind") { auto a = in.num(), b = in.num(); return S::with_indent(static_cast<uint8_t>(a), static_cast<C>(b)); }
        if (k == "esc") return S::with_unicode_escaping(in.num() != 0);
        auto p = in.num(), f = in.num();
        if (f == 1) return S::with_precision(static_cast<int>(p));
        return S::with_precision(static_cast<int>(p), f == 0 ? std::ios_base::fmtflags() : f == 2 ? std::ios_base::scientific : std::ios_base::fixed | std::ios_base::scientific);
    }

    template <typename F>
    static void with_options(In& in, F f)
    {
        auto n = in.num();
        if (n == 0) { f(std::initializer_list<Opt>{}); return; }
        Opt a = option(in);
        if (n == 1) { f(std::initializer_list<Opt>{ a }); return; }
        Opt b = option(in);
        if (n == 2) { f(std::initializer_list<Opt>{ a, b }); return; }
        Opt c = option(in);
        f(std::initializer_list<Opt>{ a, b, c });
    }

    template <typename Get>
    static void run(In& in, std::basic_ostream<C>& os, Get out)
    {
        Out                  o;
        std::basic_string<C> str;
        const auto           rest0 = os.flags() & ~std::ios_base::floatfield;
        o.raw("{\"h\":[");
        auto n = in.num();
        for (long long i = 0; i < n; ++i)
        {
            const std::string k = in.word();
            if (k == "w") os.width(in.num());
            else if (k == "fi") os.fill(static_cast<C>(in.num()));
            else if (k == "p") os.precision(in.num());
            else if (k == "ff")
            {
                auto f = in.num();
                os.setf(f == 0 ? std::ios_base::fmtflags() : f == 1 ? std::ios_base::fixed : f == 2 ? std::ios_base::scientific : std::ios_base::fixed | std::ios_base::scientific,
                        std::ios_base::floatfield);
            }
            else if (k == "fl")
            {
                auto f = (os.flags() & std::ios_base::floatfield) | rest0;
                auto m = in.num();
                for (int b = 0; b < 9; ++b)
                    if (m >> b & 1) { if (b < 2) f &= ~std::ios_base::basefield; f |= KNOWN[b]; }
                os.flags(f);
            }
            else if (k == "loc") os.imbue(in.num() ? odd_locale() : std::locale::classic());
            else if (k == "gl") std::locale::global(in.num() ? odd_locale() : std::locale::classic());
            else if (k == "fail") { auto b = in.num(); os.setstate(b == 0 ? std::ios_base::failbit : b == 1 ? std::ios_base::badbit : std::ios_base::eofbit); }
            else if (k == "clear") os.clear();
            else if (k == "d") { V v = build<V>(in); with_options(in, [&](std::initializer_list<Opt> op) { J::dump(os, v, op); }); }
            else if (k == "wr") { const V v = build<V>(in); os << J::wrap(v); }
            else if (k == "wt")
            {
                const V v = build<V>(in);
                if (v.is_array()) { std::vector<V> c(v.data().vector->begin(), v.data().vector->end()); os << J::wrap(c); }
                else { std::map<typename V::string_type, V> c(v.data().object->begin(), v.data().object->end()); const auto& cc = c; os << J::wrap(cc); }
            }
            else if (k == "dx")
            {
                // a dump that fails before it writes: not a finite number
                const V v = in.num() ? V(-std::numeric_limits<typename V::float_type>::infinity()) : V(std::numeric_limits<typename V::float_type>::quiet_NaN());
                auto    form = in.num();
                cf::error_handler_with<cf::error_policy::ignore> ign;
                bool    thrown = false;
                with_options(in,
                             [&](std::initializer_list<Opt> op)
                             {
                                 try
                                 {
                                     if (form == 0) J::dump(os, v, op);
                                     else if (form == 1) { thrown = true; J::dump(os, v, { op.size() ? *op.begin() : S::with_unicode_escaping(false), S::with_error_handler(&ign) }); }
                                     else os << J::wrap(v);
                                 }
                                 catch (const cf::configor_serialization_error&) { thrown = true; }
                             });
                if (!thrown && os.good()) str += C('!');
            }
            else if (k == "ds")
            {
                V v = build<V>(in);
                with_options(in,
                             [&](std::initializer_list<Opt> op)
                             {
                                 const auto from = str.size();
                                 J::template dump<C>(str, v, op);
                                 // the same options serve any number of calls
                                 if (J::template dump<C>(v, op) != str.substr(from)) str += C('!');
                             });
            }
            else if (k == "dr") { V v = build<V>(in); with_options(in, [&](std::initializer_list<Opt> op) { str += J::template dump<C>(v, op); }); }
            else if (k == "s") os << enc<C>(in.nums());
            else if (k == "i") os << static_cast<int>(in.num());
            else { fprintf(stderr, "harness: bad op %s\n", k.c_str()); exit(3); }

            if (i) o.s += ',';
            auto      f  = os.flags();
            auto      ff = f & std::ios_base::floatfield;
            long long m  = 0;
            for (int b = 0; b < 9; ++b) if ((f & KNOWN[b]) == KNOWN[b]) m |= 1 << b;
            auto others = std::ios_base::fmtflags(f & ~std::ios_base::floatfield);
            for (auto x : KNOWN) others &= ~x;
            auto want = rest0;
            if (m & 3) want &= ~std::ios_base::dec;
            if (others != want) m |= 1024;
            std::vector<long long> s{ os.width(), static_cast<long long>(os.fill()), os.precision(), ff == std::ios_base::fixed ? 1 : ff == std::ios_base::scientific ? 2 : ff == std::ios_base::fmtflags() ? 0 : 3,
                                      m, std::use_facet<std::numpunct<C>>(os.getloc()).decimal_point() == C(',') ? 1 : 0, os.good() ? 1 : 0,
                                      static_cast<long long>(dec<C>(out()).size()), static_cast<long long>(dec(str).size()) };
            o.nums(s);
        }
        o.raw("],\"t\":").nums(dec<C>(out())).raw(",\"s\":").nums(dec(str)).raw("}");
        std::locale::global(std::locale::classic());
        o.flush();
    }

    static void go(In& in, char sink)
    {
        std::basic_string<C> out;
        if (sink == 'c') { CharSink<C> a(out); cf::basic_oadapterstream<C> os(a); run(in, os, [&] { return out; }); }
        else if (sink == 'b') { BlockSink<C> a(out); cf::basic_oadapterstream<C> os(a); run(in, os, [&] { return out; }); }
        else if (sink == 'f') { OwnBuf<C> b(out); std::basic_ostream<C> os(&b); run(in, os, [&] { return out; }); }
        else { std::basic_ostringstream<C> os; run(in, os, [&] { return os.str(); }); }
    }
};

template <typename C>
void pick(In& in, const std::string& c)
{
    if (c[0] == 'n') Run<cf::json, C>::go(in, c[2]);
    else Run<cf::wjson, C>::go(in, c[2]);
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In                in(line);
        const std::string c = in.word();
        if (c[1] == 'n') pick<char>(in, c);
        else pick<wchar_t>(in, c);
    }
    return 0;
}
