// calls with every selection of encodings; strings are code units here
//   d vw tw def nsel (side enc).. esc shape api n units..    dump the value made of the string
//   p vw tw def nsel (side enc).. api n units..              parse a text made of the units
// vw, tw: 1 char, 4 wchar_t, 2 char16_t, 5 char32_t (text only); enc: -1 auto, 0 ignore, 1 one of the caller's own, 8, 16, 32; side: b s t
#include "common.hpp"
#include <configor/configor.hpp>
#include <limits>

namespace e = cf::encoding;
// the caller's own: the unit u stands for the character u - 1, and 0 for none
template <typename C> class Own
{
public:
    using char_type = C;
    using U         = typename std::make_unsigned<C>::type;
    static void encode(std::basic_ostream<C>& os, uint32_t c)
    {
        if (c >= (sizeof(C) == 4 ? 0x7fffffffu : std::numeric_limits<U>::max())) os.setstate(std::ios_base::failbit);
        else os.put(static_cast<C>(c + 1));
    }
    static bool decode(std::basic_istream<C>& is, uint32_t& c)
    {
        const auto x = is.get();
        if (is.eof()) return false;
        c = static_cast<uint32_t>(static_cast<U>(x));
        if (c == 0) is.setstate(std::ios_base::failbit);
        else --c;
        return true;
    }
};
template <int E> struct Enc;
template <> struct Enc<1> { template <class C> using T = Own<C>; };
template <> struct Enc<-1> { template <class C> using T = e::auto_utf<C>; };
template <> struct Enc<0> { template <class C> using T = e::ignore<C>; };
template <> struct Enc<8> { template <class C> using T = e::utf8<C>; };
template <> struct Enc<16> { template <class C> using T = e::utf16<C>; };
template <> struct Enc<32> { template <class C> using T = e::utf32<C>; };
constexpr bool fits(int E, size_t w) { return E <= 8 || (E == 16 && w >= 2) || (E == 32 && w >= 4); }

template <typename C> std::vector<long long> raw(const std::basic_string<C>& s)
{
    std::vector<long long> r;
    for (auto x : s) r.push_back(static_cast<long long>(typename std::make_unsigned<C>::type(x)));
    return r;
}
template <typename V> void show_units(Out& o, const V& v)
{
    if (v.is_string()) o.raw("[\"s\",").nums(raw(*v.data().string)).raw("]");
    else if (v.is_array())
    {
        o.raw("[\"a\",[");
        bool f = true;
        for (const auto& x : *v.data().vector) { if (!f) o.s += ','; f = false; show_units(o, x); }
        o.raw("]]");
    }
    else if (v.is_object())
    {
        o.raw("[\"o\",[");
        bool f = true;
        for (const auto& p : *v.data().object) { if (!f) o.s += ','; f = false; o.raw("[").nums(raw(p.first)).raw(","); show_units(o, p.second); o.raw("]"); }
        o.raw("]]");
    }
    else show(o, v);
}

struct Sel { std::string side; int enc; };

// P: a parser or serializer; RC, WC: the characters it reads and writes
template <class P, class RC, class WC, int E, bool S, bool T> struct Mk
{
    static typename P::option src() { fprintf(stderr, "no such encoding\n"); exit(3); }
    static typename P::option dst() { return src(); }
    static typename P::option both() { return src(); }
};
template <class P, class RC, class WC, int E> struct Mk<P, RC, WC, E, true, false> : Mk<P, RC, WC, E, false, false>
{
    static typename P::option src() { return P::template with_source_encoding<Enc<E>::template T>(); }
};
template <class P, class RC, class WC, int E> struct Mk<P, RC, WC, E, false, true> : Mk<P, RC, WC, E, false, false>
{
    static typename P::option dst() { return P::template with_target_encoding<Enc<E>::template T>(); }
};
template <class P, class RC, class WC, int E> struct Mk<P, RC, WC, E, true, true>
{
    static typename P::option src() { return P::template with_source_encoding<Enc<E>::template T>(); }
    static typename P::option dst() { return P::template with_target_encoding<Enc<E>::template T>(); }
    static typename P::option both() { return P::template with_encoding<Enc<E>::template T>(); }
};
template <class P, class RC, class WC, int E> typename P::option one(const Sel& s)
{
    using M = Mk<P, RC, WC, E, fits(E, sizeof(RC)), fits(E, sizeof(WC))>;
    return s.side == "s" ? M::src() : s.side == "t" ? M::dst() : M::both();
}
template <class P, class RC, class WC> typename P::option option(const Sel& s)
{
    return s.enc == -1 ? one<P, RC, WC, -1>(s) : s.enc == 0 ? one<P, RC, WC, 0>(s) : s.enc == 1 ? one<P, RC, WC, 1>(s) : s.enc == 8 ? one<P, RC, WC, 8>(s) : s.enc == 16 ? one<P, RC, WC, 16>(s) : one<P, RC, WC, 32>(s);
}
template <class P, class RC, class WC, class F> void with(const std::vector<Sel>& s, F f)
{
    if (s.empty()) f(std::initializer_list<typename P::option>{});
    else if (s.size() == 1) f(std::initializer_list<typename P::option>{ option<P, RC, WC>(s[0]) });
    else if (s.size() == 2) f(std::initializer_list<typename P::option>{ option<P, RC, WC>(s[0]), option<P, RC, WC>(s[1]) });
    else f(std::initializer_list<typename P::option>{ option<P, RC, WC>(s[0]), option<P, RC, WC>(s[1]), option<P, RC, WC>(s[2]) });
}

template <typename J, typename T> void do_dump(In& in, const std::vector<Sel>& sel)
{
    using V = typename J::value;
    using S = typename J::template serializer_type<T>;
    using Str = typename V::string_type;
    const bool        esc   = in.num() != 0;
    const std::string shape = in.word();
    const auto        api   = in.num() % 4;
    const Str         s     = units<typename V::char_type>(in.nums());
    V v;
    if (shape == "s") { v[0] = s; v[1] = true; v[2] = -2.5; v[3] = s; }
    else v[s] = s;
    Out o;
    try
    {
        std::basic_string<T> text;
        with<S, typename V::char_type, T>(sel, [&](std::initializer_list<typename S::option> os) {
            std::vector<typename S::option> all(os);
            auto esc_o = S::with_unicode_escaping(esc);
            auto run = [&](std::initializer_list<typename S::option> x) {
                if (api == 0 || (api == 3 && x.size())) text = J::template dump<T>(v, x);
                else if (api == 1) J::template dump<T>(text, v, x);
                else
                {
                    std::basic_ostringstream<T> ss;
                    if (api == 2) J::template dump<T>(ss, v, x);
                    else ss << J::wrap(v);
                    text = ss.str();
                }
            };
            if (!esc) run(os);
            else if (all.empty()) run({ esc_o });
            else if (all.size() == 1) run({ esc_o, all[0] });
            else if (all.size() == 2) run({ all[0], esc_o, all[1] });
            else run({ all[0], all[1], all[2], esc_o });
        });
        o.raw("{\"t\":").nums(raw(text)).raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}

// there is no locale for char16_t and char32_t, so no sentry either
template <typename T, typename W> void extract(std::basic_istringstream<T>& is, W& w) { is >> w; }
template <typename W> void extract(std::basic_istringstream<char16_t>&, W&) {}
template <typename W> void extract(std::basic_istringstream<char32_t>&, W&) {}

template <typename J, typename T> void do_parse(In& in, const std::vector<Sel>& sel)
{
    using V = typename J::value;
    using P = typename J::template parser_type<T>;
    const auto api  = in.num() % 6;
    const auto text = units<T>(in.nums());
    Out o;
    try
    {
        V v;
        v[0] = 1;
        with<P, T, typename V::char_type>(sel, [&](std::initializer_list<typename P::option> x) {
            std::basic_istringstream<T> ss(text);
            if (api == 0) v = J::template parse<T>(text, x);
            else if (api == 1) J::template parse<T>(v, text, x);
            else if (api == 2) v = J::template parse<T>(text.c_str(), x);
            else if (api == 3) J::template parse<T>(v, text.c_str(), x);
            else if (api == 4) v = J::template parse<T>(ss, x);
            else if (x.size() || sizeof(T) == 2 || std::is_same<T, char32_t>::value) J::template parse<T>(v, ss, x);
            else { auto w = J::wrap(v); extract(ss, w); }
        });
        o.raw("{\"v\":");
        show_units(o, v);
        o.raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}
template <class A, class T, int E, bool OK> struct Go
{
    static void run(bool, In&, const std::vector<Sel>&) { fprintf(stderr, "no such default\n"); exit(3); }
};
template <class A, class T, int E> struct Go<A, T, E, true>
{
    using J = cf::basic_json<A, Enc<E>::template T>;
    static void dump(In& in, const std::vector<Sel>& s, std::true_type) { do_dump<J, T>(in, s); }
    static void dump(In&, const std::vector<Sel>&, std::false_type) { exit(3); }
    static void run(bool d, In& in, const std::vector<Sel>& s)
    {
        if (d) dump(in, s, std::integral_constant<bool, std::is_same<T, char>::value || std::is_same<T, wchar_t>::value>());
        else do_parse<J, T>(in, s);
    }
};
template <class A, class T> void by_def(bool d, In& in)
{
    constexpr size_t vw = sizeof(typename cf::basic_value<A>::char_type), tw = sizeof(T);
    const int def = static_cast<int>(in.num());
    std::vector<Sel> s;
    for (auto n = in.num(); n > 0; --n) { Sel x; x.side = in.word(); x.enc = static_cast<int>(in.num()); s.push_back(x); }
    if (def == -1) Go<A, T, -1, true>::run(d, in, s);
    else if (def == 0) Go<A, T, 0, true>::run(d, in, s);
    else if (def == 1) Go<A, T, 1, true>::run(d, in, s);
    else if (def == 8) Go<A, T, 8, true>::run(d, in, s);
    else if (def == 16) Go<A, T, 16, fits(16, vw) && fits(16, tw)>::run(d, in, s);
    else Go<A, T, 32, fits(32, vw) && fits(32, tw)>::run(d, in, s);
}
template <class A> void by_text(bool d, In& in)
{
    const auto t = in.num();
    if (t == 1) by_def<A, char>(d, in);
    else if (t == 4) by_def<A, wchar_t>(d, in);
    else if (t == 2) by_def<A, char16_t>(d, in);
    else by_def<A, char32_t>(d, in);
}
int main()
{
    std::string line;
    while (next_case(line))
    {
        In in(line);
        const bool d = in.word() == "d";
        if (in.num() == 1) by_text<cf::value_tplargs>(d, in);
        else by_text<cf::wvalue_tplargs>(d, in);
    }
}
