// the Unicode codecs, alone and inside parse and dump
//   D enc n units..      decode a unit sequence          enc: 8 16 w (utf16<wchar_t>) 32 W (utf32<wchar_t>) a8 a16 aw (auto_utf) w8 U8 (utf8 in wide characters)
//   E enc from n         encode the code points from..from+n-1
//   P t where n units..  parse a text made of the units in a string (s), comment (c) or key (k)  t: n w u U
//   V v t esc where n units..  dump a string (s) or key (k) made of the units        v: n w, t: n w
#include "common.hpp"
#include <configor/configor.hpp>

template <typename C, template <class> class E>
void do_decode(In& in)
{
    Out  o;
    auto u = units<C>(in.nums());
    std::basic_istringstream<C> is(u);
    std::vector<long long> c, pos;
    uint32_t cp = 0;
    int      ok = 1;
    while (c.size() < 1000)
    {
        cp = 0x5A5A5A5A;
        if (!E<C>::decode(is, cp))
            break;
        if (!is.good()) { ok = 0; break; }
        c.push_back(cp);
        pos.push_back(static_cast<long long>(u.size()) - static_cast<long long>(is.rdbuf()->in_avail() > 0 ? is.rdbuf()->in_avail() : 0));
    }
    o.raw("{\"c\":").nums(c).raw(",\"p\":").nums(pos).raw(",\"ok\":").num(ok).raw("}").flush();
}

template <typename C, template <class> class E>
void do_encode(In& in)
{
    Out       o;
    long long from = in.num(), n = in.num();
    std::vector<long long> r;
    for (long long c = from; c < from + n; ++c)
    {
        std::basic_ostringstream<C> os;
        E<C>::encode(os, static_cast<uint32_t>(c));
        auto s = os.str();
        if (!os.good()) { r.push_back(-1); for (auto x : s) r.push_back(static_cast<long long>(typename std::make_unsigned<C>::type(x))); continue; }
        r.push_back(static_cast<long long>(s.size()));
        for (auto x : s) r.push_back(sizeof(C) == 1 ? static_cast<long long>(static_cast<uint8_t>(x)) : static_cast<long long>(static_cast<uint32_t>(x)));
    }
    o.raw("{\"u\":").nums(r).raw("}").flush();
}

template <typename C>
void do_parse(In& in)
{
    const std::string where = in.word();
    auto u = units<C>(in.nums());
    std::basic_string<C> t;
    auto lit = [&](const char* s) { for (; *s; ++s) t.push_back(C(*s)); };
    lit(where == "s" ? "\"" : where == "c" ? "/*" : "{\"");
    t += u;
    lit(where == "s" ? "\"" : where == "c" ? "*/1" : "\":1}");
    Out o;
    try
    {
        cf::json::value v;
        cf::json::parse<C>(v, t);
        o.raw("{\"v\":");
        show(o, v);
        o.raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}

template <typename J, typename T>
void do_dump(In& in)
{
    using V = typename J::value;
    using C = typename V::char_type;
    using S = typename J::template serializer_type<T>;
    bool esc = in.num() != 0;
    const std::string where = in.word();
    auto u = units<C>(in.nums());
    V v;
    if (where == "s") v = typename V::string_type(u.begin(), u.end());
    else v[typename V::string_type(u.begin(), u.end())] = 1;
    Out o;
    try
    {
        auto text = J::template dump<T>(v, { S::with_unicode_escaping(esc) });
        o.raw("{\"t\":").nums(dec(text)).raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}

namespace e = cf::encoding;
int main()
{
    std::string line;
    while (next_case(line))
    {
        In in(line);
        const std::string k = in.word(), w = in.word();
        if (k == "D" || k == "E")
        {
            const bool d = k == "D";
            if (w == "8") d ? do_decode<char, e::utf8>(in) : do_encode<char, e::utf8>(in);
            else if (w == "16") d ? do_decode<char16_t, e::utf16>(in) : do_encode<char16_t, e::utf16>(in);
            else if (w == "w") d ? do_decode<wchar_t, e::utf16>(in) : do_encode<wchar_t, e::utf16>(in);
            else if (w == "32") d ? do_decode<char32_t, e::utf32>(in) : do_encode<char32_t, e::utf32>(in);
            else if (w == "W") d ? do_decode<wchar_t, e::utf32>(in) : do_encode<wchar_t, e::utf32>(in);
            else if (w == "w8") d ? do_decode<wchar_t, e::utf8>(in) : do_encode<wchar_t, e::utf8>(in);
            else if (w == "U8") d ? do_decode<char32_t, e::utf8>(in) : do_encode<char32_t, e::utf8>(in);
            else if (w == "a8") d ? do_decode<char, e::auto_utf>(in) : do_encode<char, e::auto_utf>(in);
            else if (w == "a16") d ? do_decode<char16_t, e::auto_utf>(in) : do_encode<char16_t, e::auto_utf>(in);
            else d ? do_decode<wchar_t, e::auto_utf>(in) : do_encode<wchar_t, e::auto_utf>(in);
        }
        else if (k == "P")
        {
            if (w == "n") do_parse<char>(in);
            else if (w == "w") do_parse<wchar_t>(in);
            else if (w == "u") do_parse<char16_t>(in);
            else do_parse<char32_t>(in);
        }
        else
        {
            const std::string t = in.word();
            if (w == "n") t == "n" ? do_dump<cf::json, char>(in) : do_dump<cf::json, wchar_t>(in);
            else t == "n" ? do_dump<cf::wjson, char>(in) : do_dump<cf::wjson, wchar_t>(in);
        }
    }
}
