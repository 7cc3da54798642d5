// parse / dump / round trip of json and wjson
//   p<v><t> PRIOR n cps..            parse a text into a value that holds PRIOR
//   d<v><t> step ch esc prec fmt V   dump
//   r<v><t> step ch esc prec fmt V   dump and parse back
// <v>: value type (n narrow, w wide, i 32-bit integer and float), <t>: text character type (n char, w wchar_t; p also u char16_t, U char32_t)
#include "common.hpp"
#include "variants.hpp"

template <typename J, typename C>
void do_parse(In& in)
{
    using V = typename J::value;
    Out o;
    V   v = build<V>(in);
    auto text = enc<C>(in.nums());
    try
    {
        J::template parse<C>(v, text);
        o.raw("{\"v\":");
        show(o, v);
        o.raw("}");
    }
    catch (...)
    {
        o.s.clear();
        o.raw("{\"x\":").str(exc_class()).raw("}");
    }
    o.flush();
}

template <typename J, typename C>
std::basic_string<C> dump_opts(In& in)
{
    using V = typename J::value;
    using S = typename J::template serializer_type<C>;
    auto step = in.num(), ch = in.num(), esc = in.num(), prec = in.num(), fmt = in.num();
    V    v = build<V>(in);
    std::ios_base::fmtflags ff{};
    if (fmt == 1) ff = std::ios_base::fixed;
    if (fmt == 2) ff = std::ios_base::scientific;
    if (fmt == 3) ff = std::ios_base::fixed | std::ios_base::scientific;
    auto ind = S::with_indent(static_cast<uint8_t>(step), static_cast<C>(ch));
    auto uni = S::with_unicode_escaping(esc != 0);
    if (prec >= 0)
        return J::template dump<C>(v, { ind, uni, S::with_precision(static_cast<int>(prec), ff) });
    return J::template dump<C>(v, { ind, uni });
}

template <typename J, typename C>
void do_dump(In& in, bool back)
{
    using V = typename J::value;
    Out o;
    try
    {
        auto text = dump_opts<J, C>(in);
        if (!back) o.raw("{\"t\":").nums(dec(text)).raw("}");
        else
        {
            V v = J::template parse<C>(text);
            o.raw("{\"v\":");
            show(o, v);
            o.raw("}");
        }
    }
    catch (...)
    {
        o.s.clear();
        o.raw("{\"x\":").str(exc_class()).raw("}");
    }
    o.flush();
}

using json32 = cf::basic_json<args32>;

int main()
{
    std::string line;
    while (next_case(line))
    {
        In                in(line);
        const std::string c = in.word();
#if VARIANT > 1  // only the configuration selected
        if (c[0] == 'p') c[2] == 'n' ? do_parse<JSON, char>(in) : do_parse<JSON, wchar_t>(in);
        else c[2] == 'n' ? do_dump<JSON, char>(in, c[0] == 'r') : do_dump<JSON, wchar_t>(in, c[0] == 'r');
#else
        const bool        w = c[1] == 'w';
        if (c[1] == 'i')
        {
            if (c[0] == 'p') c[2] == 'n' ? do_parse<json32, char>(in) : do_parse<json32, wchar_t>(in);
            else c[2] == 'n' ? do_dump<json32, char>(in, c[0] == 'r') : do_dump<json32, wchar_t>(in, c[0] == 'r');
        }
        else if (c[0] == 'p')
        {
            if (!w && c[2] == 'n') do_parse<cf::json, char>(in);
            else if (!w && c[2] == 'w') do_parse<cf::json, wchar_t>(in);
            else if (!w && c[2] == 'u') do_parse<cf::json, char16_t>(in);
            else if (!w && c[2] == 'U') do_parse<cf::json, char32_t>(in);
            else if (c[2] == 'n') do_parse<cf::wjson, char>(in);
            else do_parse<cf::wjson, wchar_t>(in);
        }
        else
        {
            const bool back = c[0] == 'r';
            if (!w && c[2] == 'n') do_dump<cf::json, char>(in, back);
            else if (!w) do_dump<cf::json, wchar_t>(in, back);
            else if (c[2] == 'n') do_dump<cf::wjson, char>(in, back);
            else do_dump<cf::wjson, wchar_t>(in, back);
        }
#endif
    }
    return 0;
}
