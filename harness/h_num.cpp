// numbers of values with other integer and float types
//   <cfg> p n cps..                        parse a text
//   <cfg> d step ch esc prec fmt k x       dump the number x (k: i integer, d float), inside an array if step is not 0
// <cfg>: a 8 bits, long double; b 16 bits, float; c 8 bits unsigned, double; d 32 bits unsigned, float; e 64 bits unsigned, long double
#include "common.hpp"

template <typename I, typename F> struct num_args : cf::value_tplargs
{
    using integer_type = I;
    using float_type   = F;
};

template <typename I, typename F, typename C>
void run(In& in)
{
    using J = cf::basic_json<num_args<I, F>>;
    using V = typename J::value;
    using S = typename J::template serializer_type<C>;
    Out o;
    try
    {
        if (in.word() == "p")
        {
            V v = J::template parse<C>(enc<C>(in.nums()));
            o.raw("{\"v\":");
            show(o, v);
            o.raw("}");
        }
        else
        {
            auto step = in.num(), ch = in.num(), esc = in.num(), prec = in.num(), fmt = in.num();
            const std::string k = in.word(), x = in.word();
            V v = k == "d" ? V(static_cast<F>(std::strtold(x.c_str(), nullptr)))
                           : V(x[0] == '-' ? static_cast<I>(std::strtoll(x.c_str(), nullptr, 10)) : static_cast<I>(std::strtoull(x.c_str(), nullptr, 10)));
            if (step) { V a(cf::value_constant::array); a.push_back(std::move(v)); v = std::move(a); }
            std::ios_base::fmtflags ff{};
            if (fmt == 1) ff = std::ios_base::fixed;
            if (fmt == 2) ff = std::ios_base::scientific;
            if (fmt == 3) ff = std::ios_base::fixed | std::ios_base::scientific;
            auto text = J::template dump<C>(v, { S::with_indent(static_cast<uint8_t>(step), static_cast<C>(ch)), S::with_unicode_escaping(esc != 0), S::with_precision(static_cast<int>(prec), ff) });
            o.raw("{\"t\":").nums(dec(text)).raw("}");
        }
    }
    catch (...)
    {
        o.s.clear();
        o.raw("{\"x\":").str(exc_class()).raw("}");
    }
    o.flush();
}
template <typename C> void pick(char c, In& in)
{
    switch (c)
    {
    case 'a': return run<int8_t, long double, C>(in);
    case 'b': return run<int16_t, float, C>(in);
    case 'c': return run<uint8_t, double, C>(in);
    case 'd': return run<uint32_t, float, C>(in);
    case 'e': return run<uint64_t, long double, C>(in);
    }
}
int main()
{
    std::string line;
    while (next_case(line))
    {
        In                in(line);
        const std::string c = in.word();
        if (c.size() > 1) pick<wchar_t>(c[0], in);
        else pick<char>(c[0], in);
    }
    return 0;
}
