// conversions between native objects and values
//   to <type> <form> NATIVE PRIOR      form: c const object, m moved object, a assigned to a value holding PRIOR
//   from <type> <form> NATIVE V        form: g get<T>(), i implicit, t get(variable holding NATIVE)
// prints {"x":native,"v":value} / {"ok":0|1,"x":native or ["any"],"w":value afterwards}
#include "common.hpp"
#include <configor/configor.hpp>
#include "variants.hpp"
#include "natives.hpp"

template <typename T> void run(const std::string& op, const std::string& form, In& in, Out& o)
{
    if (op == "to")
    {
        T x = rd<T>(in);
        V p = build<V>(in);
        o.raw("{\"x\":");
        wr<T>(o, x);
        o.raw(",\"v\":");
        if (form == "c") { const T& y = x; V v(y); show(o, v); }
        else if (form == "m") { V v(std::move(x)); show(o, v); }
        else { p = x; show(o, p); }
        o.raw("}");
        return;
    }
    T    x = rd<T>(in);
    V    w = build<V>(in);
    const V& c = w;
    if (form == "t")
    {
        bool ok = c.get(x);
        o.raw("{\"ok\":").num(ok).raw(",\"x\":");
        wr<T>(o, x);
    }
    else
        try
        {
            T y = form == "g" ? c.get<T>() : implicit<T>(c, std::integral_constant<bool, std::is_convertible<const V&, T>::value>());
            o.raw("{\"ok\":1,\"x\":");
            wr<T>(o, y);
        }
        catch (const std::exception&)
        {
            std::string e = exc_class();
            o.s.clear();
            o.raw(e == "type" || e == "key" || e == "iter" || e == "range" || e == "configor" ? "{\"ok\":0" : "{\"ok\":7").raw(",\"x\":[\"any\"]");
        }
    o.raw(",\"w\":");
    show(o, w);
    o.raw("}");
}
// C arrays: only constructed, assigned and read into
template <typename T, size_t N> void run_carray(const std::string& op, const std::string& form, In& in, Out& o)
{
    T x[N];
    in.word(); in.num();
    for (auto& y : x) y = rd<T>(in);
    V w = build<V>(in);
    auto native = [&] { wr_seq(o, x, x + N); };
    if (op == "to")
    {
        const T(&y)[N] = x;
        o.raw("{\"x\":");
        native();
        o.raw(",\"v\":");
        if (form == "a") { w = y; show(o, w); }
        else { V v(y); show(o, v); }
        o.raw("}");
        return;
    }
    const V& c = w;
    bool ok = c.get(x);
    o.raw("{\"ok\":").num(ok).raw(",\"x\":");
    native();
    o.raw(",\"w\":");
    show(o, w);
    o.raw("}");
}

int main()
{
    using F = std::function<void(const std::string&, const std::string&, In&, Out&)>;
    std::map<std::string, F> tab;
#define TYPE(i, ...) tab[i] = run<__VA_ARGS__>;
#define CARRAY(i, ...) tab[i] = run_carray<__VA_ARGS__>;
#include "types.inc"
    std::string line;
    while (next_case(line))
    {
        In   in(line);
        auto op = in.word(), ty = in.word(), form = in.word();
        Out  o;
        tab.at(ty)(op, form, in, o);
        o.flush();
    }
}
