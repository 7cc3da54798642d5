// conversions between native objects and values with failing allocations: every allocation fails in turn
//   to <type> <form> NATIVE PRIOR  -> {"x":native,"ok":value,"f":[[class or "ok",target afterwards,result of a repetition]..],"n":..,"leak":..}
//   from <type> <form> NATIVE V    -> {"ok":[0|1|class,native],"f":[[0|1|class,native,value afterwards,repetition]..],"n":..,"leak":..}
//   (forms as in h_convert)
#define COUNT_ALLOC
#include "common.hpp"
#include <configor/configor.hpp>
#include "variants.hpp"
#include "natives.hpp"

static void arm(long k) { auto& s = AS(); s.count = 0; s.failed = false; s.fail = k; }
static bool disarm() { AS().fail = -1; return AS().failed; }

template <typename T> struct To
{
    T  x;
    V  p;
    V* v = nullptr;
    char form;
    const char* cls = "ok";
    To(In& in, char f) : x(rd<T>(in)), p(build<V>(in)), form(f) {}
    ~To() { delete v; }
    void go()
    {
        cls = "ok";
        try
        {
            if (form == 'c') { const T& y = x; v = new V(y); }
            else if (form == 'm') v = new V(std::move(x));
            else p = x;
        }
        catch (...) { cls = exc_class(); }
    }
    void put(Out& o) { if (v) show(o, *v); else if (form == 'a') show(o, p); else o.raw("[\"none\"]"); }
};
template <typename T> struct From
{
    T    x;
    V    w;
    T*   y = nullptr;
    char form;
    const char* cls = "1";
    From(In& in, char f) : x(rd<T>(in)), w(build<V>(in)), form(f) {}
    ~From() { delete y; }
    void go()
    {
        const V& c = w;
        cls = "1";
        try
        {
            if (form == 't') cls = c.get(x) ? "1" : "0";
            else if (form == 'g') y = new T(c.get<T>());
            else y = new T(implicit<T>(c, std::integral_constant<bool, std::is_convertible<const V&, T>::value>()));
        }
        catch (...) { cls = exc_class(); }
    }
    void put(Out& o) { if (form == 't') wr<T>(o, x); else if (y) wr<T>(o, *y); else o.raw("[\"any\"]"); }
};

template <typename T> void run(const std::string& line, bool to, char form)
{
    Out o, e;
    o.s.reserve(1 << 20);
    e.s.reserve(1 << 16);
    std::vector<std::string> seen;
    seen.reserve(64);
    long leak = 0, n = 0;
    bool any = false;
    o.raw("{");
    std::string fs;
    fs.reserve(1 << 18);
    for (long k = 0;; ++k)
    {
        bool hit;
        const bool first = k == 0;
        long live0 = 0;
        {
            In in(line);
            for (int i = 0; i < 3; ++i) in.word();
            live0 = AS().live;
            e.s.clear();
            if (to)
            {
                To<T> a(in, form);
                if (first) { o.raw("\"x\":"); wr<T>(o, a.x); o.raw(","); }
                arm(k);
                a.go();
                hit = disarm();
                e.raw("[").str(a.cls).raw(",");
                a.put(e);
                if (hit && form != 'm' && std::strcmp(a.cls, "ok"))
                {
                    a.go();
                    e.raw(",");
                    a.put(e);
                }
                else e.raw(",0");
                e.raw("]");
            }
            else
            {
                From<T> a(in, form);
                arm(k);
                a.go();
                hit = disarm();
                e.raw("[").str(a.cls).raw(",");
                a.put(e);
                e.raw(",");
                show(e, a.w);
                if (hit)
                {
                    In again(line);
                    for (int i = 0; i < 3; ++i) again.word();
                    From<T> b(again, form);
                    b.w = V(nullptr);
                    b.w.swap(a.w);
                    b.go();
                    e.raw(",[").str(b.cls).raw(",");
                    b.put(e);
                    e.raw("]");
                }
                e.raw("]");
            }
            leak += AS().live - live0;
        }
        if (!hit) break;
        ++n;
        bool known = false;
        for (auto& s : seen) if (s == e.s) known = true;
        if (known) continue;
        seen.push_back(e.s);
        if (any) fs += ",";
        any = true;
        fs += e.s;
    }
    o.raw("\"ok\":").raw(e.s).raw(",\"f\":[").raw(fs).raw("],\"n\":").num(n).raw(",\"leak\":").num(leak).raw("}").flush();
}

int main()
{
    using F = void (*)(const std::string&, bool, char);
    std::map<std::string, F> tab;
#define TYPE(i, ...) tab[i] = run<__VA_ARGS__>;
#define CARRAY(i, ...)
#include "types.inc"
    std::string line;
    while (next_case(line))
    {
        In   in(line);
        auto op = in.word(), ty = in.word(), form = in.word();
        tab.at(ty)(line, op == "to", form[0]);
    }
}
