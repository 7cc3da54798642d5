// the indented dump of a single leaf inside very many layers, looked at line by line while it is written
//   <N> <step> <character> <n> line..   -> {"lines":[[number,width,rest]..],"total":lines,"x":class?}
// layer d (from the outside) is an object with key "k" when d is a multiple of 3, else an array
#include "common.hpp"
#include "variants.hpp"
#include <pthread.h>
using V = VALUE;
using J = JSON;
struct Lines : std::streambuf
{
    char                   ind;
    std::vector<long long> want;
    size_t                 next = 0;
    long long              line = 0, width = 0;
    bool                   lead = true;
    std::string            rest;
    Out                    o;
    void done()
    {
        if (next < want.size() && want[next] == line)
        {
            if (next) o.raw(",");
            o.raw("[").num(line).raw(",").num(width).raw(",").nums(cps_of(rest)).raw("]");
            ++next;
        }
        ++line; width = 0; lead = true; rest.clear();
    }
    void one(char c)
    {
        if (c == '\n') done();
        else if (lead && c == ind) ++width;
        else { lead = false; rest.push_back(c); }
    }
    int overflow(int c) override { one(static_cast<char>(c)); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i)
        {
            if (lead)  // quickly over the indentation
            {
                auto j = i;
                while (j < n && s[j] == ind) ++j;
                width += j - i;
                i = j;
                if (i == n) break;
            }
            one(s[i]);
        }
        return n;
    }
};
static std::string line;
static void*       work(void*)
{
    In    in(line);
    auto  N = in.num(), step = in.num(), ch = in.num();
    Lines b;
    b.ind  = static_cast<char>(ch);
    b.want = in.nums();
    V v(1);
    for (auto d = N - 1; d >= 0; --d)
    {
        V w = d % 3 ? value_constant::array : value_constant::object;
        if (d % 3) { w.data().vector->emplace_back(); w.data().vector->back().swap(v); }
        else (*w.data().object)["k"].swap(v);
        w.swap(v);
    }
    std::ostream os(&b);
    b.o.raw("{\"lines\":[");
    const char* x = nullptr;
    try { J::dump<char>(os, v, { J::serializer_type<char>::with_indent(static_cast<uint8_t>(step), static_cast<char>(ch)) }); }
    catch (...) { x = exc_class(); }
    b.done();
    b.o.raw("],\"total\":").num(b.line);
    if (x) b.o.raw(",\"x\":").str(x);
    b.o.raw("}").flush();
    return nullptr;
}
int main()
{
    while (next_case(line))
    {
        alarm(300);  // gigabytes are written
        pthread_attr_t a;
        pthread_attr_init(&a);
        pthread_attr_setstacksize(&a, size_t(1) << 30);
        pthread_t t;
        if (pthread_create(&t, &a, work, nullptr)) exit(3);
        pthread_join(t, nullptr);
    }
}
