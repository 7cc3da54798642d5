// typed reads:  <form> <kind> <ctype> V X    ctype selects among the C++ types of a kind (0: the value's own type)
// prints {"r":outcome,"w":value afterwards}
#include "common.hpp"
#include <configor/configor.hpp>
#include "variants.hpp"
using V = VALUE;

template <typename T> struct is_arr : std::is_same<T, V::array_type> {};

// a class made from and into a string
struct Name
{
    V::string_type s;
    Name() {}
    Name(V::string_type x) : s(std::move(x)) {}
    operator V::string_type() const { return s; }
};

// showing plain content
static void content(Out& o, bool b) { o.raw(b ? "[\"b\",1]" : "[\"b\",0]"); }
template <typename T> static typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type content(Out& o, T i) { o.raw("[\"i\","); put_int(o, (long long)i); o.raw("]"); }
template <typename T> static typename std::enable_if<std::is_floating_point<T>::value>::type content(Out& o, T f) { o.raw("[\"d\","); put_flt(o, static_cast<V::float_type>(f)); o.raw("]"); }
static void content(Out& o, const V::string_type& s) { o.raw("[\"s\",").nums(cps_of(s)).raw("]"); }
static void content(Out& o, const Name& n) { content(o, n.s); }
static void content(Out& o, const V::array_type& a)
{
    o.raw("[\"a\",[");
    bool first = true;
    for (auto& x : a) { if (!first) o.raw(","); first = false; show(o, x); }
    o.raw("]]");
}
static void content(Out& o, const V::object_type& a)
{
    o.raw("[\"o\",[");
    bool first = true;
    for (auto& x : a) { if (!first) o.raw(","); first = false; o.raw("[").nums(cps_of(x.first)).raw(","); show(o, x.second); o.raw("]"); }
    o.raw("]]");
}
static void content(Out& o, const V& v) { show(o, v); }

// what a plain variable holds, taken from a value of that kind
template <typename T> static T from(const V& v, bool*) { return T(v.data().boolean); }
template <typename T> static typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value, T>::type plain(const V& v) { return T(v.data().integer); }
template <typename T> static typename std::enable_if<std::is_floating_point<T>::value, T>::type plain(const V& v) { return T(v.data().floating); }
template <typename T> static typename std::enable_if<std::is_same<T, bool>::value, T>::type plain(const V& v) { return v.data().boolean; }
template <typename T> static typename std::enable_if<std::is_same<T, V::string_type>::value || std::is_same<T, Name>::value, T>::type plain(const V& v) { return *v.data().string; }
template <typename T> static typename std::enable_if<std::is_same<T, V::array_type>::value, T>::type plain(const V& v) { return *v.data().vector; }
template <typename T> static typename std::enable_if<std::is_same<T, V::object_type>::value, T>::type plain(const V& v) { return *v.data().object; }
template <typename T> static typename std::enable_if<std::is_same<T, V>::value, T>::type plain(const V& v) { return v; }

template <typename T> static void yes(Out& o, const T& x) { o.raw("[\"v\","); content(o, x); o.raw("]"); }
template <typename T> static void ptr(Out& o, const T* p) { if (p) yes(o, *p); else o.raw("[\"null\"]"); }

template <typename T>
static void plain_forms(Out& o, const std::string& f, V& v, const V& x)
{
    const V& c = v;
    if (f == "get") yes(o, c.get<T>());
    else if (f == "imp") { T t = c; yes(o, t); }
    else if (f == "try") { T t = plain<T>(x); bool b = c.get(t); o.raw("[\"t\",").num(b).raw(","); content(o, t); o.raw("]"); }
    else { fprintf(stderr, "harness: form\n"); exit(3); }
}
template <typename T>
static void all_forms(Out& o, const std::string& f, V& v, const V& x)
{
    const V& c = v;
    if (f == "ref") yes(o, v.get<T&>());
    else if (f == "nref") yes(o, v.get<const T&>());
    else if (f == "cref") yes(o, c.get<const T&>());
    else if (f == "wref") { v.get<T&>() = plain<T>(x); o.raw("[\"ok\"]"); }
    else if (f == "ptr") ptr(o, v.get<T*>());
    else if (f == "nptr") ptr(o, v.get<const T*>());
    else if (f == "cptr") ptr(o, c.get<const T*>());
    else if (f == "gptr") ptr(o, v.get_ptr<T*>());
    else if (f == "gcptr") ptr(o, c.get_ptr<const T*>());
    else if (f == "tptr") { const T* p = reinterpret_cast<const T*>(&v); c.get(p); ptr(o, p); }
    else if (f == "wptr") { auto p = v.get<T*>(); if (p) { *p = plain<T>(x); o.raw("[\"ok\"]"); } else o.raw("[\"null\"]"); }
    else plain_forms<T>(o, f, v, x);
}

int main()
{
    std::string line;
    while (next_case(line))
    {
        In          in(line);
        std::string f = in.word(), k = in.word();
        auto        ct = in.num();
        V           v = build<V>(in), x = build<V>(in);
        Out         o;
        o.raw("{\"r\":");
        size_t mark = o.s.size();
        try
        {
            if (k == "b") all_forms<bool>(o, f, v, x);
            else if (k == "s" && ct == 1) plain_forms<Name>(o, f, v, x);
            else if (k == "s") all_forms<V::string_type>(o, f, v, x);
            else if (k == "a") all_forms<V::array_type>(o, f, v, x);
            else if (k == "o") all_forms<V::object_type>(o, f, v, x);
            else if (k == "v") plain_forms<V>(o, f, v, x);
            else if (k == "i")
                switch (ct)
                {
                case 0: all_forms<V::integer_type>(o, f, v, x); break;
                case 1: plain_forms<int>(o, f, v, x); break;
                case 2: plain_forms<short>(o, f, v, x); break;
                case 3: plain_forms<signed char>(o, f, v, x); break;
                case 4: plain_forms<long long>(o, f, v, x); break;
                case 5: plain_forms<unsigned>(o, f, v, x); break;
                case 6: plain_forms<unsigned long long>(o, f, v, x); break;
                case 7: plain_forms<unsigned char>(o, f, v, x); break;
                }
            else
                switch (ct)
                {
                case 0: all_forms<V::float_type>(o, f, v, x); break;
                case 1: plain_forms<float>(o, f, v, x); break;
                case 2: plain_forms<long double>(o, f, v, x); break;
                case 3: plain_forms<double>(o, f, v, x); break;
                }
        }
        catch (...) { o.s.resize(mark); o.raw("[\"x\",").str(exc_class()).raw("]"); }
        o.raw(",\"w\":");
        show(o, v);
        o.raw("}").flush();
    }
}
