// comparisons:  X Y    prints {"r":[== != < <= > >=],"s":[..the same between value and scalar, on copies, with itself..]}
#include "common.hpp"
#include <configor/configor.hpp>
#include "variants.hpp"
#include <limits>
using V = VALUE;

template <typename A, typename B>
static void six(Out& o, const A& a, const B& b)
{
    o.raw("[").num(a == b).raw(",").num(a != b).raw(",").num(a < b).raw(",").num(a <= b).raw(",").num(a > b).raw(",").num(a >= b).raw("]");
}
struct S
{
    Out& o;
    bool first = true;
    template <typename A, typename B> void go(const A& a, const B& b) { if (!first) o.raw(","); first = false; six(o, a, b); }
    template <typename A, typename B> void made(const A& x, const B& y, bool left, std::true_type) { if (left) go(y, x); else go(x, y); }
    template <typename A, typename B> void made(const A&, const B&, bool, std::false_type) {}   // does not compile with this configuration
    // the scalar forms of y
    template <typename A> void scalars(const A& x, const V& y, bool left)
    {
        auto both = [&](auto s) { if (left) go(s, x); else go(x, s); };
        if (y.is_null()) both(nullptr);
        if (y.is_bool()) both(y.data().boolean);
        if (y.is_integer())
        {
            long long i = y.data().integer;
            both(i);
            if (i == (int)i) both((int)i);
            if (i == (short)i) both((short)i);
            if (i == (signed char)i) both((signed char)i);
            if (i >= 0) both((unsigned long long)i);
            if (i == (unsigned)i) both((unsigned)i);
            if (i == (unsigned char)i) both((unsigned char)i);
        }
        if (y.is_floating())
        {
            both(y.data().floating);
            if (y.data().floating == (float)y.data().floating) both((float)y.data().floating);
        }
        if (y.is_string())   // not scalars, but made into a value
        {
            both(*y.data().string);
        }
        if (y.is_array()) made(x, *y.data().vector, left, std::is_convertible<const typename V::array_type&, V>());
        if (y.is_object()) made(x, *y.data().object, left, std::is_convertible<const typename V::object_type&, V>());
        if (y.is_string() && y.data().string->find(V::char_type(0)) == V::string_type::npos) both(y.data().string->c_str());
    }
};

int main()
{
    std::string line;
    while (next_case(line))
    {
        In in(line);
        V  x = build<V>(in), y = build<V>(in);
        Out o;
        o.raw("{\"r\":");
        six(o, x, y);
        o.raw(",\"s\":[");
        S s{ o };
        const V cx = x;
        V       cy(y);
        s.go(cx, cy);
        s.scalars(x, y, false);
        V my(std::move(cy));
        s.go(cx, my);
        if (x.type() == y.type() && !x.is_null())
            switch (x.type())
            {
            case value_constant::array: s.go(*x.data().vector, *y.data().vector); break;
            default: break;
            }
        o.raw("],\"l\":[");
        S t{ o };
        t.scalars(y, x, true);   // x is the scalar, on the left
        o.raw("],\"e\":").num((x == cx) + 2 * (y == my)).raw("}").flush();
    }
}
