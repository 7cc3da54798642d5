// large values and texts
//   p <value><unit><source> k piece..      parse a text; piece: r n cps | m i j cps cps cps
//   d <value><unit><sink> step ch esc shape
//   t <value><unit> step ch esc shape      dump and parse back
//   o op shape                             an operation; its results
//   c shape shape                          the six comparisons
// value: n narrow, w wide; unit: 1 char, w wchar_t, 2 char16_t, 4 char32_t
// source: s string, c C string, f FILE, i string stream, w >>, a/A adapter (by character, by blocks); sink: s string, o ostream, a adapter, w <<
// shape: S c n | K c n | A n V | M from n
#include "common.hpp"
#include "variants.hpp"
#include <list>
#include <map>
namespace en = cf::encoding;

template <typename C>
std::basic_string<C> pieces(In& in)
{
    std::vector<long long> r;
    auto add = [&](const std::vector<long long>& x) { r.insert(r.end(), x.begin(), x.end()); };
    auto digits = [&](long long x, size_t w) { auto s = std::to_string(x); while (s.size() < w) s = "0" + s; for (char c : s) r.push_back(c); };
    for (auto k = in.num(); k > 0; --k)
    {
        if (in.word() == "r")
        {
            auto n = in.num();
            auto x = in.nums();
            for (; n > 0; --n) add(x);
        }
        else
        {
            auto i = in.num(), j = in.num();
            auto a = in.nums(), b = in.nums(), c = in.nums();
            for (; i < j; ++i) { add(a); digits(i, 6); add(b); digits(i, 0); add(c); }
        }
    }
    return enc<C>(r);
}
template <typename V>
V shape(In& in)
{
    using S = typename V::string_type;
    const std::string k = in.word();
    auto one = [](long long c) { auto e = enc<typename V::char_type>({ c }); return S(e.begin(), e.end()); };
    if (k == "S" || k == "K")
    {
        auto c = one(in.num());
        auto n = in.num();
        S    s;
        for (; n > 0; --n) s += c;
        if (k == "S") return V(s);
        V v(value_constant::object);
        v.data().object->emplace(s, V());
        return v;
    }
    if (k == "A")
    {
        auto n = in.num();
        V    u = build<V>(in), v(value_constant::array);
        for (; n > 0; --n) v.data().vector->push_back(u);
        return v;
    }
    auto i = in.num(), n = in.num();
    V    v(value_constant::object);
    for (; i < n; ++i)
    {
        S    key;
        auto s = std::to_string(i);
        for (char c : std::string(6 - s.size(), '0') + s) key += static_cast<typename V::char_type>(c);
        v.data().object->emplace(key, V(static_cast<typename V::integer_type>(i)));
    }
    return v;
}

template <typename C, bool BLOCK>
struct Feed : cf::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               i = 0;
    explicit Feed(std::basic_string<C> t) : s(std::move(t)) {}
    C    read() override { return i < s.size() ? s[i++] : C(); }
    void read(C* p, size_t n) override
    {
        if (!BLOCK) return cf::basic_iadapter<C>::read(p, n);
        for (; n; --n) *p++ = read();
    }
};
template <typename C>
struct Take : cf::basic_oadapter<C>
{
    std::basic_string<C> s;
    void write(const C c) override { s.push_back(c); }
    void write(const C* p, size_t n) override { s.append(p, n); }
};

template <typename J, typename C> bool parse_char(typename J::value&, char, const std::basic_string<C>&, std::false_type) { return false; }
template <typename J, typename C> bool parse_char(typename J::value& v, char src, const std::basic_string<C>& text, std::true_type)
{
    if (src == 'f')
    {
        std::FILE* f = std::tmpfile();
        if (fwrite(text.data(), 1, text.size(), f) != text.size()) exit(3);
        rewind(f);
        try { J::template parse<char>(v, f); } catch (...) { fclose(f); throw; }
        fclose(f);
        return true;
    }
    return false;
}
template <typename J, typename C> bool parse_stream(typename J::value&, char, const std::basic_string<C>&, std::false_type) { return false; }
template <typename J, typename C> bool parse_stream(typename J::value& v, char src, const std::basic_string<C>& text, std::true_type)
{
    std::basic_istringstream<C> is(text);
    if (src == 'i') J::template parse<C>(v, is);
    else if (src == 'w') { auto w = J::wrap(v); is >> w; }
    else return false;
    return true;
}
template <typename C> struct std_char : std::integral_constant<bool, std::is_same<C, char>::value || std::is_same<C, wchar_t>::value> {};

template <typename J, typename C> void do_parse(In& in, char src)
{
    typename J::value v(true);
    Out  o;
    auto text = pieces<C>(in);
    try
    {
        if (src == 's') J::template parse<C>(v, text);
        else if (src == 'c') { const C* p = text.c_str(); J::template parse<C>(v, p); }
        else if (src == 'a') { Feed<C, false> f(text + C()); cf::basic_iadapterstream<C> is{ f }; J::template parse<C>(v, is); }
        else if (src == 'A') { Feed<C, true> f(text + C()); cf::basic_iadapterstream<C> is{ f }; J::template parse<C>(v, is); }
        else if (!parse_char<J, C>(v, src, text, std::is_same<C, char>()) && !parse_stream<J, C>(v, src, text, std_char<C>())) exit(3);
        o.raw("{\"v\":");
        show(o, v);
        o.raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}
template <typename J, typename C> bool dump_stream(const typename J::value&, char, std::basic_string<C>&, const std::vector<long long>&, std::false_type) { return false; }
template <typename J, typename C> bool dump_stream(const typename J::value& v, char sink, std::basic_string<C>& text, const std::vector<long long>& op, std::true_type)
{
    using S = typename J::template serializer_type<C>;
    std::basic_ostringstream<C> os;
    if (sink == 'o') J::template dump<C>(os, v, { S::with_indent(static_cast<uint8_t>(op[0]), static_cast<C>(op[1])), S::with_unicode_escaping(op[2] != 0) });
    else if (sink == 'w') { if (op[0]) os << std::setw(static_cast<int>(op[0])) << std::setfill(static_cast<C>(op[1])); os << J::wrap(v); }
    else return false;
    text = os.str();
    return true;
}
template <typename J, typename C> void do_dump(In& in, char sink)
{
    using S = typename J::template serializer_type<C>;
    std::vector<long long> op;
    for (int i = 0; i < 3; ++i) op.push_back(in.num());
    auto v = shape<typename J::value>(in);
    Out  o;
    try
    {
        std::basic_string<C> text;
        auto opts = std::initializer_list<typename S::option>{ S::with_indent(static_cast<uint8_t>(op[0]), static_cast<C>(op[1])), S::with_unicode_escaping(op[2] != 0) };
        if (sink == 's') text = J::template dump<C>(v, opts);
        else if (sink == 'a') { Take<C> t; { cf::basic_oadapterstream<C> os{ t }; J::template dump<C>(os, v, opts); } text = t.s; }
        else if (sink == 't')
        {
            text = J::template dump<C>(v, opts);
            auto b = J::template parse<C>(text);
            o.raw("{\"v\":");
            show(o, b);
            o.raw("}").flush();
            return;
        }
        else if (!dump_stream<J, C>(v, sink, text, op, std_char<C>())) exit(3);
        o.raw("{\"t\":").nums(dec(text)).raw("}");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}

template <typename V> void list(Out& o, const std::vector<V>& r)
{
    bool f = true;
    for (auto& x : r) { if (!f) o.raw(","); f = false; show(o, x); }
}
template <typename V> void elements(Out& o, const std::vector<const V*>& r)
{
    o.raw("[");
    bool f = true;
    for (auto x : r) { if (!f) o.raw(","); f = false; show(o, *x); }
    o.raw("]");
}
template <typename V> V back(const V& v, std::true_type)  // strings and lists of integers
{
    using S = typename V::string_type;
    if (v.is_string()) { S s = v.template get<S>(); return V(s); }
    if (v.is_array())
    {
        auto a = v.template get<std::vector<int>>();
        std::list<int> b;
        v.get(b);
        if (a.size() != b.size() || !std::equal(a.begin(), a.end(), b.begin())) exit(3);
        return V(b);
    }
    auto m = v.template get<std::map<S, int>>();
    return V(m);
}
template <typename V> void do_op(In& in)
{
    const std::string op = in.word();
    Out o;
    V   v = shape<V>(in);
    o.raw("[");
    try
    {
        if (op == "cp") { V c(v); list<V>(o, { v, c }); }
        else if (op == "lone") { V c(v); if (v.is_array() || v.is_object()) v.clear(); v = V(1); list<V>(o, { c }); }
        else if (op == "mv") { V c(std::move(v)); show(o, v); o.raw(","); show(o, c); }
        else if (op == "as") { V c(value_constant::array); c.push_back(V(1)); c = v; list<V>(o, { v, c }); }
        else if (op == "sz") o.num(static_cast<long long>(v.size()));
        else if (op == "fw") { std::vector<const V*> r; for (auto& x : static_cast<const V&>(v)) r.push_back(&x); elements(o, r); }
        else if (op == "rv") { std::vector<const V*> r; for (auto i = v.rbegin(); i != v.rend(); ++i) r.push_back(&*i); elements(o, r); }
        else if (op == "dist") o.num(static_cast<long long>(std::distance(v.begin(), v.end())));
        else if (op == "eh")
        {
            auto m = v.begin();
            for (size_t n = v.size() / 2; n; --n) ++m;
            auto i = v.erase(v.begin(), m);
            long long k = 0;
            for (; i != v.end(); ++i) ++k;
            show(o, v);
            o.raw(",").num(k);
        }
        else if (op == "cl") { v.clear(); show(o, v); }
        else if (op == "grow") { V g; g[v.size()]; show(o, g); }
        else if (op == "push")
        {
            V g;
            if (v.is_array()) for (auto& x : v) g.push_back(x);
            else for (auto i = v.begin(); i != v.end(); ++i) g[i.key()] = *i;
            show(o, g);
        }
        else if (op == "have")
        {
            auto key = [](size_t x) { typename V::string_type k; auto s = std::to_string(x); for (char c : std::string(6 - s.size(), '0') + s) k += static_cast<typename V::char_type>(c); return k; };
            o.num(static_cast<long long>(v.count(key(v.size() - 1)))).raw(",").num(static_cast<long long>(v.count(key(v.size()))));
        }
        else if (op == "conv") { V b = back(v, std::true_type()); show(o, b); }
        else exit(3);
        o.raw("]");
    }
    catch (...) { o.s.clear(); o.raw("{\"x\":").str(exc_class()).raw("}"); }
    o.flush();
}
template <typename V> void do_cmp(In& in)
{
    V   a = shape<V>(in), b = shape<V>(in);
    Out o;
    o.raw("[").num(a == b).raw(",").num(a != b).raw(",").num(a < b).raw(",").num(a <= b).raw(",").num(a > b).raw(",").num(a >= b).raw("]");
    o.flush();
}
template <typename J, typename C> void text(In& in, char k, char x)
{
    if (k == 'p') do_parse<J, C>(in, x);
    else do_dump<J, C>(in, x);
}
template <typename J> void unit(In& in, char k, const std::string& s, std::true_type)
{
    switch (s[1])
    {
    case '1': return text<J, char>(in, k, s[2]);
    case 'w': return text<J, wchar_t>(in, k, s[2]);
#ifdef ALL_UNITS
    case '2': return text<J, char16_t>(in, k, s[2]);
    case '4': return text<J, char32_t>(in, k, s[2]);
#endif
    }
}
int main()
{
    std::string line;
    while (next_case(line))
    {
        In                in(line);
        const std::string k = in.word();
#ifndef NO_OPS
        if (k == "o") { if (in.word() == "w") do_op<cf::wjson::value>(in); else do_op<cf::json::value>(in); }
        else if (k == "c") { if (in.word() == "w") do_cmp<cf::wjson::value>(in); else do_cmp<cf::json::value>(in); }
#endif
#ifndef NO_TEXT
        if (k == "p" || k == "d" || k == "t")
        {
            const std::string s = in.word();
            if (s[0] == 'w') unit<cf::wjson>(in, k[0], s, std::true_type());
            else unit<cf::json>(in, k[0], s, std::true_type());
        }
#endif
    }
    return 0;
}
