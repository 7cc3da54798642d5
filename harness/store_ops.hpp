// locations, operations and stores of values, shared by h_store and h_fault
#pragma once
using V = VALUE;
using C = V::char_type;
using K = V::object_type::key_type;

#ifdef ROOTS_TLS
static thread_local std::vector<V*> roots;
#else
static std::vector<V*> roots;
#endif

static K mkkey(const std::vector<long long>& k) { auto e = enc<C>(k); return K(e.begin(), e.end()); }
struct Step { bool idx; long long i; std::vector<long long> key; K k; };
struct Loc { size_t r; std::vector<Step> p; };



static V& at(const Loc& l)
{
    const V* v = roots[l.r];  // found without writing
    for (auto& s : l.p)
        v = s.idx ? &(*v->data().vector)[size_t(s.i)] : &v->data().object->find(s.k)->second;
    return *const_cast<V*>(v);
}
static Loc read_loc(In& in)
{
    Loc l;
    l.r = size_t(in.num()) - 1;
    auto k = in.num();
    for (; k > 0; --k)
    {
        Step s;
        s.idx = in.word() == "i";
        if (s.idx) s.i = in.num(); else { s.key = in.nums(); s.k = mkkey(s.key); }
        l.p.push_back(s);
    }
    return l;
}
static void put_loc(Out& o, const Loc& l)
{
    o.raw("[").num(static_cast<long long>(l.r) + 1).raw(",[");
    for (size_t i = 0; i < l.p.size(); ++i)
    {
        if (i) o.raw(",");
        if (l.p[i].idx) o.raw("[\"i\",").num(l.p[i].i).raw("]");
        else o.raw("[\"k\",").nums(l.p[i].key).raw("]");
    }
    o.raw("]]");
}
static void put_store(Out& o)
{
    o.raw("[");
    for (size_t i = 0; i < roots.size(); ++i) { if (i) o.raw(","); show(o, *roots[i]); }
    o.raw("]");
}
static size_t nodes(const V& v)
{
    size_t n = 1;
    if (v.is_array()) for (auto& x : *v.data().vector) n += nodes(x);
    if (v.is_object()) for (auto& x : *v.data().object) n += nodes(x.second);
    return n;
}
static bool covers(const Loc& a, const Loc& b)
{
    if (a.r != b.r || a.p.size() > b.p.size()) return false;
    for (size_t i = 0; i < a.p.size(); ++i)
        if (a.p[i].idx != b.p[i].idx || (a.p[i].idx ? a.p[i].i != b.p[i].i : a.p[i].key != b.p[i].key)) return false;
    return true;
}

struct Op
{
    std::string n;
    Loc         l, a;           // a: location argument
    long long   i = 0;          // index argument
    std::vector<long long> key; // key argument
    V           lit;            // literal argument
    K           k;              // the key
};
static bool has_loc(const std::string& n) { return n == "cp" || n == "mv" || n == "sw" || n == "cc" || n == "mc" || n == "pb" || n == "pm"; }
static bool has_lit(const std::string& n) { return n == "set" || n == "pv" || n == "eb" || n == "ma" || n == "mo"; }
static bool has_none(const std::string& n) { return n == "nul" || n == "sz" || n == "em" || n == "ty" || n == "cl"; }
static bool has_idx(const std::string& n) { return n == "ix" || n == "ci" || n == "ai" || n == "ei" || n == "mt" || n == "hx" || n == "hc" || n == "ha"; }

// what an operation gave; kept without allocating
struct Res
{
    char        kind = '?';  // o ok, v value, n number, x exception
    const V*    v    = nullptr;
    long long   n    = 0;
    const char* x    = "";
    void put(Out& o) const
    {
        if (kind == 'o') o.raw("[\"ok\"]");
        else if (kind == 'v') { o.raw("[\"v\","); show(o, *v); o.raw("]"); }
        else if (kind == 'n') o.raw("[\"n\",").num(n).raw("]");
        else o.raw("[\"x\",").str(x).raw("]");
    }
};
static void num(Res& r, long long n) { r.kind = 'n'; r.n = n; }
static void val(Res& r, const V& v) { r.kind = 'v'; r.v = &v; }

static void run(Op& op, Res& o)
{
    const std::string& n = op.n;
    try
    {
        o.kind = 'o';
        if (n == "cc" || n == "mc")
        {
            V* x = n == "cc" ? new V(static_cast<const V&>(at(op.a))) : new V(std::move(at(op.a)));
            delete roots[op.l.r];
            roots[op.l.r] = x;
            return;
        }
        V&       v = at(op.l);
        const V& c = v;
        if (n == "cp") { v = static_cast<const V&>(at(op.a)); }
        else if (n == "mv") { v = std::move(at(op.a)); }
        else if (n == "sw") { v.swap(at(op.a)); }
        else if (n == "set") { v = V(op.lit); }
        else if (n == "nul") { v = nullptr; }
        else if (n == "mt") { v = value_constant::type(op.i); }
        else if (n == "ma")
        {
            auto& e = *op.lit.data().vector;
            if (e.empty()) v = cf::make_array<V>({});
            else if (e.size() == 1) v = cf::make_array<V>({ e[0] });
            else if (e.size() == 2) v = cf::make_array<V>({ e[0], e[1] });
            else v = cf::make_array<V>({ e[0], e[1], e[2] });
        }
        else if (n == "mo")
        {
            auto& e = *op.lit.data().vector;
            if (e.empty()) v = cf::make_object<V>({});
            else if (e.size() == 2) v = cf::make_object<V>({ { *e[0].data().string, e[1] } });
            else v = cf::make_object<V>({ { *e[0].data().string, e[1] }, { *e[2].data().string, e[3] } });
        }
        else if (n == "ix") val(o, v[size_t(op.i)]);
        else if (n == "ci") val(o, c[size_t(op.i)]);
        else if (n == "ai") val(o, c.at(size_t(op.i)));
        else if (n == "hx" || n == "hc" || n == "ha")
        {
            // no array can be so long; whether a null has become an empty array is left open
            const size_t i = op.i == 0 ? SIZE_MAX : op.i == 1 ? SIZE_MAX - 1 : SIZE_MAX / 16 + 1;
            const bool   null = v.is_null();
            try { val(o, n == "hx" ? v[i] : n == "hc" ? c[i] : c.at(i)); }
            catch (const std::length_error&) { o.kind = 'x'; o.x = "long"; }
            if (null && v.is_array() && v.empty()) v = nullptr;
        }
        else if (n == "ik") val(o, v[op.k]);
        else if (n == "ck") val(o, c[op.k]);
        else if (n == "ak") val(o, c.at(op.k));
        else if (n == "iC") { val(o, v[op.k.c_str()]); }
        else if (n == "cC") { val(o, c[op.k.c_str()]); }
        else if (n == "aC") { val(o, c.at(op.k.c_str())); }
        else if (n == "sz") num(o, static_cast<long long>(c.size()));
        else if (n == "em") num(o, c.empty());
        else if (n == "ty")
        {
            int t = c.is_null() ? 0 : c.is_integer() ? 1 : c.is_floating() ? 2 : c.is_string() ? 3 : c.is_array() ? 4 : c.is_object() ? 5 : c.is_bool() ? 6 : 9;
            int k = c.is_null() + c.is_integer() + c.is_floating() + c.is_string() + c.is_array() + c.is_object() + c.is_bool();
            bool num_ok = c.is_number() == (c.is_integer() || c.is_floating());
            num(o, k == 1 && num_ok && int(c.type()) == t ? t : 99);
        }
        else if (n == "ct") num(o, static_cast<long long>(c.count(op.k)));
        else if (n == "fd") { auto it = v.find(op.k); if (it == v.end()) num(o, 0); else if (it.key() == op.k) val(o, it.value()); else num(o, 77); }
        else if (n == "fc") { auto it = c.find(op.k); if (it == c.end()) num(o, 0); else if (it.key() == op.k) val(o, *it); else num(o, 77); }
        else if (n == "ek") num(o, static_cast<long long>(v.erase(op.k)));
        else if (n == "ei") { v.erase(size_t(op.i)); }
        else if (n == "pv") { v.push_back(V(op.lit)); }
        else if (n == "eb")
        {
            switch (op.lit.type())
            {
            case value_constant::boolean: v.emplace_back(op.lit.data().boolean); break;
            case value_constant::integer: v.emplace_back(op.lit.data().integer); break;
            case value_constant::floating: v.emplace_back(op.lit.data().floating); break;
            case value_constant::null: v.emplace_back(); break;
            case value_constant::string: v.emplace_back(V(*op.lit.data().string)); break;
            default: v.emplace_back(op.lit);
            }
        }
        else if (n == "pb") { v.push_back(static_cast<const V&>(at(op.a))); }
        else if (n == "pm") { v.push_back(std::move(at(op.a))); }
        else if (n == "cl") { v.clear(); }
        else { fprintf(stderr, "harness: op %s\n", n.c_str()); exit(3); }
    }
    catch (...)
    {
        o.kind = 'x';
        o.x    = exc_class();
    }
}

static Loc resolve(size_t r, unsigned long long x)
{
    Loc l;
    l.r = r % roots.size();
    const V* v = roots[l.r];
    while (x % 4 != 0)
    {
        x /= 4;
        Step s;
        if (v->is_array() && v->size())
        {
            s.idx = true; s.i = static_cast<long long>(x % v->size());
            x /= v->size();
            v = &(*v->data().vector)[size_t(s.i)];
        }
        else if (v->is_object() && v->size())
        {
            auto it = v->data().object->begin();
            std::advance(it, static_cast<long>(x % v->size()));
            x /= v->size();
            s.idx = false; s.key = cps_of(it->first); s.k = it->first;
            v = &it->second;
        }
        else break;
        l.p.push_back(s);
    }
    return l;
}

// reads an operation
static void read_op(In& in, Op& op)
{
    op.n = in.word();
    op.l = read_loc(in);
    if (has_loc(op.n)) op.a = read_loc(in);
    else if (has_lit(op.n)) op.lit = build<V>(in);
    else if (has_idx(op.n)) op.i = in.num();
    else if (!has_none(op.n)) { op.key = in.nums(); op.k = mkkey(op.key); }
}
static void put_op(Out& o, const Op& op)
{
    o.raw("[").str(op.n).raw(",");
    put_loc(o, op.l);
    o.raw(",");
    if (has_loc(op.n)) put_loc(o, op.a);
    else if (has_lit(op.n)) show(o, op.lit);
    else if (has_none(op.n)) o.num(0);
    else if (has_idx(op.n)) o.num(op.i);
    else o.nums(op.key);
    o.raw("]");
}
// an operation from random numbers, resolved against the actual values; false: none
static bool random_op(In& in, Op& op)
{
    static const char* names[] = { "cp", "mv", "sw", "cc", "mc", "set", "nul", "mt", "ma", "mo", "ix", "ik", "iC", "ci", "ai", "ck", "ak", "cC", "aC", "sz", "em", "ty", "ct", "fd", "fc", "ek", "ei", "pv", "eb", "pb", "pm", "cl",
                                   "cp", "mv", "sw", "cp", "mv", "cp", "pb", "pm" };
    static const char* const keys[] = { "a", "b", "c", "" };
    op.n = names[size_t(in.num()) % (sizeof names / sizeof *names)];
    auto a = static_cast<unsigned long long>(in.num()), b = static_cast<unsigned long long>(in.num()), c = static_cast<unsigned long long>(in.num());
    op.l = resolve(a % 97, b);
    const long long is[] = { 0, 1, 2, 3, 0, 1, 2, 17 }, size = static_cast<long long>(at(op.l).size());
    op.i = op.n == "mt" ? static_cast<long long>(c % 7) : c % 8 == 4 ? size - (size > 0) : c % 8 == 5 ? size : c % 8 == 6 ? size + 1 : is[c % 8];
    op.key.assign(keys[c % 4], keys[c % 4] + std::strlen(keys[c % 4]));
    op.k = mkkey(op.key);
    if (op.n == "cc" || op.n == "mc") op.l.p.clear();
    if (has_loc(op.n)) op.a = resolve(a / 97, c);
    if (op.n == "ma") op.lit = cf::make_array<V>({ V(nullptr), V(mkkey({ 97 })) });
    else if (op.n == "mo") op.lit = cf::make_array<V>({ V(mkkey({ 98 })), V(true), V(mkkey(c % 2 ? std::vector<long long>{ 97 } : std::vector<long long>{ 98 })), V(nullptr) });
    else if (has_lit(op.n))
    {
        switch (c % 8)
        {
        case 0: break;
        case 1: op.lit = true; break;
        case 2: op.lit = static_cast<V::integer_type>(c % 1000); break;
        case 3: op.lit = static_cast<V::float_type>(1.5); break;
        case 4: op.lit = mkkey({ 120, 121, 122, 97, 98, 99, 120, 121, 122, 97, 98, 99, 120, 121, 122, 97, 98, 99, 120, 233 }); break;
        case 5: op.lit = value_constant::array; op.lit.data().vector->push_back(V(nullptr)); break;
        case 6: op.lit = value_constant::object; op.lit.data().object->emplace(mkkey({ 97 }), V(false)); break;
        case 7: op.lit = mkkey({}); break;
        }
    }
    size_t total = 0;
    for (auto r : roots) total += nodes(*r);
    V& v = at(op.l);
    if (op.n == "mv" && covers(op.a, op.l) && !covers(op.l, op.a)) return false;
    if (op.n == "sw" && covers(op.a, op.l) != covers(op.l, op.a)) return false;
    if (op.n == "pb" && v.is_null() && covers(op.a, op.l)) return false;
    if (op.n == "pm" && covers(op.a, op.l)) return false;
    if (op.n == "ei" && v.is_array() && size_t(op.i) >= v.size()) return false;
    if (has_loc(op.n) && total + nodes(at(op.a)) > 60) return false;
    if (total > 65 && op.n != "cl" && op.n != "nul" && op.n != "mv" && op.n != "sw") return false;
    return true;
}
