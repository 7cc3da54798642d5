// streams over adapters
//   i <kind> n units.. k {op n delim}..    input;  kind: adapter that supplies single characters (s) or also blocks (b)
//   o <kind> k {op n units..}..            output
// prints {"r":[[chars,count,failed],..]} / {"r":[received]}
#include "common.hpp"
#include <algorithm>
#include <iterator>
#ifdef WIDE
using C = wchar_t;
#else
using C = char;
#endif
using Str = std::basic_string<C>;
using U = std::make_unsigned<C>::type;
static long long iu(std::char_traits<C>::int_type c) { return static_cast<long long>(c); }
static long long u(C c) { return static_cast<long long>(static_cast<U>(c)); }

struct Single : cf::basic_iadapter<C>
{
    Str s; size_t p = 0;
    using cf::basic_iadapter<C>::read;
    C read() override { return p < s.size() ? s[p++] : (++p, C(0)); }
};
struct Block : Single
{
    using Single::read;
    void read(C* d, size_t n) override { for (size_t i = 0; i < n; ++i) d[i] = Single::read(); }
};
struct OSingle : cf::basic_oadapter<C>
{
    Str s;
    using cf::basic_oadapter<C>::write;
    void write(const C c) override { s.push_back(c); }
};
struct OBlock : OSingle
{
    using OSingle::write;
    void write(const C* d, size_t n) override { s.append(d, n); }
};

static void input(In& in, Out& o)
{
    auto   kind = in.word();
    Single a;
    Block  b;
    Single& ad = kind == "b" ? static_cast<Single&>(b) : a;
    ad.s = units<C>(in.nums());
    cf::basic_iadapterstream<C> is{ ad };
    using T = std::char_traits<C>;
    auto k = in.num();
    o.raw("{\"r\":[");
    for (long long j = 0; j < k; ++j)
    {
        auto op = in.word();
        auto n  = in.num();
        C    d  = static_cast<C>(in.num());
        Str  got;
        long long one = -1;  // a single character obtained as an int
        long long cnt = 0;
        std::vector<C> buf(static_cast<size_t>(n) + 2, C(1));
        auto* sb = is.rdbuf();
        if (op == "bump") { one = iu(sb->sbumpc()); cnt = 1; }
        else if (op == "get") { one = iu(is.get()); cnt = is.gcount(); }
        else if (op == "getc") { C c = 1; is.get(c); got.push_back(c); cnt = is.gcount(); }
        else if (op == "it1") { std::istreambuf_iterator<C> i(is); got.push_back(*i); ++i; cnt = 1; }
        else if (op == "peek") { one = iu(is.peek()); }
        else if (op == "sgetc") { one = iu(sb->sgetc()); }
        else if (op == "snext") { one = iu(sb->snextc()); }
        else if (op == "read") { is.read(buf.data(), n); cnt = is.gcount(); got.assign(buf.data(), static_cast<size_t>(n)); }
        else if (op == "sgetn") { cnt = sb->sgetn(buf.data(), n); got.assign(buf.data(), static_cast<size_t>(n)); }
        else if (op == "it") { std::istreambuf_iterator<C> i(is); for (long long q = 0; q < n; ++q) { got.push_back(*i); i++; } cnt = n; }
        else if (op == "ign") { is.ignore(n); cnt = is.gcount(); }
        else if (op == "ignd") { is.ignore(n, T::to_int_type(d)); cnt = is.gcount(); }
        else if (op == "gl") { is.getline(buf.data(), n, d); cnt = is.gcount(); got.assign(buf.data(), static_cast<size_t>(cnt - (is.fail() ? 0 : 1))); if (buf[got.size()] != C(0)) cnt = -7; }
        else if (op == "gb") { is.get(buf.data(), n, d); cnt = is.gcount(); got.assign(buf.data(), static_cast<size_t>(cnt)); if (buf[got.size()] != C(0)) cnt = -7; }
        else if (op == "gs") { std::getline(is, got, d); cnt = static_cast<long long>(got.size()) + 1; }
        else if (op == "ws") { C c = 1; is >> c; got.push_back(c); cnt = 1; }
        else { fprintf(stderr, "op %s\n", op.c_str()); exit(3); }
        if (j) o.raw(",");
        o.raw("[[");
        if (op == "bump" || op == "get" || op == "peek" || op == "sgetc" || op == "snext") o.num(one);
        for (size_t q = 0; q < got.size(); ++q) { if (q) o.raw(","); o.num(u(got[q])); }
        o.raw("],").num(cnt).raw(",").num(is.good() ? 0 : (is.fail() && !is.bad() && !is.eof()) ? 1 : 2).raw("]");
        is.clear();
    }
    o.raw("]}");
}
static void output(In& in, Out& o)
{
    auto    kind = in.word();
    OSingle a;
    OBlock  b;
    OSingle& ad = kind == "b" ? static_cast<OSingle&>(b) : a;
    cf::basic_oadapterstream<C> os{ ad };
    auto k = in.num();
    for (long long j = 0; j < k; ++j)
    {
        auto op = in.word();
        Str  t = units<C>(in.nums());
        if (op == "put") os.put(t[0]);
        else if (op == "sputc") os.rdbuf()->sputc(t[0]);
        else if (op == "insc") os << t[0];
        else if (op == "write") os.write(t.data(), static_cast<std::streamsize>(t.size()));
        else if (op == "sputn") os.rdbuf()->sputn(t.data(), static_cast<std::streamsize>(t.size()));
        else if (op == "ins") os << t;
        else if (op == "oit") std::copy(t.begin(), t.end(), std::ostreambuf_iterator<C>(os));
        else if (op == "flush") os.flush();
        else { fprintf(stderr, "op %s\n", op.c_str()); exit(3); }
    }
    o.raw("{\"r\":[");
    for (size_t q = 0; q < ad.s.size(); ++q) { if (q) o.raw(","); o.num(u(ad.s[q])); }
    if (!os.good()) o.raw(ad.s.empty() ? "-1" : ",-1");
    o.raw("]}");
}
int main()
{
    std::string line;
    while (next_case(line))
    {
        In  in(line);
        Out o;
        if (in.word() == "i") input(in, o);
        else output(in, o);
        o.flush();
    }
}
