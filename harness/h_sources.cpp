// documents read from every kind of source
//   <unit><source> <target> type prior text nops op..
//   unit: 1 char/UTF-8, 2 char16_t, 4 char32_t, w wchar_t/UTF-32, v wchar_t/UTF-16
//   source: s string, c C string, f FILE, i string stream, p chunked stream buffer, a/b adapter by characters/blocks ending in NUL, A/B ending in eof
//   target: d default encodings, e all encodings named, x UTF-16 held in the (wide) value,
//           u an encoding of the user's that peeks and reads blocks of units, n one that reads blocks without looking
#include "common.hpp"
#include "variants.hpp"
#include <array>
#include <clocale>
#include <cwchar>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
using V = VALUE;
using S = V::string_type;
using J = JSON;
namespace en = cf::encoding;

struct Rec
{
    int a = 0;
    S   b;
    CONFIGOR_BIND(V, Rec, REQUIRED(a, TXT("a")), OPTIONAL(b, TXT("b")))
};

// natives
void nat(Out& o, int x) { o.raw("[\"i\","); put_int(o, static_cast<long long>(x)); o.raw("]"); }
void nat(Out& o, bool x) { o.raw(x ? "[\"b\",1]" : "[\"b\",0]"); }
void nat(Out& o, const S& x) { o.raw("[\"s\",").nums(cps_of(x)).raw("]"); }
template <typename It> void nats(Out& o, It b, It e);
void nat(Out& o, const std::vector<int>& x) { nats(o, x.begin(), x.end()); }
void nat(Out& o, const std::array<int, 2>& x) { nats(o, x.begin(), x.end()); }
void nat(Out& o, const std::map<S, std::vector<int>>& x)
{
    o.raw("[\"o\",[");
    bool f = true;
    for (auto& p : x) { if (!f) o.raw(","); f = false; o.raw("[").nums(cps_of(p.first)).raw(","); nat(o, p.second); o.raw("]"); }
    o.raw("]]");
}
void nat(Out& o, const Rec& x) { o.raw("[\"r\",["); nat(o, x.a); o.raw(","); nat(o, x.b); o.raw("]]"); }
template <typename It> void nats(Out& o, It b, It e)
{
    o.raw("[\"a\",[");
    for (bool f = true; b != e; ++b, f = false) { if (!f) o.raw(","); nat(o, *b); }
    o.raw("]]");
}
void prior(int& x) { x = 77; }
void prior(bool& x) { x = true; }
void prior(S& x) { x = TXT("old"); }
void prior(std::vector<int>& x) { x = { 1, 2 }; }
void prior(std::array<int, 2>& x) { x = { { 3, 4 } }; }
void prior(std::map<S, std::vector<int>>& x) { x[TXT("z")] = { 9 }; }
void prior(Rec& x) { x.a = 5; x.b = TXT("old"); }

// values that hold UTF-16 in wide strings, as code points
void widen(V& v)
{
    auto fix = [](const S& s) { std::u16string u; for (auto c : s) u.push_back(static_cast<char16_t>(c)); auto d = dec(u); S r; for (auto c : d) r.push_back(static_cast<V::char_type>(c)); return r; };
    if (v.type() == value_constant::string) *v.data().string = fix(*v.data().string);
    else if (v.type() == value_constant::array) for (auto& x : *v.data().vector) widen(x);
    else if (v.type() == value_constant::object)
    {
        V w(value_constant::object);
        for (auto& p : *v.data().object) { V c = p.second; widen(c); w.data().object->emplace(fix(p.first), c); }
        v = w;
    }
}

template <typename C>
struct ChunkBuf : std::basic_streambuf<C>
{
    using T = std::char_traits<C>;
    std::basic_string<C> s;
    size_t               pos = 0, k = 0;
    explicit ChunkBuf(std::basic_string<C> t) : s(std::move(t)) {}
    typename T::int_type underflow() override
    {
        if (this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (pos >= s.size()) return T::eof();
        static const size_t N[] = { 1, 3, 2, 7, 1, 64 };
        size_t n = std::min(N[k++ % 6], s.size() - pos);
        this->setg(&s[pos], &s[pos], &s[pos] + n);
        pos += n;
        return T::to_int_type(*this->gptr());
    }
};
template <typename C>
struct StrBuf : std::basic_streambuf<C>
{
    explicit StrBuf(std::basic_string<C>& s) { this->setg(&s[0], &s[0], &s[0] + s.size()); }
};
template <typename C, bool BLOCK>
struct Feed : cf::basic_iadapter<C>
{
    std::basic_string<C> s;
    size_t               i = 0;
    C                    last;
    Feed(std::basic_string<C> t, C last) : s(std::move(t)), last(last) {}
    C    read() override { return i < s.size() ? s[i++] : last; }
    void read(C* p, size_t n) override
    {
        if (!BLOCK) return cf::basic_iadapter<C>::read(p, n);
        for (; n; --n) *p++ = read();
    }
};

template <typename C, template <class> class E>
struct Go
{
    using P   = typename J::template parser_type<C>;
    using Opt = typename P::option;
    using STR = std::basic_string<C>;

    // a character below 0 is something that cannot be decoded: which one depends on where it is
    static void ill_formed(STR& s, size_t which, bool may_be_eof)
    {
        static const std::vector<std::vector<uint32_t>> B8  = { { 0x80 }, { 0xFE }, { 0xC0, 0xAF }, { 0xED, 0xA0, 0x80 }, { 0xF4, 0x90, 0x80, 0x80 }, { 0xE0, 0x80 }, { 0xBF }, { 0xFF } };
        static const std::vector<std::vector<uint32_t>> B16 = { { 0xDC00 }, { 0xDFFF }, { 0xD800, 0xD800 }, { 0xDBFF, 0x20 } };
        static const std::vector<std::vector<uint32_t>> B32 = { { 0xDC00 }, { 0xD800 }, { 0xDFFF }, { 0x110000 }, { 0x7FFFFFFF } };
        const auto& t = sizeof(C) == 1 ? B8 : std::is_same<E<C>, en::utf16<C>>::value || sizeof(C) == 2 ? B16 : B32;
        for (auto u : t[which % (t.size() - (sizeof(C) == 1 && may_be_eof ? 1 : 0))]) s.push_back(static_cast<C>(u));
    }
    static STR encode(const std::vector<long long>& cps, bool may_be_eof)
    {
        STR s;
        for (auto c : cps)
        {
            if (c < 0) { ill_formed(s, s.size() + cps.size(), may_be_eof); continue; }
            if (std::is_same<E<C>, en::utf16<C>>::value && sizeof(C) == 4) { for (auto u : enc<char16_t>({ c })) s.push_back(C(u)); }
            else s += enc<C>({ c });
        }
        return s;
    }
    static int len(C c)
    {
        if (sizeof(C) == 1) { auto u = static_cast<uint8_t>(c); return u < 0xC0 ? 1 : u < 0xE0 ? 2 : u < 0xF0 ? 3 : 4; }
        if (std::is_same<E<C>, en::utf16<C>>::value || sizeof(C) == 2) return (static_cast<uint32_t>(c) & 0xFFFFFC00u) == 0xD800 ? 2 : 1;
        return 1;
    }
    static std::vector<long long> decode(const STR& s)
    {
        std::vector<long long> r;
        if (std::is_same<E<C>, en::utf16<C>>::value && sizeof(C) == 4) { std::u16string u; for (auto c : s) u.push_back(static_cast<char16_t>(c)); r = dec(u); }
        else r = dec(s);
        for (auto& x : r) if (x >= BADUNIT) x = -1;
        return r;
    }

    // the same encoding, made by a user: looks at the first unit, then takes all units of the character as a block;
    // or takes the first unit, then the others
    template <class U, bool PEEK> static bool decode_blocks(std::basic_istream<U>& is, uint32_t& cp)
    {
        using T = std::char_traits<U>;
        U   b[4];
        int n, got = 0;
        if (PEEK)
        {
            auto first = is.peek();
            if (T::eq_int_type(first, T::eof())) return false;
            n = len(T::to_char_type(first));
        }
        else
        {
            is.read(b, 1);
            if (is.gcount() == 0) return false;
            got = 1;
            n   = len(b[0]);
        }
        if (n > got)
        {
            is.read(b + got, n - got);
            got += static_cast<int>(is.gcount());
        }
        std::basic_string<U>  t(b, static_cast<size_t>(got));
        StrBuf<U>             buf(t);
        std::basic_istream<U> one(&buf);
        if (is.fail() || !E<U>::decode(one, cp) || one.fail()) is.setstate(std::ios_base::failbit);
        return true;
    }
    template <class U> struct Blocks
    {
        static bool decode(std::basic_istream<U>& is, uint32_t& cp) { return decode_blocks<U, true>(is, cp); }
        static void encode(std::basic_ostream<U>& os, uint32_t cp) { E<U>::encode(os, cp); }
    };
    template <class U> struct Takes
    {
        static bool decode(std::basic_istream<U>& is, uint32_t& cp) { return decode_blocks<U, false>(is, cp); }
        static void encode(std::basic_ostream<U>& os, uint32_t cp) { E<U>::encode(os, cp); }
    };
    struct Ctx
    {
        char target;
        V    v;
        Out  o;
    };
    template <typename F> static void opts(Ctx& c, F f)
    {
        if (c.target == 'd') f(std::initializer_list<Opt>{});
        else if (c.target == 'e') f(std::initializer_list<Opt>{ P::template with_source_encoding<E>(), P::template with_target_encoding<en::auto_utf>() });
        else if (c.target == 'u') f(std::initializer_list<Opt>{ P::template with_source_encoding<Blocks>() });
        else if (c.target == 'n') f(std::initializer_list<Opt>{ P::template with_source_encoding<Takes>() });
        else wide16(f, std::integral_constant<bool, sizeof(V::char_type) == 4>());
    }
    template <typename F> static void wide16(F f, std::true_type)
    {
        f(std::initializer_list<Opt>{ P::template with_target_encoding<en::utf16>(), P::template with_source_encoding<E>() });
    }
    template <typename F> static void wide16(F, std::false_type) { exit(3); }

    // SRC(f): calls f with the source
    template <typename Src> static void parse(Ctx& c, Src& src, const std::string& op)
    {
        opts(c, [&](std::initializer_list<Opt> op_) {
            if (op == "pa") J::template parse<C>(c.v, src, op_);
            else c.v = J::template parse<C>(src, op_);
        });
        if (c.target == 'x') widen(c.v);
    }

    template <typename T, typename F> static void history(In& in, Ctx& c, F step)
    {
        T t{};
        prior(t);
        auto n = in.num();
        c.o.raw("{\"h\":[");
        for (long long i = 0; i < n; ++i)
        {
            const std::string op = in.word();
            const long long   k  = op == "g" ? in.num() : 0;
            if (i) c.o.raw(",");
            c.o.raw("[");
            try { step(op, k, t); }
            catch (...)
            {
                const std::string e = exc_class();
                c.o.raw("[\"x\",").str(e == "type" || e == "key" || e == "configor" || e == "range" ? "conv" : e).raw("]");
            }
            c.o.raw(",");
            show(c.o, c.v);
            c.o.raw(",");
            nat(c.o, t);
            c.o.raw("]");
        }
        c.o.raw("]}").flush();
    }

    template <typename T> static void text(In& in, Ctx& c, char src, const STR& s)
    {
        history<T>(in, c, [&](const std::string& op, long long, T&) {
            if (src == 's') parse(c, s, op);
            else { const C* p = s.c_str(); parse(c, p, op); }
            c.o.raw("[\"v\"]");
        });
    }

    template <typename T> static void extract(std::basic_istream<C>& is, Ctx& c, const std::string& op, T& t)
    {
        if (op == "ex") { auto w = J::wrap(c.v); is >> w; }
        else { auto w = J::wrap(t); is >> w; }
        c.o.raw(is.fail() ? "[\"none\"]" : "[\"v\"]");
    }

    template <typename T> static void stream(In& in, Ctx& c, std::basic_istream<C>& is, std::true_type)
    {
        history<T>(in, c, [&](const std::string& op, long long k, T& t) {
            if (op == "ex" || op == "et") extract(is, c, op, t);
            else stream_op(is, c, op, k);
        });
    }
    template <typename T> static void stream(In& in, Ctx& c, std::basic_istream<C>& is, std::false_type)
    {
        history<T>(in, c, [&](const std::string& op, long long k, T&) { stream_op(is, c, op, k); });
    }
    static void stream_op(std::basic_istream<C>& is, Ctx& c, const std::string& op, long long k)
    {
        using TR = std::char_traits<C>;
        if (op == "pa" || op == "pr") { parse(c, is, op); c.o.raw(is.fail() ? "[\"none\"]" : "[\"v\"]"); return; }
        if (op == "g")
        {
            for (; k > 0; --k)
            {
                C x = TR::to_char_type(is.get());
                int m = len(x) - 1;
                C b[4];
                if (m) is.read(b, m);
            }
        }
        else if (op == "pk") is.peek();
        else if (op == "ns") is >> std::noskipws;
        else if (op == "cl") is.clear();
        else if (op == "rs")
        {
            STR s;
            while (true) { auto x = is.get(); if (TR::eq_int_type(x, TR::eof())) break; s.push_back(TR::to_char_type(x)); if (s.size() > 1000000) break; }
            c.o.raw("[\"r\",").nums(decode(s)).raw("]");
            return;
        }
        else exit(3);
        c.o.raw("[\"g\"]");
    }

    template <typename T> static void file(In& in, Ctx& c, std::FILE* f, std::true_type)
    {
        history<T>(in, c, [&](const std::string& op, long long k, T&) {
            if (op == "pa" || op == "pr") { parse(c, f, op); c.o.raw("[\"v\"]"); return; }
            if (op == "g") for (; k > 0; --k) { C x = getu(f); for (int m = len(x) - 1; m > 0; --m) getu(f); }
            else if (op == "pk") { C x = getu(f); if (sizeof(C) == 1) ungetc(static_cast<unsigned char>(x), f); else ungetwc(static_cast<wint_t>(x), f); }
            else if (op == "rs")
            {
                STR s;
                while (true)
                {
                    if (sizeof(C) == 1) { int x = fgetc(f); if (x == EOF) break; s.push_back(C(x)); }
                    else { wint_t x = fgetwc(f); if (x == WEOF) break; s.push_back(C(x)); }
                }
                c.o.raw("[\"r\",").nums(decode(s)).raw("]");
                return;
            }
            else if (op != "ns" && op != "cl") exit(3);
            c.o.raw("[\"g\"]");
        });
    }
    template <typename T> static void file(In&, Ctx&, std::FILE*, std::false_type) { exit(3); }
    static C getu(std::FILE* f) { return sizeof(C) == 1 ? C(fgetc(f)) : C(fgetwc(f)); }

    struct Cookie { std::string s; size_t pos, k; };
    static ssize_t cookie_read(void* p, char* b, size_t n)
    {
        static const size_t N[] = { 5, 1, 2, 4096, 3 };
        auto& c = *static_cast<Cookie*>(p);
        n = std::min(std::min(n, N[c.k++ % 5]), c.s.size() - c.pos);
        std::memcpy(b, c.s.data() + c.pos, n);
        c.pos += n;
        return static_cast<ssize_t>(n);
    }

    template <typename T> static void run(In& in, Ctx& c, char src, const std::vector<long long>& cps)
    {
        using EX = std::integral_constant<bool, std::is_same<C, char>::value || std::is_same<C, wchar_t>::value>;
        const STR s = encode(cps, src == 'A' || src == 'B' || src == 'a' || src == 'b');
        if (src == 's' || src == 'c') text<T>(in, c, src, s);
        else if (src == 'f')
        {
            auto   b = enc<char>(cps);
            if (sizeof(C) == 1) { b.clear(); for (auto x : s) b.push_back(static_cast<char>(x)); }
            Cookie k{ b, 0, b.size() % 5 };
            cookie_io_functions_t io = { cookie_read, nullptr, nullptr, nullptr };
            std::FILE* f = nullptr;
            if (sizeof(C) == 1)
            {
                f = fopencookie(&k, "r", io);
                if (b.size() % 2) setvbuf(f, nullptr, _IONBF, 0);
            }
            else
            {
                int fd = memfd_create("source", 0);
                if (fd < 0 || write(fd, b.data(), b.size()) != static_cast<ssize_t>(b.size()) || lseek(fd, 0, SEEK_SET) != 0) exit(3);
                f = fdopen(fd, "r");
            }
            file<T>(in, c, f, EX());
            fclose(f);
        }
        else if (src == 'i') { std::basic_istringstream<C> is(s); stream<T>(in, c, is, EX()); }
        else if (src == 'p') { ChunkBuf<C> b(s); std::basic_istream<C> is(&b); stream<T>(in, c, is, EX()); }
        else if (src == 'a') { Feed<C, false> f(s, C(0)); cf::basic_iadapterstream<C> is(f); stream<T>(in, c, is, EX()); }
        else if (src == 'b') { Feed<C, true> f(s, C(0)); cf::basic_iadapterstream<C> is(f); stream<T>(in, c, is, EX()); }
        else if (src == 'A') { Feed<C, false> f(s, C(-1)); cf::basic_iadapterstream<C> is(f); stream<T>(in, c, is, EX()); }
        else { Feed<C, true> f(s, C(-1)); cf::basic_iadapterstream<C> is(f); stream<T>(in, c, is, EX()); }
    }

    static void go(In& in, char src)
    {
        Ctx c;
        c.target = in.word()[0];
        const std::string ty = in.word();
        c.v = build<V>(in);
        auto cps = in.nums();
        if (ty == "1") run<int>(in, c, src, cps);
        else if (ty == "2") run<S>(in, c, src, cps);
        else if (ty == "3") run<std::vector<int>>(in, c, src, cps);
        else if (ty == "4") run<std::map<S, std::vector<int>>>(in, c, src, cps);
        else if (ty == "5") run<Rec>(in, c, src, cps);
        else if (ty == "6") run<std::array<int, 2>>(in, c, src, cps);
        else run<bool>(in, c, src, cps);
    }
};

int main()
{
    if (!setlocale(LC_CTYPE, "C.UTF-8")) { fprintf(stderr, "harness: no UTF-8 locale\n"); return 3; }
    std::string line;
    while (next_case(line))
    {
        In                in(line);
        const std::string k = in.word();
#if !defined(PART) || PART == 0
        if (k[0] == '1') Go<char, en::utf8>::go(in, k[1]);
        if (k[0] == 'w') Go<wchar_t, en::utf32>::go(in, k[1]);
#endif
#if !defined(PART) || PART == 1
        if (k[0] == '2') Go<char16_t, en::utf16>::go(in, k[1]);
        if (k[0] == '4') Go<char32_t, en::utf32>::go(in, k[1]);
        if (k[0] == 'v') Go<wchar_t, en::utf16>::go(in, k[1]);
#endif
    }
}
