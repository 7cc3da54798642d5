// Shared parts of the harnesses.  A harness is a dumb executor: it reads one case per line, performs the calls
// with the public API of configor and prints what it observed as one JSON line.  All judging is done against
// the TLA+ specification.
#pragma once
#include <configor/json.hpp>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <signal.h>
#include <sys/resource.h>
#include <unistd.h>

namespace cf = configor;
using cf::value_constant;

//
// allocation accounting and fault injection (global operator new)
//
struct AllocState
{
    long live   = 0;   // allocations not yet released
    long count  = 0;   // allocations since armed
    long fail   = -1;  // the allocation (0-based since armed) that fails; -1: none
    bool failed = false;
};
inline AllocState& AS()
{
    static thread_local AllocState s;
    return s;
}
#ifdef COUNT_ALLOC
#ifndef ALLOC_HOOK
#define ALLOC_HOOK()
#endif
inline void* counted_new(std::size_t n)
{
    ALLOC_HOOK();
    auto& s = AS();
    if (s.fail >= 0 && s.count == s.fail)
    {
        ++s.count;
        s.failed = true;
        throw std::bad_alloc();
    }
    ++s.count;
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    ++s.live;
    return p;
}
void* operator new(std::size_t n) { return counted_new(n); }
void* operator new[](std::size_t n) { return counted_new(n); }
void  operator delete(void* p) noexcept { if (p) { --AS().live; std::free(p); } }
void  operator delete[](void* p) noexcept { if (p) { --AS().live; std::free(p); } }
void  operator delete(void* p, std::size_t) noexcept { if (p) { --AS().live; std::free(p); } }
void  operator delete[](void* p, std::size_t) noexcept { if (p) { --AS().live; std::free(p); } }
#endif

//
// input: whitespace separated tokens of one line
//
struct In
{
    std::vector<std::string> t;
    size_t                   i = 0;

    explicit In(const std::string& line)
    {
        size_t p = 0, n = line.size();
        while (p < n)
        {
            while (p < n && line[p] == ' ') ++p;
            size_t q = p;
            while (q < n && line[q] != ' ') ++q;
            if (q > p) t.emplace_back(line, p, q - p);
            p = q;
        }
    }
    bool               more() const { return i < t.size(); }
    const std::string& word()
    {
        if (i >= t.size()) { fprintf(stderr, "harness: short case\n"); exit(3); }
        return t[i++];
    }
    long long num() { return std::strtoll(word().c_str(), nullptr, 10); }
    std::vector<long long> nums()
    {
        std::vector<long long> r(static_cast<size_t>(num()));
        for (auto& x : r) x = num();
        return r;
    }
};

//
// text: code points <-> code units (independent of configor)
//
template <typename C>
std::basic_string<C> enc(const std::vector<long long>& cps)
{
    std::basic_string<C> s;
    for (auto x : cps)
    {
        uint32_t c = static_cast<uint32_t>(x);
        if (sizeof(C) == 1)
        {
            if (c < 0x80) s.push_back(C(c));
            else if (c < 0x800) { s.push_back(C(0xC0 | c >> 6)); s.push_back(C(0x80 | (c & 63))); }
            else if (c < 0x10000) { s.push_back(C(0xE0 | c >> 12)); s.push_back(C(0x80 | (c >> 6 & 63))); s.push_back(C(0x80 | (c & 63))); }
            else { s.push_back(C(0xF0 | c >> 18)); s.push_back(C(0x80 | (c >> 12 & 63))); s.push_back(C(0x80 | (c >> 6 & 63))); s.push_back(C(0x80 | (c & 63))); }
        }
        else if (sizeof(C) == 2 && c > 0xFFFF)
        {
            s.push_back(C(0xD800 + ((c - 0x10000) >> 10)));
            s.push_back(C(0xDC00 + ((c - 0x10000) & 0x3FF)));
        }
        else s.push_back(C(c));
    }
    return s;
}
const long long BADUNIT = 2000000;  // BADUNIT + unit: a unit that is not part of well-formed text
template <typename C>
std::vector<long long> dec(const std::basic_string<C>& s)
{
    std::vector<long long> r;
    size_t                 n = s.size();
    for (size_t i = 0; i < n;)
    {
        if (sizeof(C) == 1)
        {
            uint32_t b = static_cast<uint8_t>(s[i]);
            int      k = b < 0x80 ? 0 : (b >= 0xC2 && b < 0xE0) ? 1 : (b >= 0xE0 && b < 0xF0) ? 2 : (b >= 0xF0 && b < 0xF5) ? 3 : -1;
            uint32_t c = k == 0 ? b : k == 1 ? b & 31 : k == 2 ? b & 15 : b & 7;
            bool     ok = k >= 0 && i + static_cast<size_t>(k) < n;
            for (int j = 1; ok && j <= k; ++j)
            {
                uint32_t x = static_cast<uint8_t>(s[i + static_cast<size_t>(j)]);
                if ((x & 0xC0) != 0x80) ok = false;
                c = c << 6 | (x & 63);
            }
            if (ok && ((k == 2 && c < 0x800) || (k == 3 && (c < 0x10000 || c > 0x10FFFF)) || (c >= 0xD800 && c < 0xE000))) ok = false;
            if (!ok) { r.push_back(BADUNIT + b); ++i; }
            else { r.push_back(c); i += static_cast<size_t>(k) + 1; }
        }
        else
        {
            uint32_t c = static_cast<uint32_t>(s[i]);
            if (sizeof(C) == 2 && c >= 0xD800 && c < 0xDC00 && i + 1 < n && uint32_t(s[i + 1]) >= 0xDC00 && uint32_t(s[i + 1]) < 0xE000)
            {
                c = 0x10000 + ((c - 0xD800) << 10) + (uint32_t(s[i + 1]) - 0xDC00);
                ++i;
                r.push_back(c);
            }
            else if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) r.push_back(BADUNIT + (c & 0xFFFFFF));
            else r.push_back(c);
            ++i;
        }
    }
    return r;
}
template <typename C>
std::basic_string<C> units(const std::vector<long long>& u)
{
    std::basic_string<C> s;
    for (auto x : u) s.push_back(static_cast<C>(x));
    return s;
}

//
// output
//
struct Out
{
    std::string s;
    Out& raw(const std::string& x) { s += x; return *this; }
    Out& num(long long x) { s += std::to_string(x); return *this; }
    Out& nums(const std::vector<long long>& v)
    {
        s += '[';
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; num(v[i]); }
        s += ']';
        return *this;
    }
    Out& str(const std::string& x) { s += '"'; s += x; s += '"'; return *this; }  // plain words only
    void flush() { s += '\n'; size_t o = 0; while (o < s.size()) { ssize_t k = ::write(1, s.data() + o, s.size() - o); if (k <= 0) _exit(4); o += static_cast<size_t>(k); } s.clear(); }
};

// decimal form of an integer: [sgn, digits...]
template <typename I>
void put_int(Out& o, I v)
{
    std::string d = std::to_string(v);
    if (v == 0) { o.raw("[0,0]"); return; }
    o.raw(d[0] == '-' ? "[-1" : "[1");
    for (char c : d) if (c != '-') { o.s += ','; o.s += c; }
    o.s += ']';
}
// decimal form of a float: [sgn, exp10, digits...], 17 (9 for float) significant digits
template <typename F>
void put_flt(Out& o, F f)
{
    if (std::isnan(f)) { o.raw("[9,0]"); return; }
    if (std::isinf(f)) { o.raw(f > 0 ? "[8,0]" : "[-8,0]"); return; }
    if (f == 0) { o.raw("[0,0]"); return; }
    char b[64];
    if (sizeof(F) > 8) snprintf(b, sizeof b, "%.20Le", static_cast<long double>(f));
    else snprintf(b, sizeof b, "%.*e", sizeof(F) == 4 ? 8 : 16, static_cast<double>(f));
    std::string m(b), dig;
    size_t      e = m.find('e');
    for (char c : m.substr(0, e)) if (c >= '0' && c <= '9') dig += c;
    while (dig.size() > 1 && dig.back() == '0') dig.pop_back();
    o.raw(b[0] == '-' ? "[-1," : "[1,").num(atoi(m.c_str() + e + 1));
    for (char c : dig) { o.s += ','; o.s += c; }
    o.s += ']';
}

//
// building and projecting values through type() and data()
//
template <typename V>
V build(In& in)
{
    const std::string k = in.word();
    switch (k[0])
    {
    case 'n': return V(nullptr);
    case 't': return V(true);
    case 'f': return V(false);
    case 'i': return V(static_cast<typename V::integer_type>(in.num()));
    case 'd': return V(static_cast<typename V::float_type>(std::strtod(in.word().c_str(), nullptr)));
    case 's': { typename V::string_type s; auto e = enc<typename V::char_type>(in.nums()); s.assign(e.begin(), e.end()); return V(s); }
    case 'a':
    {
        V    v(value_constant::array);
        auto n = in.num();
        for (; n > 0; --n) v.data().vector->push_back(build<V>(in));
        return v;
    }
    case 'o':
    {
        V    v(value_constant::object);
        auto n = in.num();
        for (; n > 0; --n)
        {
            typename V::string_type key;
            auto                    e = enc<typename V::char_type>(in.nums());
            key.assign(e.begin(), e.end());
            v.data().object->emplace(key, build<V>(in));
        }
        return v;
    }
    }
    fprintf(stderr, "harness: bad value token %s\n", k.c_str());
    exit(3);
}

template <typename S>
std::vector<long long> cps_of(const S& s)
{
    return dec(std::basic_string<typename S::value_type>(s.begin(), s.end()));
}

template <typename V>
void show(Out& o, const V& v)
{
    switch (v.type())
    {
    case value_constant::null: o.raw("[\"n\"]"); break;
    case value_constant::boolean: o.raw(v.data().boolean ? "[\"b\",1]" : "[\"b\",0]"); break;
    case value_constant::integer: o.raw("[\"i\","); put_int(o, v.data().integer); o.raw("]"); break;
    case value_constant::floating: o.raw("[\"d\","); put_flt(o, v.data().floating); o.raw("]"); break;
    case value_constant::string: o.raw("[\"s\",").nums(cps_of(*v.data().string)).raw("]"); break;
    case value_constant::array:
    {
        o.raw("[\"a\",[");
        bool first = true;
        for (const auto& x : *v.data().vector) { if (!first) o.s += ','; first = false; show(o, x); }
        o.raw("]]");
        break;
    }
    case value_constant::object:
    {
        o.raw("[\"o\",[");
        bool first = true;
        for (const auto& p : *v.data().object)
        {
            if (!first) o.s += ',';
            first = false;
            o.s += '[';
            o.nums(cps_of(p.first)).raw(",");
            show(o, p.second);
            o.s += ']';
        }
        o.raw("]]");
        break;
    }
    default: o.raw("[\"?\"]");
    }
}

//
// classification of exceptions
//
inline const char* exc_class()
{
    try { throw; }
    catch (const cf::configor_deserialization_error&) { return "deser"; }
    catch (const cf::configor_serialization_error&) { return "ser"; }
    catch (const cf::configor_type_error&) { return "type"; }
    catch (const cf::configor_invalid_key&) { return "key"; }
    catch (const cf::configor_invalid_iterator&) { return "iter"; }
    catch (const cf::configor_exception&) { return "configor"; }
    catch (const std::out_of_range&) { return "range"; }
    catch (const std::bad_alloc&) { return "alloc"; }
    catch (const std::exception&) { return "std"; }
    catch (...) { return "other"; }
}

inline bool next_case(std::string& line)
{
    alarm(0);
    if (!std::getline(std::cin, line)) return false;
    alarm(20);  // a hanging case kills the harness; the driver reports it
    return true;
}
