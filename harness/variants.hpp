// value configurations selected with -DVARIANT=n
//   0 value            3 32-bit integer, float
//   1 wvalue           4 allocator of its own (no text)
//   2 objects in order of insertion
//   6 characters of 16 bits
//   5 wide, objects in order of insertion, 32-bit integer, float, arrays in a deque
#pragma once
#include <configor/configor.hpp>
#include <cstddef>
#include <deque>
#include <list>
#include <utility>
#ifndef VARIANT
#define VARIANT 0
#endif
#define WIDE (VARIANT == 1 || VARIANT == 5)
#if WIDE
#define TXT(x) L##x
#elif VARIANT == 6
#define TXT(x) u##x
#else
#define TXT(x) x
#endif

// an object container that keeps the order in which members came
template <typename Key, typename T, typename Less, typename Alloc> class insertion_ordered
{
public:
    using key_type       = Key;
    using mapped_type    = T;
    using value_type     = std::pair<const Key, T>;
    using list_type      = std::list<value_type, Alloc>;
    using allocator_type = Alloc;
    using size_type      = std::size_t;
    using iterator       = typename list_type::iterator;
    using const_iterator = typename list_type::const_iterator;
    using reverse_iterator       = typename list_type::reverse_iterator;
    using const_reverse_iterator = typename list_type::const_reverse_iterator;
    using difference_type        = typename list_type::difference_type;
    using reference              = value_type&;
    using const_reference        = const value_type&;

    insertion_ordered() = default;
    insertion_ordered(const insertion_ordered&) = default;
    insertion_ordered(insertion_ordered&&) = default;
    insertion_ordered& operator=(const insertion_ordered& o) { list_type c(o.l_); l_.swap(c); return *this; }
    insertion_ordered& operator=(insertion_ordered&& o) { list_type c(std::move(o.l_)); l_.swap(c); return *this; }
    insertion_ordered(std::initializer_list<value_type> l) { for (auto& x : l) insert(x); }
    template <typename It> insertion_ordered(It b, It e) { for (; b != e; ++b) insert(*b); }
    iterator       begin() noexcept { return l_.begin(); }
    iterator       end() noexcept { return l_.end(); }
    const_iterator begin() const noexcept { return l_.begin(); }
    const_iterator end() const noexcept { return l_.end(); }
    const_iterator cbegin() const noexcept { return l_.begin(); }
    const_iterator cend() const noexcept { return l_.end(); }
    reverse_iterator       rbegin() noexcept { return l_.rbegin(); }
    reverse_iterator       rend() noexcept { return l_.rend(); }
    const_reverse_iterator rbegin() const noexcept { return l_.rbegin(); }
    const_reverse_iterator rend() const noexcept { return l_.rend(); }
    bool           empty() const noexcept { return l_.empty(); }
    size_type      size() const noexcept { return l_.size(); }
    size_type      max_size() const noexcept { return l_.max_size(); }
    void           clear() noexcept { l_.clear(); }
    void           swap(insertion_ordered& o) noexcept { l_.swap(o.l_); }
    iterator       find(const Key& k) { auto i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
    const_iterator find(const Key& k) const { auto i = begin(); while (i != end() && !(i->first == k)) ++i; return i; }
    size_type      count(const Key& k) const { return find(k) == end() ? 0 : 1; }
    T&             at(const Key& k) { auto i = find(k); if (i == end()) throw std::out_of_range("at"); return i->second; }
    const T&       at(const Key& k) const { auto i = find(k); if (i == end()) throw std::out_of_range("at"); return i->second; }
    T&             operator[](const Key& k) { return emplace(k, T()).first->second; }
    std::pair<iterator, bool> insert(const value_type& v) { return emplace(v.first, v.second); }
    std::pair<iterator, bool> insert(value_type&& v) { return emplace(v.first, std::move(v.second)); }
    iterator insert(const_iterator, const value_type& v) { return insert(v).first; }
    template <typename It> void insert(It b, It e) { for (; b != e; ++b) insert(*b); }
    template <typename... A> std::pair<iterator, bool> emplace(A&&... a)
    {
        list_type one;
        one.emplace_back(std::forward<A>(a)...);
        auto i = find(one.front().first);
        if (i != end()) return { i, false };
        l_.splice(l_.end(), one);
        return { --l_.end(), true };
    }
    size_type erase(const Key& k) { auto i = find(k); if (i == end()) return 0; l_.erase(i); return 1; }
    iterator  erase(const_iterator i) { return l_.erase(i); }
    iterator  erase(const_iterator b, const_iterator e) { return l_.erase(b, e); }
    friend bool operator==(const insertion_ordered& a, const insertion_ordered& b) { return a.l_ == b.l_; }
    friend bool operator!=(const insertion_ordered& a, const insertion_ordered& b) { return !(a == b); }
    friend bool operator<(const insertion_ordered& a, const insertion_ordered& b) { return a.l_ < b.l_; }
    friend bool operator>(const insertion_ordered& a, const insertion_ordered& b) { return b < a; }
    friend bool operator<=(const insertion_ordered& a, const insertion_ordered& b) { return !(b < a); }
    friend bool operator>=(const insertion_ordered& a, const insertion_ordered& b) { return !(a < b); }

private:
    list_type l_;
};

// an array container that is not a vector
template <typename T, typename Alloc> struct deque_array : std::deque<T, Alloc>
{
    using std::deque<T, Alloc>::deque;
    void reserve(std::size_t) {}
};

// an allocator that knows what it gave out, for which type and how much
struct Given
{
    std::size_t magic, bytes, size, pad;
};
inline long& own_live()
{
    static thread_local long n = 0;
    return n;
}
inline void wrong(const char* s)
{
    fprintf(stderr, "allocator: %s\n", s);
    abort();
}
template <typename T> struct own_allocator
{
    using value_type = T;
    own_allocator() = default;
    template <typename U> own_allocator(const own_allocator<U>&) noexcept {}
    T* allocate(std::size_t n)
    {
        auto* g = static_cast<Given*>(std::malloc(sizeof(Given) + n * sizeof(T)));
        if (!g) throw std::bad_alloc();
        *g = Given{ 0x600DF00D, n * sizeof(T), sizeof(T), 0 };
        ++own_live();
        return reinterpret_cast<T*>(g + 1);
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        auto* g = reinterpret_cast<Given*>(p) - 1;
        if (g->magic != 0x600DF00D) wrong("not given out here");
        if (g->bytes != n * sizeof(T) || g->size != sizeof(T)) wrong("given out for something else");
        g->magic = 0;
        --own_live();
        std::free(g);
    }
    template <typename U> bool operator==(const own_allocator<U>&) const noexcept { return true; }
    template <typename U> bool operator!=(const own_allocator<U>&) const noexcept { return false; }
};

struct ordered_tplargs : cf::value_tplargs
{
    template <class K, class T, class... A> using object_type = insertion_ordered<K, T, A...>;
};
struct args32 : cf::value_tplargs
{
    using integer_type = int32_t;
    using float_type   = float;
};
struct alloc_tplargs : cf::value_tplargs
{
    template <class T> using allocator_type = own_allocator<T>;
};
struct mixed_tplargs : ordered_tplargs
{
    using char_type    = wchar_t;
    using integer_type = int32_t;
    using float_type   = float;
    template <class T, class... A> using array_type = deque_array<T, A...>;
};
struct args16 : cf::value_tplargs
{
    using char_type = char16_t;
};
#if VARIANT == 0
using TPLARGS = cf::value_tplargs;
#elif VARIANT == 1
using TPLARGS = cf::wvalue_tplargs;
#elif VARIANT == 2
using TPLARGS = ordered_tplargs;
#elif VARIANT == 3
using TPLARGS = args32;
#elif VARIANT == 4
using TPLARGS = alloc_tplargs;
#elif VARIANT == 5
using TPLARGS = mixed_tplargs;
#elif VARIANT == 6
using TPLARGS = args16;
#endif
using VALUE = cf::basic_value<TPLARGS>;
#if VARIANT == 4
namespace std
{
template <> struct hash<VALUE::string_type>
{
    size_t operator()(const VALUE::string_type& s) const { return hash<string>()(string(s.begin(), s.end())); }
};
}
#endif
#if VARIANT != 4
using JSON = cf::basic_json<TPLARGS>;
#endif
