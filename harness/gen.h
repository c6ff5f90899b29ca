// Generators shared by the harnesses: characters stratified by property class, texts, byte strings.
#pragma once

#include "pbt.h"
#include "ref_algos.h"

#include <functional>
#include <map>
#include <string>
#include <vector>

namespace gen
{

using pbt::Case;
using U32 = std::u32string;
using U32V = std::u32string_view;

// Characters grouped by a class key; every class is equally likely.
struct Pool
{
    std::vector<std::vector<char32_t>> groups;
    std::vector<char32_t> hot; // hand-picked troublemakers; index 0 is what a case shrinks to

    template <typename KeyFn>
    static Pool by(KeyFn key, std::vector<char32_t> hot, uint32_t lo = 0, uint32_t hi = ref::MaxCp)
    {
        Pool p;
        std::map<decltype(key(0u)), std::vector<char32_t>> m;
        for (uint32_t c = lo; c < hi; ++c)
            m[key(c)].push_back(c);
        for (auto& [k, v]: m)
            p.groups.push_back(std::move(v));
        p.hot = std::move(hot);
        return p;
    }
    char32_t draw(Case& c) const
    {
        auto const k = c.draw(16);
        if (k < 3 && !hot.empty())
            return c.pick(hot);
        auto const& g = groups[c.draw(groups.size())];
        return g[c.draw(g.size())];
    }
};

inline bool isSurrogate(uint32_t c) { return c >= 0xD800 && c < 0xE000; }

inline char32_t anyScalar(Case& c)
{
    switch (c.draw(5))
    {
        case 0: return static_cast<char32_t>(c.range(0x20, 0x7E));
        case 1: return static_cast<char32_t>(c.range(0, 0x7FF));
        case 2: {
            auto v = static_cast<char32_t>(c.range(0x800, 0xFFFF));
            return isSurrogate(v) ? v - 0x2000 : v;
        }
        case 3: {
            static const char32_t edges[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFFF, 0x100000, 0x3FFFF };
            return edges[c.draw(sizeof edges / sizeof *edges)];
        }
        default: return static_cast<char32_t>(c.range(0x10000, 0x10FFFF));
    }
}

inline std::string hexStr(U32V s)
{
    std::string o;
    char b[16];
    if (s.size() > 600)
        return hexStr(s.substr(0, 250)) + "...(" + std::to_string(s.size() - 500) + " more)..." + hexStr(s.substr(s.size() - 250));
    for (auto x: s)
    {
        snprintf(b, sizeof b, "%s%04X", o.empty() ? "" : " ", static_cast<unsigned>(x));
        o += b;
    }
    return "<" + o + ">";
}
inline std::string hexBytes(std::string_view s)
{
    std::string o;
    char b[8];
    if (s.size() > 900)
        return hexBytes(s.substr(0, 400)) + "...(" + std::to_string(s.size() - 800) + " more)..." + hexBytes(s.substr(s.size() - 400));
    for (unsigned char x: s)
    {
        snprintf(b, sizeof b, "%s%02X", o.empty() ? "" : " ", x);
        o += b;
    }
    return "[" + o + "]";
}
template <typename T>
std::string list(std::vector<T> const& v)
{
    std::string o = "{";
    for (auto const& x: v)
    {
        if (o.size() > 1)
            o += ' ';
        if (o.size() > 2000)
        {
            o += "...(" + std::to_string(v.size()) + " in all)";
            break;
        }
        if constexpr (std::is_convertible_v<T, std::string>)
            o += x;
        else
            o += std::to_string(x);
    }
    return o + "}";
}

// Long arms: the text that an arm draws is blown up by repeating parts of it, to lengths around powers
// of two and in between. Counters, buffers and chunk sizes of the code under test only matter there.
struct LongMode
{
    size_t max = 0; // 0: off
};
inline LongMode& longMode()
{
    static thread_local LongMode m;
    return m;
}
inline size_t longLength(Case& c, size_t max)
{
    unsigned bits = 6;
    while ((size_t { 2 } << bits) <= max)
        ++bits;
    auto const n = size_t { 1 } << c.range(4, bits);
    switch (c.draw(4))
    {
        case 0: return n;
        case 1: return n - 4 + c.draw(9);
        default: return n + c.draw(n);
    }
}
template <typename String>
void stretch(Case& c, String& s)
{
    auto max = longMode().max;
    if (!max || s.empty())
        return;
    for (auto k = 1 + c.draw(2); k > 0; --k)
    {
        auto const len = c.chance(1, 3) ? s.size() : 1 + c.draw(std::min<size_t>(s.size(), 4));
        auto const at = c.draw(s.size() - len + 1);
        auto const piece = s.substr(at, len);
        auto const total = longLength(c, max);
        String run;
        if (c.chance(1, 3)) // as many copies
            for (size_t i = 0; i < total && run.size() < max; ++i)
                run += piece;
        else
            while (run.size() < total)
                run += piece;
        s.insert(at + len, run);
        if (s.size() > max)
            break;
    }
}
// UTF-8 counterpart: repeats whole characters or ill-formed pieces, never cutting a character in two.
inline void stretchBytes(Case& c, std::string& s)
{
    if (!longMode().max || s.empty())
        return;
    // to pieces that begin with a byte that is no continuation
    std::vector<std::string> v;
    for (char ch: s)
        if (v.empty() || (static_cast<unsigned char>(ch) & 0xC0) != 0x80)
            v.emplace_back(1, ch);
        else
            v.back() += ch;
    auto const at = c.draw(v.size());
    auto const len = 1 + c.draw(std::min<size_t>(v.size() - at, c.chance(1, 4) ? 30 : 3));
    std::string piece;
    for (size_t i = at; i < at + len; ++i)
        piece += v[i];
    auto const total = longLength(c, longMode().max);
    bool const copies = c.chance(1, 2);
    std::string o;
    for (size_t i = 0; i < at + len; ++i)
        o += v[i];
    for (size_t i = 0; copies ? i < total && i * piece.size() < longMode().max : i * piece.size() < total; ++i)
        o += piece;
    for (size_t i = at + len; i < v.size(); ++i)
        o += v[i];
    s = std::move(o);
}
inline std::function<void(Case&)> longArm(std::function<void(Case&)> fn, size_t usual = 5000, size_t rare = 70000)
{
    return [fn, usual, rare](Case& c) {
        struct Scope
        {
            explicit Scope(size_t n) { longMode().max = n; }
            ~Scope() { longMode().max = 0; }
        } scope(c.chance(1, 40) ? rare : usual);
        fn(c);
    };
}

// A text over a pool. Runs of one character and repeated motifs are drawn too, because counting
// rules (regional indicators, repeated ZWJ, long combining runs) need them.
inline U32 shortText(Case& c, Pool const& p, size_t maxLen)
{
    auto const n = c.size(maxLen);
    U32 s;
    while (s.size() < n)
    {
        switch (c.draw(12))
        {
            case 10: {
                auto const ch = p.draw(c);
                auto const k = 1 + c.draw(6);
                s.append(k, ch);
                break;
            }
            case 11:
                if (!s.empty()) // repeat a recent motif
                {
                    auto const k = 1 + c.draw(std::min<size_t>(s.size(), 4));
                    s += s.substr(s.size() - k);
                }
                else
                    s += p.draw(c);
                break;
            default: s += p.draw(c);
        }
    }
    return s;
}
inline U32 text(Case& c, Pool const& p, size_t maxLen)
{
    auto s = shortText(c, p, maxLen);
    stretch(c, s);
    return s;
}

// Exact-size heap copy: any read outside the text is an ASan error.
template <typename C>
struct Exact
{
    C* p;
    size_t n;
    explicit Exact(std::basic_string_view<C> s): p(new C[s.size() ? s.size() : 1]), n(s.size())
    {
        if (!s.empty())
            memcpy(p, s.data(), n * sizeof(C));
    }
    Exact(Exact const&) = delete;
    ~Exact() { delete[] p; }
    // for empty text the view starts at the end of the 1-element block, so even reading [0] is caught
    std::basic_string_view<C> view() const { return n ? std::basic_string_view<C>(p, n) : std::basic_string_view<C>(p + 1, 0); }
};
template <typename C>
Exact(std::basic_string<C>) -> Exact<C>;

// Byte strings: mixtures of well-formed characters and ill-formed pieces.
inline void illFormed(Case& c, std::string& s)
{
    static const char* const pieces[] = {
        "\x80", "\xBF", "\x9B", "\xA0", "\xC3", "\xE2", "\xE2\x82", "\xF0", "\xF0\x9F", "\xF0\x9F\x98", "\xF8", "\xFB\xBF\xBF\xBF\xBF",
        "\xFC", "\xFE", "\xFF", "\xC3\xC3", "\xE2\xF0\x9F", "\xE1\x80\xE2\x82", "\x80\x80", "\xC2\xF8", "\xE2\xFF", "\xF4\x8F\xC3",
        "\xDF", "\xEF", "\xEF\xBF", "\xF4", "\xF7\xBF", "\xC2\xA0\xA0", "\xF1\x80\x80\xE1\x80\xC2",
    };
    if (c.chance(1, 6))
        s += static_cast<char>(c.range(0x80, 0xFF));
    else
        s += pieces[c.draw(sizeof pieces / sizeof *pieces)];
}
// structurally complete but not well-formed by the standard
inline void nonScalar(Case& c, std::string& s)
{
    static const std::string pieces[] = { std::string("\xC0\x80", 2), "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xED\xA0\xBD\xED\xB8\x80",
                                          "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xF7\xBF\xBF\xBF" };
    s += pieces[c.draw(sizeof pieces / sizeof *pieces)];
}

struct BytesOptions
{
    bool ill = true;
    bool nonscalar = false;
    bool controls = true;
    size_t max = 40;
};
template <typename CharFn>
std::string bytes(Case& c, CharFn ch, BytesOptions o)
{
    auto const n = c.size(o.max);
    std::string s;
    for (size_t i = 0; i < n; ++i)
    {
        auto const k = c.draw(16);
        if (o.ill && k >= 13)
            illFormed(c, s);
        else if (o.nonscalar && k == 12)
            nonScalar(c, s);
        else if (k >= 10)
        {
            auto const m = 1 + c.draw(70); // an ASCII run, for the vector paths
            for (size_t j = 0; j < m; ++j)
                s += static_cast<char>('a' + (j % 26));
        }
        else
        {
            auto v = ch(c);
            if (isSurrogate(v))
                v = 0x20;
            if (!o.controls && (v < 0x20 || (v >= 0x7F && v < 0xA0)))
                v = '!';
            ref::encodeUtf8(v, s);
        }
    }
    stretchBytes(c, s);
    return s;
}

} // namespace gen
