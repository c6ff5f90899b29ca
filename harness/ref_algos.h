// Reference algorithms written from the Unicode annexes, on top of ref_ucd.h.
// Nothing here includes a libunicode header.
#pragma once

#include "ref_ucd.h"

#include <algorithm>
#include <optional>
#include <utility>

namespace ref
{

using U32 = std::u32string;
using U32V = std::u32string_view;

// {{{ compact property codes
enum class G : uint8_t
{
    Other, CR, LF, Control, Extend, ZWJ, RI, Prepend, SpacingMark, L, V, T, LV, LVT
};
enum class W : uint8_t
{
    Other, CR, LF, Newline, Extend, ZWJ, Format, RI, Katakana, Hebrew, ALetter, SQ, DQ, MidNumLet, MidLetter, MidNum,
    Numeric, ExtendNumLet, WSegSpace
};
enum class I : uint8_t
{
    None, Consonant, Extend, Linker
};

template <typename E>
std::vector<E> codes(Prop const& p, std::vector<std::pair<char const*, E>> const& m, E dflt)
{
    std::vector<E> byCode(p.names.size(), dflt);
    for (size_t i = 0; i < p.names.size(); ++i)
        for (auto const& [n, e]: m)
            if (p.names[i] == n)
                byCode[i] = e;
    std::vector<E> r(MaxCp);
    for (uint32_t c = 0; c < MaxCp; ++c)
        r[c] = byCode[p.v[c]];
    return r;
}

inline G G_(uint32_t cp)
{
    static auto const t = codes<G>(gcb(),
                                   { { "CR", G::CR }, { "LF", G::LF }, { "Control", G::Control }, { "Extend", G::Extend }, { "ZWJ", G::ZWJ },
                                     { "Regional_Indicator", G::RI }, { "Prepend", G::Prepend }, { "SpacingMark", G::SpacingMark }, { "L", G::L },
                                     { "V", G::V }, { "T", G::T }, { "LV", G::LV }, { "LVT", G::LVT } },
                                   G::Other);
    return t[cp < MaxCp ? cp : 0];
}
inline W W_(uint32_t cp)
{
    static auto const t = codes<W>(wb(),
                                   { { "CR", W::CR }, { "LF", W::LF }, { "Newline", W::Newline }, { "Extend", W::Extend }, { "ZWJ", W::ZWJ },
                                     { "Format", W::Format }, { "Regional_Indicator", W::RI }, { "Katakana", W::Katakana },
                                     { "Hebrew_Letter", W::Hebrew }, { "ALetter", W::ALetter }, { "Single_Quote", W::SQ }, { "Double_Quote", W::DQ },
                                     { "MidNumLet", W::MidNumLet }, { "MidLetter", W::MidLetter }, { "MidNum", W::MidNum }, { "Numeric", W::Numeric },
                                     { "ExtendNumLet", W::ExtendNumLet }, { "WSegSpace", W::WSegSpace } },
                                   W::Other);
    return t[cp < MaxCp ? cp : 0];
}
inline I I_(uint32_t cp)
{
    static auto const t = codes<I>(incb(), { { "Consonant", I::Consonant }, { "Extend", I::Extend }, { "Linker", I::Linker } }, I::None);
    return t[cp < MaxCp ? cp : 0];
}
inline bool P_(uint32_t cp) { return isExtPict(cp < MaxCp ? cp : 0); }
// }}}

// {{{ UAX #29 grapheme clusters: is there a boundary before text[i] (0 < i < n)?
// riBefore: how many regional indicators directly precede text[i], if the caller has counted them.
inline bool graphemeBreakBefore(U32V s, size_t i, std::optional<size_t> riBefore = std::nullopt)
{
    auto const A = G_(s[i - 1]), B = G_(s[i]);
    if (A == G::CR && B == G::LF) // GB3
        return false;
    if (A == G::Control || A == G::CR || A == G::LF) // GB4
        return true;
    if (B == G::Control || B == G::CR || B == G::LF) // GB5
        return true;
    if (A == G::L && (B == G::L || B == G::V || B == G::LV || B == G::LVT)) // GB6
        return false;
    if ((A == G::LV || A == G::V) && (B == G::V || B == G::T)) // GB7
        return false;
    if ((A == G::LVT || A == G::T) && B == G::T) // GB8
        return false;
    if (B == G::Extend || B == G::ZWJ) // GB9
        return false;
    if (B == G::SpacingMark) // GB9a
        return false;
    if (A == G::Prepend) // GB9b
        return false;
    if (I_(s[i]) == I::Consonant) // GB9c
    {
        bool linker = false;
        size_t j = i;
        while (j > 0 && (I_(s[j - 1]) == I::Extend || I_(s[j - 1]) == I::Linker))
        {
            linker = linker || I_(s[j - 1]) == I::Linker;
            --j;
        }
        if (linker && j > 0 && I_(s[j - 1]) == I::Consonant)
            return false;
    }
    if (A == G::ZWJ && P_(s[i])) // GB11
    {
        size_t j = i - 1;
        while (j > 0 && G_(s[j - 1]) == G::Extend)
            --j;
        if (j > 0 && P_(s[j - 1]))
            return false;
    }
    if (A == G::RI && B == G::RI) // GB12, GB13
    {
        size_t n = riBefore.value_or(0);
        if (!riBefore)
            for (size_t j = i; j > 0 && G_(s[j - 1]) == G::RI; --j)
                ++n;
        if (n % 2 == 1)
            return false;
    }
    return true; // GB999
}

// End offsets of the clusters.
inline std::vector<size_t> graphemeEnds(U32V s)
{
    std::vector<size_t> r;
    size_t ri = 0;
    for (size_t i = 1; i < s.size(); ++i)
    {
        ri = G_(s[i - 1]) == G::RI ? ri + 1 : 0;
        if (graphemeBreakBefore(s, i, ri))
            r.push_back(i);
    }
    if (!s.empty())
        r.push_back(s.size());
    return r;
}
// }}}

// {{{ UAX #29 words
inline bool wbIgnorable(W w) { return w == W::Extend || w == W::Format || w == W::ZWJ; }
inline bool wbNewline(W w) { return w == W::Newline || w == W::CR || w == W::LF; }

// riBefore: how many regional indicators precede text[i] (ignorable characters between them skipped).
inline bool wordBreakBefore(U32V s, size_t i, std::optional<size_t> riBefore = std::nullopt)
{
    auto const rawA = W_(s[i - 1]), B = W_(s[i]);
    if (rawA == W::CR && B == W::LF) // WB3
        return false;
    if (wbNewline(rawA) || wbNewline(B)) // WB3a, WB3b
        return true;
    if (rawA == W::ZWJ && P_(s[i])) // WB3c
        return false;
    if (rawA == W::WSegSpace && B == W::WSegSpace) // WB3d
        return false;
    if (wbIgnorable(B)) // WB4 (not after sot/newline, excluded above)
        return false;
    // WB4: X (Extend|Format|ZWJ)* -> X, X not a newline. Index of the X governing position p-1 and below.
    auto back = [&](size_t p) -> std::optional<size_t> { // last significant position < p
        if (p == 0)
            return std::nullopt;
        size_t j = p;
        while (j > 0)
        {
            --j;
            if (!wbIgnorable(W_(s[j])))
                break;
            if (j == 0 || wbNewline(W_(s[j - 1])))
                break; // ignorable characters at the start of a line stand for themselves
        }
        return j;
    };
    auto fwd = [&](size_t p) -> std::optional<size_t> { // first significant position > p
        size_t j = p + 1;
        while (j < s.size() && wbIgnorable(W_(s[j])))
            ++j;
        if (j >= s.size())
            return std::nullopt;
        return j;
    };
    auto cls = [&](std::optional<size_t> p) { return p ? W_(s[*p]) : W::Newline; };
    auto const ia = back(i);
    auto const A = cls(ia);
    auto const A2 = ia ? cls(back(*ia)) : W::Newline;
    auto const N = cls(fwd(i));
    auto ah = [](W w) { return w == W::ALetter || w == W::Hebrew; };
    auto mnlq = [](W w) { return w == W::MidNumLet || w == W::SQ; };
    if (ah(A) && ah(B)) // WB5
        return false;
    if (ah(A) && (B == W::MidLetter || mnlq(B)) && ah(N)) // WB6
        return false;
    if (ah(A2) && (A == W::MidLetter || mnlq(A)) && ah(B)) // WB7
        return false;
    if (A == W::Hebrew && B == W::SQ) // WB7a
        return false;
    if (A == W::Hebrew && B == W::DQ && N == W::Hebrew) // WB7b
        return false;
    if (A2 == W::Hebrew && A == W::DQ && B == W::Hebrew) // WB7c
        return false;
    if (A == W::Numeric && B == W::Numeric) // WB8
        return false;
    if (ah(A) && B == W::Numeric) // WB9
        return false;
    if (A == W::Numeric && ah(B)) // WB10
        return false;
    if (A2 == W::Numeric && (A == W::MidNum || mnlq(A)) && B == W::Numeric) // WB11
        return false;
    if (A == W::Numeric && (B == W::MidNum || mnlq(B)) && N == W::Numeric) // WB12
        return false;
    if (A == W::Katakana && B == W::Katakana) // WB13
        return false;
    if ((ah(A) || A == W::Numeric || A == W::Katakana || A == W::ExtendNumLet) && B == W::ExtendNumLet) // WB13a
        return false;
    if (A == W::ExtendNumLet && (ah(B) || B == W::Numeric || B == W::Katakana)) // WB13b
        return false;
    if (A == W::RI && B == W::RI) // WB15, WB16
    {
        size_t n = riBefore.value_or(0);
        std::optional<size_t> j = ia;
        while (!riBefore && j && W_(s[*j]) == W::RI)
        {
            ++n;
            j = back(*j);
        }
        if (n % 2 == 1)
            return false;
    }
    return true; // WB999
}
inline std::vector<size_t> wordEnds(U32V s)
{
    std::vector<size_t> r;
    size_t ri = 0;
    for (size_t i = 1; i < s.size(); ++i)
    {
        auto const w = W_(s[i - 1]);
        if (w == W::RI)
            ++ri;
        else if (!wbIgnorable(w))
            ri = 0;
        if (wordBreakBefore(s, i, ri))
            r.push_back(i);
    }
    if (!s.empty())
        r.push_back(s.size());
    return r;
}
// }}}

// {{{ UAX #15
constexpr uint32_t SBase = 0xAC00, LBase = 0x1100, VBase = 0x1161, TBase = 0x11A7, LCount = 19, VCount = 21, TCount = 28;

inline unsigned ccc(uint32_t cp) { return cp < MaxCp ? unicodeData().ccc[cp] : 0; }

inline void decompose(uint32_t cp, bool compat, U32& out)
{
    if (cp >= SBase && cp < SBase + LCount * VCount * TCount)
    {
        auto const i = cp - SBase;
        out.push_back(LBase + i / (VCount * TCount));
        out.push_back(VBase + (i % (VCount * TCount)) / TCount);
        if (i % TCount)
            out.push_back(TBase + i % TCount);
        return;
    }
    auto const& d = unicodeData().decomp;
    auto const it = d.find(cp);
    if (it == d.end() || (!compat && !it->second.first.empty()))
    {
        out.push_back(cp);
        return;
    }
    for (auto c: it->second.second)
        decompose(c, compat, out);
}

inline U32 nfd(U32V s, bool compat = false)
{
    U32 d;
    for (auto c: s)
        decompose(c, compat, d);
    // canonical ordering algorithm: stable sort of each maximal run of non-starters
    size_t i = 0;
    while (i < d.size())
    {
        if (ccc(d[i]) == 0)
        {
            ++i;
            continue;
        }
        size_t j = i;
        while (j < d.size() && ccc(d[j]) != 0)
            ++j;
        std::stable_sort(d.begin() + static_cast<long>(i), d.begin() + static_cast<long>(j), [](char32_t a, char32_t b) { return ccc(a) < ccc(b); });
        i = j;
    }
    return d;
}

inline std::map<std::pair<uint32_t, uint32_t>, uint32_t> const& primaryComposites()
{
    static std::map<std::pair<uint32_t, uint32_t>, uint32_t> const m = [] {
        std::map<std::pair<uint32_t, uint32_t>, uint32_t> r;
        for (auto const& [cp, d]: unicodeData().decomp)
            if (d.first.empty() && d.second.size() == 2 && !normProps().fullExcl[cp])
                r[{ d.second[0], d.second[1] }] = cp;
        return r;
    }();
    return m;
}
inline std::optional<uint32_t> composePair(uint32_t a, uint32_t b)
{
    if (a >= LBase && a < LBase + LCount && b >= VBase && b < VBase + VCount)
        return SBase + ((a - LBase) * VCount + (b - VBase)) * TCount;
    if (a >= SBase && a < SBase + LCount * VCount * TCount && (a - SBase) % TCount == 0 && b > TBase && b < TBase + TCount)
        return a + (b - TBase);
    auto const& m = primaryComposites();
    auto const i = m.find({ a, b });
    if (i == m.end())
        return std::nullopt;
    return i->second;
}
// The canonical composition algorithm, D117: each character C is tried with the last starter L before it
// unless a character that is left between them blocks it (is a starter, impossible here, or has a
// combining class not below C's).
inline U32 nfc(U32V s, bool compat = false)
{
    U32 d = nfd(s, compat);
    std::vector<bool> gone(d.size(), false);
    std::optional<size_t> l;  // the last starter before i
    bool between = false;     // something is left between l and i,
    unsigned highest = 0;     // of at most this combining class
    for (size_t i = 0; i < d.size(); ++i)
    {
        if (l && !(between && highest >= ccc(d[i])))
            if (auto const c = composePair(d[*l], d[i]))
            {
                d[*l] = *c;
                gone[i] = true;
                continue;
            }
        if (ccc(d[i]) == 0)
        {
            l = i;
            between = false;
            highest = 0;
        }
        else
        {
            between = true;
            highest = std::max(highest, ccc(d[i]));
        }
    }
    U32 r;
    for (size_t i = 0; i < d.size(); ++i)
        if (!gone[i])
            r.push_back(d[i]);
    return r;
}
inline U32 norm(U32V s, int form) // 0 NFC 1 NFD 2 NFKC 3 NFKD
{
    switch (form)
    {
        case 0: return nfc(s);
        case 1: return nfd(s);
        case 2: return nfc(s, true);
        default: return nfd(s, true);
    }
}
// }}}

// {{{ case
inline std::vector<uint32_t> simple1(std::unordered_map<uint32_t, uint32_t> const& m, uint32_t cp)
{
    auto const i = m.find(cp);
    return { i == m.end() ? cp : i->second };
}
inline uint32_t simpleUpper(uint32_t cp) { return simple1(unicodeData().upper, cp)[0]; }
inline uint32_t simpleLower(uint32_t cp) { return simple1(unicodeData().lower, cp)[0]; }
inline uint32_t simpleTitle(uint32_t cp)
{
    auto const& t = unicodeData().title;
    if (auto const i = t.find(cp); i != t.end())
        return i->second;
    return simpleUpper(cp);
}
inline uint32_t simpleFold(uint32_t cp) { return simple1(caseData().foldSimple, cp)[0]; }
using Special = std::unordered_map<uint32_t, std::vector<uint32_t>>;
inline std::vector<uint32_t> special(Special const& m, uint32_t cp, uint32_t simple)
{
    auto const i = m.find(cp);
    return i == m.end() ? std::vector<uint32_t> { simple } : i->second;
}
inline std::vector<uint32_t> fullUpper(uint32_t cp) { return special(caseData().specialUpper, cp, simpleUpper(cp)); }
inline std::vector<uint32_t> fullLower(uint32_t cp) { return special(caseData().specialLower, cp, simpleLower(cp)); }
inline std::vector<uint32_t> fullTitle(uint32_t cp) { return special(caseData().specialTitle, cp, simpleTitle(cp)); }
inline std::vector<uint32_t> fullFold(uint32_t cp) { return special(caseData().foldFull, cp, cp); }
inline bool isCased(uint32_t cp)
{
    if (cp >= MaxCp)
        return false;
    auto const& g = gc().at(cp);
    return g == "Lu" || g == "Ll" || g == "Lt";
}
inline bool isCaseIgnorable(uint32_t cp)
{
    if (cp >= MaxCp)
        return false;
    auto const& g = gc().at(cp);
    if (g == "Mn" || g == "Me" || g == "Cf" || g == "Lm" || g == "Sk")
        return true;
    auto const w = W_(cp);
    return w == W::MidLetter || w == W::MidNumLet || w == W::SQ;
}
template <typename F>
U32 mapAll(U32V s, F f)
{
    U32 r;
    for (auto c: s)
        for (auto x: f(c))
            r.push_back(x);
    return r;
}
inline U32 upper(U32V s) { return mapAll(s, fullUpper); }
inline U32 lower(U32V s) { return mapAll(s, fullLower); }
inline U32 fold(U32V s) { return mapAll(s, fullFold); }
inline U32 title(U32V s)
{
    U32 r;
    size_t b = 0;
    for (auto e: wordEnds(s))
    {
        bool seen = false;
        for (size_t i = b; i < e; ++i)
        {
            if (!isCased(s[i]))
            {
                r.push_back(s[i]);
                continue;
            }
            for (auto x: seen ? fullLower(s[i]) : fullTitle(s[i]))
                r.push_back(x);
            seen = true;
        }
        b = e;
    }
    return r;
}
// }}}

// {{{ script runs (UAX #24, script extensions), in the library's documented resolution order
struct ScriptRun
{
    std::string script;
    size_t end;
    bool operator==(ScriptRun const&) const = default;
};
inline bool specificScript(std::string const& s) { return s != "Common" && s != "Inherited"; }
inline std::vector<std::string> scriptsFor(uint32_t cp)
{
    auto const& sc = script().at(cp);
    std::vector<std::string> set = scx().sets[scx().idx[cp]];
    std::sort(set.begin(), set.end()); // the library keeps extensions in the order of their short names; resolved below
    if (set.empty())
        return { sc };
    if (std::find(set.begin(), set.end(), sc) == set.end())
        set.push_back(sc);
    return set;
}
struct ScriptRunModel
{
    std::vector<size_t> ends;
    std::vector<std::set<std::string>> allowed; // scripts the run may report
};
inline ScriptRunModel scriptRuns(U32V s)
{
    ScriptRunModel m;
    std::set<std::string> cur; // empty: nothing specific yet
    bool any = false;          // a character with a specific script has been seen in this run
    std::set<std::string> seenNeutral { "Common" };
    auto close = [&](size_t e) {
        m.ends.push_back(e);
        std::set<std::string> spec;
        for (auto const& x: cur)
            if (specificScript(x))
                spec.insert(x);
        if (spec.empty())
        {
            std::set<std::string> n { "Common" };
            if (any)
                n.insert("Inherited");
            m.allowed.push_back(n);
        }
        else
            m.allowed.push_back(spec);
    };
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto const v = scriptsFor(s[i]);
        std::set<std::string> const next(v.begin(), v.end());
        bool const neutral = std::none_of(next.begin(), next.end(), specificScript);
        if (neutral)
            continue;
        bool const curSpecific = std::any_of(cur.begin(), cur.end(), specificScript);
        if (!curSpecific)
        {
            cur = next;
            any = true;
            continue;
        }
        std::set<std::string> both;
        std::set_intersection(cur.begin(), cur.end(), next.begin(), next.end(), std::inserter(both, both.end()));
        if (both.empty())
        {
            close(i);
            cur = next;
            any = true;
            continue;
        }
        cur = both;
    }
    if (!s.empty())
        close(s.size());
    return m;
}
// }}}

// {{{ emoji presentation runs (UTS #51 grammar of emoji_presentation_scanner.rl)
enum class E : int8_t
{
    Invalid = -1, Emoji, EmojiText, EmojiEmoji, ModBase, Mod, VSBase, RI, KeyCapBase, KeyCap, Backslash, ZWJ, VS15, VS16, TagBase, TagSeq, TagTerm
};
inline E esc(uint32_t c)
{
    if (c == 0x20E3)
        return E::KeyCap;
    if (c == 0x20E0)
        return E::Backslash;
    if (c == 0x200D)
        return E::ZWJ;
    if (c == 0xFE0E)
        return E::VS15;
    if (c == 0xFE0F)
        return E::VS16;
    if (c == 0x1F3F4)
        return E::TagBase;
    if ((c >= 0xE0030 && c <= 0xE0039) || (c >= 0xE0061 && c <= 0xE007A))
        return E::TagSeq;
    if (c == 0xE007F)
        return E::TagTerm;
    if (isEmojiModifierBase(c))
        return E::ModBase;
    if (isEmojiModifier(c))
        return E::Mod;
    if (c >= 0x1F1E6 && c <= 0x1F1FF)
        return E::RI;
    if ((c >= '0' && c <= '9') || c == '#' || c == '*')
        return E::KeyCapBase;
    if (isEmojiPresentation(c))
        return E::EmojiEmoji;
    if (isEmoji(c))
        return E::EmojiText; // Emoji=Yes, Emoji_Presentation=No
    return E::Invalid;
}
inline bool anyEmoji(E e)
{
    return e == E::EmojiText || e == E::EmojiEmoji || e == E::KeyCapBase || e == E::ModBase || e == E::TagBase || e == E::Emoji;
}
// Longest token at position i: (length, isEmoji).
inline std::pair<size_t, bool> emojiToken(U32V s, size_t i)
{
    auto at = [&](size_t k) { return k < s.size() ? esc(s[k]) : E::Invalid; };
    size_t text = 1, emoji = 0;
    if (anyEmoji(at(i)) && at(i + 1) == E::VS15)
        text = 2;
    auto see = [&](size_t n) { emoji = std::max(emoji, n); };
    auto const a = at(i);
    if (a == E::EmojiEmoji || a == E::TagBase || a == E::ModBase)
        see(1);
    if (anyEmoji(a) && at(i + 1) == E::VS16)
        see(2);
    if (a == E::ModBase && at(i + 1) == E::Mod)
        see(2);
    if (a == E::RI && at(i + 1) == E::RI)
        see(2);
    if (anyEmoji(a) && at(i + 1) == E::Backslash)
        see(2);
    if (a == E::KeyCapBase && at(i + 1) == E::VS16 && at(i + 2) == E::KeyCap)
        see(3);
    if (a == E::TagBase)
    {
        size_t k = i + 1;
        while (at(k) == E::TagSeq)
            ++k;
        if (k > i + 1 && at(k) == E::TagTerm)
            see(k + 1 - i);
    }
    // zwj sequence: element (ZWJ element)+ ; elements can be taken in more than one way, try all
    {
        auto elementEnds = [&](size_t k) {
            std::vector<size_t> r;
            if (anyEmoji(at(k)))
            {
                r.push_back(k + 1);
                if (at(k + 1) == E::VS16)
                    r.push_back(k + 2);
            }
            if (at(k) == E::ModBase && at(k + 1) == E::Mod)
                r.push_back(k + 2);
            return r;
        };
        std::set<size_t> front;
        for (auto e: elementEnds(i))
            front.insert(e);
        while (!front.empty())
        {
            std::set<size_t> nextFront;
            for (auto e: front)
                if (at(e) == E::ZWJ)
                    for (auto n: elementEnds(e + 1))
                    {
                        see(n - i);
                        nextFront.insert(n);
                    }
            front = nextFront;
        }
    }
    // longest match; on equal length the text token is listed first
    if (text >= emoji && (text > 1 || emoji == 0))
        return { text, false };
    if (emoji > text || (emoji == 1 && text == 1))
        return { emoji, true };
    return { text, false };
}
struct EmojiRun
{
    bool emoji;
    size_t end;
    bool operator==(EmojiRun const&) const = default;
};
inline std::vector<EmojiRun> emojiRuns(U32V s)
{
    std::vector<EmojiRun> r;
    size_t i = 0;
    while (i < s.size())
    {
        auto const [n, e] = emojiToken(s, i);
        i += n;
        if (!r.empty() && r.back().emoji == e)
            r.back().end = i;
        else
            r.push_back({ e, i });
    }
    return r;
}
// }}}

// {{{ width of one grapheme cluster: wcwidth 0.8 wcswidth(), over the whole sequence at once
inline bool isRI(uint32_t c) { return c >= 0x1F1E6 && c <= 0x1F1FF; }
// With prefixes, also the width of every prefix (of s[0..i] at index i).
inline unsigned clusterWidth(U32V s, std::vector<unsigned>* prefixes = nullptr)
{
    if (prefixes)
        prefixes->clear();
    auto wide = [](uint32_t c) { return static_cast<int>(width(c)); };
    if (s.empty())
        return 0;
    if (s.size() == 1 && !prefixes)
        return width(s[0]);
    int total = 0, current = 0, lastW = 0;
    std::optional<size_t> last;  // index of the last measured character
    bool open = false, virama = false;
    size_t i = 0;
    size_t counted = 0, run = 0; // of the characters before `counted`, the last `run` are regional indicators
    while (i < s.size())
    {
        auto const c = static_cast<uint32_t>(s[i]);
        if (prefixes)
            while (prefixes->size() < i)
                prefixes->push_back(prefixes->empty() ? width(s[0]) : static_cast<unsigned>(std::max(total + current, 0)));
        for (; counted < i; ++counted)
            run = isRI(s[counted]) ? run + 1 : 0;
        if (c == 0x200D)
        {
            if (virama)
            {
                ++i;
                continue;
            }
            lastW = 0;
            i += 2; // swallows the next character
            continue;
        }
        if (c == 0xFE0F && open)
        {
            auto const b = static_cast<uint32_t>(s[*last]);
            if (isEmojiVariationBase(b) && width(b) == 1)
                current = 2;
            open = false;
            ++i;
            continue;
        }
        if (c == 0xFE0E && open)
        {
            if (isEmojiVariationBase(s[*last]) && lastW == 2)
                --total;
            ++i;
            continue;
        }
        if (isRI(c))
        {
            if (run % 2 == 1)
            {
                last = i;
                ++i;
                continue;
            }
        }
        if (c >= 0x1F3FB && c <= 0x1F3FF && last && (isExtPict(s[*last]) || isRI(s[*last])))
        {
            ++i;
            continue;
        }
        auto const w = wide(c);
        if (w > 0)
        {
            if (virama)
                current = 2;
            else
            {
                total += current;
                current = w;
            }
            last = i;
            lastW = w;
            open = true;
            virama = false;
        }
        else if (isVirama(c))
            virama = true;
        else
        {
            if (c < MaxCp && gc().is(c, "Mc") && open)
            {
                current = 2;
                open = false;
            }
            virama = false;
        }
        ++i;
    }
    if (prefixes)
        while (prefixes->size() < s.size())
            prefixes->push_back(prefixes->empty() ? width(s[0]) : static_cast<unsigned>(std::max(total + current, 0)));
    auto const t = s.size() == 1 ? static_cast<int>(width(s[0])) : total + current;
    return t > 0 ? static_cast<unsigned>(t) : 0;
}
inline unsigned stringWidth(U32V s)
{
    unsigned w = 0;
    size_t b = 0;
    for (auto e: graphemeEnds(s))
    {
        w += clusterWidth(s.substr(b, e - b));
        b = e;
    }
    return w;
}
// }}}

// {{{ UTF-8 / UTF-16
inline void encodeUtf8(uint32_t c, std::string& o)
{
    if (c < 0x80)
        o += static_cast<char>(c);
    else if (c < 0x800)
    {
        o += static_cast<char>(0xC0 | (c >> 6));
        o += static_cast<char>(0x80 | (c & 0x3F));
    }
    else if (c < 0x10000)
    {
        o += static_cast<char>(0xE0 | (c >> 12));
        o += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        o += static_cast<char>(0x80 | (c & 0x3F));
    }
    else
    {
        o += static_cast<char>(0xF0 | ((c >> 18) & 7));
        o += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
        o += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
        o += static_cast<char>(0x80 | (c & 0x3F));
    }
}
inline std::string utf8(U32V s)
{
    std::string o;
    for (auto c: s)
        encodeUtf8(c, o);
    return o;
}
inline std::u16string utf16(U32V s)
{
    std::u16string o;
    for (auto c: s)
    {
        if (c < 0x10000)
            o += static_cast<char16_t>(c);
        else
        {
            auto const x = static_cast<uint32_t>(c) - 0x10000;
            o += static_cast<char16_t>(0xD800 + (x >> 10));
            o += static_cast<char16_t>(0xDC00 + (x & 0x3FF));
        }
    }
    return o;
}
// Structural UTF-8 units: a character (lead byte with all its continuation bytes) or one
// ill-formed byte run piece.
struct Unit
{
    size_t begin, end;
    bool ok;
    uint32_t value; // as decoded structurally (may be overlong, a surrogate or above U+10FFFF)
};
inline size_t leadLength(uint8_t b)
{
    if (b < 0x80)
        return 1;
    if (b < 0xC0)
        return 0;
    if (b < 0xE0)
        return 2;
    if (b < 0xF0)
        return 3;
    if (b < 0xF8)
        return 4;
    return 0;
}
inline std::vector<Unit> units(std::string_view s)
{
    std::vector<Unit> r;
    size_t i = 0;
    while (i < s.size())
    {
        auto const b = static_cast<uint8_t>(s[i]);
        auto const n = leadLength(b);
        if (n == 0)
        {
            r.push_back({ i, i + 1, false, 0 });
            ++i;
            continue;
        }
        uint32_t v = n == 1 ? b : n == 2 ? (b & 0x1F) : n == 3 ? (b & 0x0F) : (b & 0x07);
        size_t k = 1;
        while (k < n && i + k < s.size() && (static_cast<uint8_t>(s[i + k]) & 0xC0) == 0x80)
        {
            v = (v << 6) | (static_cast<uint8_t>(s[i + k]) & 0x3F);
            ++k;
        }
        r.push_back({ i, i + k, k == n, v });
        i += k;
    }
    return r;
}
// }}}

} // namespace ref
