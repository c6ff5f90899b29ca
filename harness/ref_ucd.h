// Reference data: reads the UCD text files directly, independently of the library's generator.
// Nothing here includes a libunicode header.
#pragma once

#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace ref
{

constexpr uint32_t MaxCp = 0x110000;

inline std::string ucdDir()
{
    char const* e = getenv("PBT_UCD");
    return e && *e ? e : "/usr/share/unicode";
}

inline std::string slurp(std::string const& path)
{
    std::string s;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f)
    {
        fprintf(stderr, "cannot read %s\n", path.c_str());
        exit(2);
    }
    fseek(f, 0, SEEK_END);
    s.resize(static_cast<size_t>(ftell(f)));
    fseek(f, 0, SEEK_SET);
    if (fread(s.data(), 1, s.size(), f) != s.size())
        exit(2);
    fclose(f);
    return s;
}

inline std::string_view trim(std::string_view s)
{
    while (!s.empty() && (s.front() == ' ' || s.front() == '\t' || s.front() == '\r'))
        s.remove_prefix(1);
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t' || s.back() == '\r'))
        s.remove_suffix(1);
    return s;
}

inline uint32_t hex(std::string_view s)
{
    uint32_t v = 0;
    for (char c: s)
    {
        if (c >= '0' && c <= '9')
            v = v * 16 + static_cast<uint32_t>(c - '0');
        else if (c >= 'A' && c <= 'F')
            v = v * 16 + static_cast<uint32_t>(c - 'A' + 10);
        else if (c >= 'a' && c <= 'f')
            v = v * 16 + static_cast<uint32_t>(c - 'a' + 10);
        else
            break;
    }
    return v;
}

inline std::vector<uint32_t> hexList(std::string_view s)
{
    std::vector<uint32_t> r;
    size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && s[i] == ' ')
            ++i;
        size_t j = i;
        while (j < s.size() && s[j] != ' ')
            ++j;
        if (j > i)
            r.push_back(hex(s.substr(i, j - i)));
        i = j;
    }
    return r;
}

using Fields = std::vector<std::string_view>;

// Calls fn(fields) for every data line (comment stripped, fields trimmed).
template <typename Fn>
void lines(std::string const& file, Fn&& fn)
{
    auto const text = slurp(ucdDir() + "/" + file);
    Fields fields;
    size_t p = 0;
    while (p < text.size())
    {
        auto e = text.find('\n', p);
        if (e == std::string::npos)
            e = text.size();
        std::string_view l(text.data() + p, e - p);
        p = e + 1;
        if (auto const h = l.find('#'); h != l.npos)
            l = l.substr(0, h);
        l = trim(l);
        if (l.empty())
            continue;
        fields.clear();
        size_t q = 0;
        for (;;)
        {
            auto const s = l.find(';', q);
            fields.push_back(trim(l.substr(q, s == l.npos ? l.npos : s - q)));
            if (s == l.npos)
                break;
            q = s + 1;
        }
        fn(fields);
    }
}

inline void rangeOf(std::string_view f, uint32_t& lo, uint32_t& hi)
{
    auto const d = f.find("..");
    lo = hex(f.substr(0, d));
    hi = d == f.npos ? lo : hex(f.substr(d + 2));
}

// One enumerated property: a small integer per codepoint plus value names.
struct Prop
{
    std::vector<uint8_t> v = std::vector<uint8_t>(MaxCp, 0);
    std::vector<std::string> names;
    explicit Prop(std::string_view dflt = "") { names.emplace_back(dflt); }
    uint8_t code(std::string_view n)
    {
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] == n)
                return static_cast<uint8_t>(i);
        names.emplace_back(n);
        return static_cast<uint8_t>(names.size() - 1);
    }
    int find(std::string_view n) const
    {
        for (size_t i = 0; i < names.size(); ++i)
            if (names[i] == n)
                return static_cast<int>(i);
        return -1;
    }
    void set(uint32_t lo, uint32_t hi, std::string_view n) { memset(v.data() + lo, code(n), hi - lo + 1); }
    std::string const& at(uint32_t cp) const { return names[v[cp]]; }
    bool is(uint32_t cp, std::string_view n) const { return cp < MaxCp && names[v[cp]] == n; }
};

inline Prop loadProp(std::string const& file, std::string_view dflt, size_t field = 1)
{
    Prop p(dflt);
    lines(file, [&](Fields const& f) {
        if (f.size() <= field)
            return;
        uint32_t lo, hi;
        rangeOf(f[0], lo, hi);
        p.set(lo, hi, f[field]);
    });
    return p;
}

using Bits = std::vector<bool>;

struct Case3
{
    uint32_t upper, lower, title;
};

// {{{ Data, loaded on first use
struct UnicodeData
{
    std::vector<uint8_t> ccc = std::vector<uint8_t>(MaxCp, 0);
    std::vector<bool> mirrored = std::vector<bool>(MaxCp, false);
    std::vector<bool> listed = std::vector<bool>(MaxCp, false);
    std::vector<bool> rangeEnd = std::vector<bool>(MaxCp, false); // First/Last line
    std::map<uint32_t, std::pair<std::string, std::vector<uint32_t>>> decomp; // tag ("" canonical)
    std::unordered_map<uint32_t, uint32_t> upper, lower, title;
    std::vector<std::string> gcAbbrev;
    Prop gc { "Cn" };
};

inline UnicodeData const& unicodeData()
{
    static UnicodeData const d = [] {
        UnicodeData u;
        uint32_t first = 0;
        lines("UnicodeData.txt", [&](Fields const& f) {
            uint32_t const cp = hex(f[0]);
            uint32_t lo = cp;
            if (f[1].size() > 8 && f[1].substr(f[1].size() - 8) == ", First>")
            {
                first = cp;
                u.rangeEnd[cp] = true;
                return;
            }
            if (f[1].size() > 7 && f[1].substr(f[1].size() - 7) == ", Last>")
            {
                lo = first;
                u.rangeEnd[cp] = true;
            }
            u.gc.set(lo, cp, f[2]);
            for (uint32_t c = lo; c <= cp; ++c)
            {
                u.listed[c] = true;
                u.ccc[c] = static_cast<uint8_t>(atoi(std::string(f[3]).c_str()));
                if (f[9] == "Y")
                    u.mirrored[c] = true;
            }
            if (lo != cp)
                return;
            if (!f[5].empty())
            {
                auto m = f[5];
                std::string tag;
                if (m[0] == '<')
                {
                    auto const e = m.find('>');
                    tag = std::string(m.substr(1, e - 1));
                    m = trim(m.substr(e + 1));
                }
                u.decomp[cp] = { tag, hexList(m) };
            }
            if (!f[12].empty())
                u.upper[cp] = hex(f[12]);
            if (!f[13].empty())
                u.lower[cp] = hex(f[13]);
            if (f.size() > 14 && !f[14].empty())
                u.title[cp] = hex(f[14]);
        });
        return u;
    }();
    return d;
}

// property value aliases: short -> long of one property
inline std::map<std::string, std::string> const& valueAliases(std::string const& prop)
{
    static std::map<std::string, std::map<std::string, std::string>> const all = [] {
        std::map<std::string, std::map<std::string, std::string>> r;
        lines("PropertyValueAliases.txt", [&](Fields const& f) {
            if (f.size() < 3)
                return;
            if (f[0] == "ccc")
                return;
            auto& m = r[std::string(f[0])];
            auto const lng = std::string(f[2]);
            m[std::string(f[1])] = lng;
        });
        return r;
    }();
    static std::map<std::string, std::string> const none;
    auto const i = all.find(prop);
    return i == all.end() ? none : i->second;
}

inline std::string longName(std::string const& prop, std::string_view shortName)
{
    auto const& m = valueAliases(prop);
    auto const i = m.find(std::string(shortName));
    return i == m.end() ? std::string(shortName) : i->second;
}

#define REF_PROP(NAME, ...)              \
    inline Prop const& NAME()            \
    {                                    \
        static Prop const p = __VA_ARGS__; \
        return p;                        \
    }

REF_PROP(script, loadProp("Scripts.txt", "Unknown"))
REF_PROP(gcb, loadProp("auxiliary/GraphemeBreakProperty.txt", "Other"))
REF_PROP(wb, loadProp("auxiliary/WordBreakProperty.txt", "Other"))
REF_PROP(gc, loadProp("extracted/DerivedGeneralCategory.txt", "Cn"))
REF_PROP(eaw, loadProp("EastAsianWidth.txt", ""))
REF_PROP(age, loadProp("DerivedAge.txt", ""))
REF_PROP(hst, loadProp("HangulSyllableType.txt", "NA"))
REF_PROP(insc, loadProp("IndicSyllabicCategory.txt", "Other"))

inline Prop const& incb()
{
    static Prop const p = [] {
        Prop q("None");
        lines("DerivedCoreProperties.txt", [&](Fields const& f) {
            if (f.size() < 3 || f[1] != "InCB")
                return;
            uint32_t lo, hi;
            rangeOf(f[0], lo, hi);
            q.set(lo, hi, f[2]);
        });
        return q;
    }();
    return p;
}

// binary properties of one file
inline std::map<std::string, Bits> loadBinary(std::string const& file)
{
    std::map<std::string, Bits> r;
    lines(file, [&](Fields const& f) {
        if (f.size() != 2)
            return;
        uint32_t lo, hi;
        rangeOf(f[0], lo, hi);
        auto& b = r[std::string(f[1])];
        if (b.empty())
            b.resize(MaxCp);
        for (uint32_t c = lo; c <= hi; ++c)
            b[c] = true;
    });
    return r;
}
inline std::map<std::string, Bits> const& coreProps()
{
    static auto const r = loadBinary("DerivedCoreProperties.txt");
    return r;
}
inline std::map<std::string, Bits> const& emojiProps()
{
    static auto const r = loadBinary("emoji/emoji-data.txt");
    return r;
}
inline Bits const& binary(std::map<std::string, Bits> const& m, std::string const& n)
{
    static Bits const none(MaxCp);
    auto const i = m.find(n);
    return i == m.end() ? none : i->second;
}
#define REF_BITS(NAME, MAP, KEY)                          \
    inline bool NAME(uint32_t cp)                         \
    {                                                     \
        static Bits const& b = binary(MAP(), KEY);        \
        return cp < MaxCp && b[cp];                       \
    }
REF_BITS(isEmoji, emojiProps, "Emoji")
REF_BITS(isEmojiPresentation, emojiProps, "Emoji_Presentation")
REF_BITS(isEmojiModifier, emojiProps, "Emoji_Modifier")
REF_BITS(isEmojiModifierBase, emojiProps, "Emoji_Modifier_Base")
REF_BITS(isEmojiComponent, emojiProps, "Emoji_Component")
REF_BITS(isExtPict, emojiProps, "Extended_Pictographic")
REF_BITS(isCoreGraphemeExtend, coreProps, "Grapheme_Extend")

inline bool isEmojiVariationBase(uint32_t cp)
{
    static Bits const b = [] {
        Bits r(MaxCp);
        lines("emoji/emoji-variation-sequences.txt", [&](Fields const& f) {
            auto const s = hexList(f[0]);
            if (s.size() == 2 && (s[1] == 0xFE0E || s[1] == 0xFE0F))
                r[s[0]] = true;
        });
        return r;
    }();
    return cp < MaxCp && b[cp];
}

inline bool isVirama(uint32_t cp)
{
    return cp < MaxCp && (insc().is(cp, "Virama") || insc().is(cp, "Invisible_Stacker"));
}

// Script extensions as sets of long script names; empty = not listed.
struct ScxData
{
    std::vector<std::vector<std::string>> sets; // [0] = not listed
    std::vector<uint8_t> idx = std::vector<uint8_t>(MaxCp, 0);
};
inline ScxData const& scx()
{
    static ScxData const d = [] {
        ScxData r;
        r.sets.emplace_back();
        std::map<std::vector<std::string>, size_t> ids;
        lines("ScriptExtensions.txt", [&](Fields const& f) {
            uint32_t lo, hi;
            rangeOf(f[0], lo, hi);
            std::vector<std::string> v;
            std::string_view s = f[1];
            while (!s.empty())
            {
                auto const e = s.find(' ');
                auto const a = s.substr(0, e);
                if (!a.empty())
                    v.push_back(longName("sc", a));
                s = e == s.npos ? std::string_view {} : s.substr(e + 1);
            }
            auto [i, fresh] = ids.emplace(v, r.sets.size());
            if (fresh)
                r.sets.push_back(v);
            memset(r.idx.data() + lo, static_cast<int>(i->second), hi - lo + 1);
        });
        return r;
    }();
    return d;
}

struct BlockRange
{
    uint32_t lo, hi;
    std::string name;
};
inline std::vector<BlockRange> const& blocks()
{
    static std::vector<BlockRange> const b = [] {
        std::vector<BlockRange> r;
        lines("Blocks.txt", [&](Fields const& f) {
            BlockRange x;
            rangeOf(f[0], x.lo, x.hi);
            x.name = std::string(f[1]);
            r.push_back(x);
        });
        return r;
    }();
    return b;
}

inline std::unordered_map<uint32_t, uint32_t> const& bidiMirror()
{
    static std::unordered_map<uint32_t, uint32_t> const m = [] {
        std::unordered_map<uint32_t, uint32_t> r;
        lines("BidiMirroring.txt", [&](Fields const& f) { r[hex(f[0])] = hex(f[1]); });
        return r;
    }();
    return m;
}

inline Bits const& compositionExclusions()
{
    static Bits const b = [] {
        Bits r(MaxCp);
        lines("CompositionExclusions.txt", [&](Fields const& f) {
            uint32_t lo, hi;
            rangeOf(f[0], lo, hi);
            for (uint32_t c = lo; c <= hi; ++c)
                r[c] = true;
        });
        return r;
    }();
    return b;
}

// DerivedNormalizationProps: quick checks ('Y','N','M') and full composition exclusion
struct NormProps
{
    std::array<std::vector<char>, 4> qc; // NFC NFD NFKC NFKD
    Bits fullExcl = Bits(MaxCp);
};
inline NormProps const& normProps()
{
    static NormProps const n = [] {
        NormProps r;
        for (auto& q: r.qc)
            q.assign(MaxCp, 'Y');
        lines("DerivedNormalizationProps.txt", [&](Fields const& f) {
            uint32_t lo, hi;
            rangeOf(f[0], lo, hi);
            int which = -1;
            if (f.size() >= 2)
            {
                if (f[1] == "NFC_QC")
                    which = 0;
                else if (f[1] == "NFD_QC")
                    which = 1;
                else if (f[1] == "NFKC_QC")
                    which = 2;
                else if (f[1] == "NFKD_QC")
                    which = 3;
                else if (f[1] == "Full_Composition_Exclusion")
                    for (uint32_t c = lo; c <= hi; ++c)
                        r.fullExcl[c] = true;
            }
            if (which >= 0)
                for (uint32_t c = lo; c <= hi; ++c)
                    r.qc[static_cast<size_t>(which)][c] = f[2][0];
        });
        return r;
    }();
    return n;
}

// case data
struct CaseData
{
    std::unordered_map<uint32_t, std::vector<uint32_t>> specialUpper, specialLower, specialTitle;
    std::unordered_map<uint32_t, uint32_t> foldSimple;
    std::unordered_map<uint32_t, std::vector<uint32_t>> foldFull;
};
inline CaseData const& caseData()
{
    static CaseData const d = [] {
        CaseData r;
        lines("SpecialCasing.txt", [&](Fields const& f) {
            // code; lower; title; upper; (condition;)?
            if (f.size() > 5 || (f.size() == 5 && !f[4].empty()))
                return;
            auto const cp = hex(f[0]);
            r.specialLower[cp] = hexList(f[1]);
            r.specialTitle[cp] = hexList(f[2]);
            r.specialUpper[cp] = hexList(f[3]);
        });
        lines("CaseFolding.txt", [&](Fields const& f) {
            auto const cp = hex(f[0]);
            if (f[1] == "C")
            {
                r.foldSimple[cp] = hex(f[2]);
                r.foldFull[cp] = hexList(f[2]);
            }
            else if (f[1] == "S")
                r.foldSimple[cp] = hex(f[2]);
            else if (f[1] == "F")
                r.foldFull[cp] = hexList(f[2]);
        });
        return r;
    }();
    return d;
}

inline std::vector<std::string> const& names()
{
    static std::vector<std::string> const n = [] {
        std::vector<std::string> r(MaxCp);
        lines("extracted/DerivedName.txt", [&](Fields const& f) {
            uint32_t lo, hi;
            rangeOf(f[0], lo, hi);
            for (uint32_t c = lo; c <= hi; ++c)
                r[c] = std::string(f[1]);
        });
        return r;
    }();
    return n;
}
// }}}

// {{{ width rule (README / width.h)
inline unsigned width(uint32_t cp)
{
    if (cp >= MaxCp)
        cp = 0;
    static std::vector<uint8_t> const w = [] {
        std::vector<uint8_t> r(MaxCp);
        auto const& g = gc();
        auto const& e = eaw();
        auto const& h = hst();
        for (uint32_t c = 0; c < MaxCp; ++c)
        {
            auto const& cat = g.at(c);
            unsigned x = 1;
            if (c == 0xAD)
                x = 1;
            else if (h.at(c) == "V" || h.at(c) == "T")
                x = 0;
            else if (cat == "Cf" && gcb().is(c, "Prepend"))
                x = 1;
            else if (cat == "Cc" || cat == "Me" || cat == "Mn" || cat == "Mc" || cat == "Cf" || cat == "Zl" || cat == "Zp"
                     || cat == "Cs")
                x = 0;
            else if (isEmojiPresentation(c) || e.at(c) == "W" || e.at(c) == "F")
                x = 2;
            r[c] = static_cast<uint8_t>(x);
        }
        return r;
    }();
    return w[cp];
}
// }}}

} // namespace ref
