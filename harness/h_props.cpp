// P22 property record, P23 query functions, P24 names.
#include "gen.h"

#include <pbt/pbt_enums.h>

#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>

#include <algorithm>
#include <span>
#include <type_traits>

using namespace pbt;
using namespace gen;

static constexpr uint64_t Chunk = 256;
static constexpr uint64_t Chunks = ref::MaxCp / Chunk;

// {{{ enumerators by name, taken from the headers
template <typename E>
struct Names;
#define X(T)                                                                 \
    template <>                                                              \
    struct Names<unicode::T>                                                 \
    {                                                                        \
        static std::span<PbtEnumerator const> table() { return pbt_enum_##T; } \
    };
PBT_ENUMS(X)
#undef X
template <typename T>
static std::string const& nameOf(T v)
{
    static std::map<long, std::string> const m = [] {
        std::map<long, std::string> r;
        for (auto const& e: Names<T>::table())
            r[e.value] = e.name;
        return r;
    }();
    static std::string const unknown = "(not an enumerator)";
    auto const i = m.find(static_cast<long>(v));
    return i == m.end() ? unknown : i->second;
}
static std::string ident(std::string s)
{
    for (auto& c: s)
        if (!isalnum(static_cast<unsigned char>(c)))
            c = '_';
    return s;
}
// }}}

static std::string where(uint32_t cp) { return hexStr(U32(1, static_cast<char32_t>(cp))); }

// {{{ expected values
static std::string ageName(uint32_t cp)
{
    auto const& a = ref::age().at(cp);
    return a.empty() ? "Unassigned" : "V" + ident(a);
}
static std::string eawRecord(uint32_t cp)
{
    auto const& a = ref::eaw().at(cp);
    return a.empty() ? "Narrow" : ref::longName("ea", a);
}
static std::string eawQuery(uint32_t cp)
{
    auto const& a = ref::eaw().at(cp);
    return a == "A" ? "Ambiguous" : a == "F" ? "FullWidth" : a == "H" ? "HalfWidth" : a == "N" ? "Neutral" : a == "Na" ? "Narrow" : a == "W" ? "Wide" : "Unspecified";
}
static std::string gcName(uint32_t cp) { return ident(ref::longName("gc", ref::gc().at(cp))); }
static std::string blockName(uint32_t cp)
{
    static auto const v = [] {
        std::vector<std::string> names { "Unspecified" };
        std::vector<uint16_t> idx(ref::MaxCp, 0);
        for (auto const& b: ref::blocks())
        {
            names.push_back(ident(b.name));
            std::fill(idx.begin() + b.lo, idx.begin() + b.hi + 1, static_cast<uint16_t>(names.size() - 1));
        }
        return std::pair { names, idx };
    }();
    return v.first[v.second[cp]];
}
static char const* planeName(uint32_t cp)
{
    switch (cp >> 16)
    {
        case 0: return "Basic_Multilingual_Plane";
        case 1: return "Supplementary_Multilingual_Plane";
        case 2: return "Supplementary_Ideographic_Plane";
        case 3: return "Tertiary_Ideographic_Plane";
        case 14: return "Supplementary_Special_purpose_Plane";
        case 15:
        case 16: return "Supplementary_Private_Use_Area_Plane";
        default: return "Unassigned";
    }
}
static std::string escName(uint32_t cp)
{
    using E = ref::E;
    switch (ref::esc(cp))
    {
#define C(M, N) \
    case E::M: return #N
        C(Invalid, Invalid);
        C(Emoji, Emoji);
        C(EmojiText, EmojiTextPresentation);
        C(EmojiEmoji, EmojiEmojiPresentation);
        C(ModBase, EmojiModifierBase);
        C(Mod, EmojiModifier);
        C(RI, RegionalIndicator);
        C(KeyCapBase, KeyCapBase);
        C(KeyCap, CombiningEnclosingKeyCap);
        C(Backslash, CombiningEnclosingCircleBackslash);
        C(ZWJ, ZWJ);
        C(VS15, VS15);
        C(VS16, VS16);
        C(TagBase, TagBase);
        C(TagSeq, TagSequence);
        C(TagTerm, TagTerm);
#undef C
        default: return "?";
    }
}
// }}}

// {{{ P22
static void checkRecord(Case& c, uint32_t cp)
{
    auto const p = unicode::codepoint_properties::get(cp);
    auto eq = [&](char const* what, std::string const& got, std::string const& want) {
        if (got != want)
            c.fail(std::string(what) + " of " + where(cp) + " is " + got + ", the UCD says " + want);
    };
    auto is = [&](char const* what, bool got, bool want) {
        if (got != want)
            c.fail(std::string(what) + " of " + where(cp) + " is " + (got ? "true" : "false"));
    };
    eq("script", nameOf(p.script), ref::script().at(cp));
    eq("grapheme_cluster_break", nameOf(p.grapheme_cluster_break), ref::gcb().at(cp));
    eq("word_break", nameOf(p.word_break), ref::wb().at(cp));
    eq("general_category", nameOf(p.general_category), gcName(cp));
    eq("east_asian_width", nameOf(p.east_asian_width), eawRecord(cp));
    eq("age", nameOf(p.age), ageName(cp));
    eq("indic_conjunct_break", nameOf(p.indic_conjunct_break), ref::incb().at(cp));
    eq("emoji_segmentation_category", nameOf(p.emoji_segmentation_category), escName(cp));
    is("is_emoji", p.is_emoji(), ref::isEmoji(cp));
    is("is_emoji_presentation", p.is_emoji_presentation(), ref::isEmojiPresentation(cp));
    is("is_emoji_component", p.is_emoji_component(), ref::isEmojiComponent(cp));
    is("is_emoji_modifier", p.is_emoji_modifier(), ref::isEmojiModifier(cp));
    is("is_emoji_modifier_base", p.is_emoji_modifier_base(), ref::isEmojiModifierBase(cp));
    is("is_extended_pictographic", p.is_extended_pictographic(), ref::isExtPict(cp));
    is("is_core_grapheme_extend", p.is_core_grapheme_extend(), ref::isCoreGraphemeExtend(cp));
    is("is_virama", p.is_virama(), ref::isVirama(cp));
    is("is_emoji_variation_base", p.is_emoji_variation_base(), ref::isEmojiVariationBase(cp));
    if (!(p == unicode::codepoint_properties::get(cp)) || p != p)
        c.fail("the record of " + where(cp) + " does not equal itself");
}
static void p22Every(Case& c)
{
    auto const b = static_cast<uint32_t>(c.index(Chunks) * Chunk);
    c.show("codepoints from " + where(b));
    c.evals(Chunk);
    bool mixed = false;
    for (uint32_t cp = b; cp < b + Chunk; ++cp)
    {
        checkRecord(c, cp);
        mixed = mixed || ref::gc().v[cp] != ref::gc().v[b] || ref::script().v[cp] != ref::script().v[b];
    }
    if (mixed)
        c.nontrivial(b);
}
static void p22Order(Case& c) // lookups in arbitrary order, interleaved with values beyond the code space
{
    auto const n = 1 + c.draw(40);
    uint64_t h = 0;
    for (uint64_t i = 0; i < n; ++i)
    {
        if (c.chance(1, 5))
        {
            auto const big = static_cast<uint32_t>(c.chance(1, 2) ? 0x110000 + c.draw(0x1000) : c.range(0x110000, 0xFFFFFFFF));
            auto const a = unicode::codepoint_properties::get(static_cast<char32_t>(big)), b = unicode::codepoint_properties::get(static_cast<char32_t>(big));
            if (a != b)
                c.fail("unstable answer for " + where(big));
            if (a.char_width > 2 || nameOf(a.script)[0] == '(')
                c.fail("no valid record for " + where(big));
            continue;
        }
        auto const cp = static_cast<uint32_t>(c.draw(ref::MaxCp));
        h = mix(h ^ cp);
        checkRecord(c, cp);
    }
    if (h)
        c.nontrivial(h);
}
// }}}

// {{{ P23
struct GcPredicate
{
    char const* name;
    bool (*fn)(char32_t);
};
static GcPredicate const gcPredicates[] = {
#define G(ENUM, FN) { #ENUM, [](char32_t x) { return unicode::general_category::FN(x); } }
    G(Close_Punctuation, is_close_punctuation),
    G(Connector_Punctuation, is_connector_punctuation),
    G(Control, is_control),
    G(Currency_Symbol, is_currency_symbol),
    G(Dash_Punctuation, is_dash_punctuation),
    G(Decimal_Number, is_decimal_number),
    G(Enclosing_Mark, is_enclosing_mark),
    G(Final_Punctuation, is_final_punctuation),
    G(Format, is_format),
    G(Initial_Punctuation, is_initial_punctuation),
    G(Letter_Number, is_letter_number),
    G(Line_Separator, is_line_separator),
    G(Lowercase_Letter, is_lowercase_letter),
    G(Math_Symbol, is_math_symbol),
    G(Modifier_Letter, is_modifier_letter),
    G(Modifier_Symbol, is_modifier_symbol),
    G(Nonspacing_Mark, is_nonspacing_mark),
    G(Open_Punctuation, is_open_punctuation),
    G(Other_Letter, is_other_letter),
    G(Other_Number, is_other_number),
    G(Other_Punctuation, is_other_punctuation),
    G(Other_Symbol, is_other_symbol),
    G(Paragraph_Separator, is_paragraph_separator),
    G(Private_Use, is_private_use),
    G(Space_Separator, is_space_separator),
    G(Spacing_Mark, is_spacing_mark),
    G(Surrogate, is_surrogate),
    G(Titlecase_Letter, is_titlecase_letter),
    G(Unassigned, is_unassigned),
    G(Uppercase_Letter, is_uppercase_letter),
#undef G
};
static void checkQueries(Case& c, uint32_t cp)
{
    auto eq = [&](char const* what, std::string const& got, std::string const& want) {
        if (got != want)
            c.fail(std::string(what) + " of " + where(cp) + " is " + got + ", the UCD says " + want);
    };
    auto is = [&](std::string const& what, bool got, bool want) {
        if (got != want)
            c.fail(what + " of " + where(cp) + " is " + (got ? "true" : "false"));
    };
    auto const rec = unicode::codepoint_properties::get(cp);
    eq("plane", nameOf(unicode::plane(cp)), planeName(cp));
    auto const g = gcName(cp);
    eq("general_category::get", nameOf(unicode::general_category::get(cp)), g);
    for (auto const& e: Names<unicode::General_Category>::table())
        is(std::string("contains(General_Category::") + e.name + ")", unicode::contains(static_cast<unicode::General_Category>(e.value), cp), g == e.name);
    for (auto const& p: gcPredicates)
        is(std::string("the predicate for ") + p.name, p.fn(cp), g == p.name);
    for (auto const& e: Names<unicode::Core_Property>::table())
        is(std::string("contains(Core_Property::") + e.name + ")", unicode::contains(static_cast<unicode::Core_Property>(e.value), cp), ref::binary(ref::coreProps(), e.name)[cp]);
    eq("script", nameOf(unicode::script(cp)), ref::script().at(cp));
    auto const ext = unicode::script_extensions(cp);
    auto want = ref::scx().sets[ref::scx().idx[cp]];
    std::sort(want.begin(), want.end());
    std::vector<std::string> got;
    if (ext)
        for (auto s: *ext)
            got.push_back(nameOf(s));
    std::sort(got.begin(), got.end());
    if (got != want || ext.has_value() != !want.empty())
        c.fail("script_extensions of " + where(cp) + " are " + list(got) + ", the UCD says " + list(want));
    eq("block", nameOf(unicode::block(cp)), blockName(cp));
    auto const& gcb = ref::gcb().at(cp);
    eq("grapheme_cluster_break", nameOf(unicode::grapheme_cluster_break(cp)), gcb == "Other" ? "Undefined" : gcb);
    eq("east_asian_width", nameOf(unicode::east_asian_width(cp)), eawQuery(cp));
    is("is_emoji", unicode::is_emoji(cp), ref::isEmoji(cp));
    is("is_emoji_component", unicode::is_emoji_component(cp), ref::isEmojiComponent(cp));
    is("is_emoji_modifier", unicode::is_emoji_modifier(cp), ref::isEmojiModifier(cp));
    is("is_emoji_modifier_base", unicode::is_emoji_modifier_base(cp), ref::isEmojiModifierBase(cp));
    is("is_emoji_presentation", unicode::is_emoji_presentation(cp), ref::isEmojiPresentation(cp));
    is("is_extended_pictographic", unicode::is_extended_pictographic(cp), ref::isExtPict(cp));
    is("is_mirrored", unicode::is_mirrored(cp), ref::unicodeData().mirrored[cp]);
    auto const m = ref::bidiMirror().find(cp);
    if (unicode::bidi_mirroring_glyph(cp) != (m == ref::bidiMirror().end() ? cp : m->second))
        c.fail("bidi_mirroring_glyph of " + where(cp) + " is " + where(unicode::bidi_mirroring_glyph(cp)));
    // the two interfaces agree
    eq("script (record against query)", nameOf(rec.script), nameOf(unicode::script(cp)));
    eq("general category (record against query)", nameOf(rec.general_category), nameOf(unicode::general_category::get(cp)));
    is("is_emoji (record against query)", rec.is_emoji(), unicode::is_emoji(cp));
    is("is_emoji_presentation (record against query)", rec.is_emoji_presentation(), unicode::is_emoji_presentation(cp));
    is("is_core_grapheme_extend (record against query)", rec.is_core_grapheme_extend(), unicode::contains(unicode::Core_Property::Grapheme_Extend, cp));
}
static void p23Every(Case& c)
{
    auto const b = static_cast<uint32_t>(c.index(Chunks) * Chunk);
    c.show("codepoints from " + where(b));
    c.evals(Chunk);
    bool mixed = false;
    for (uint32_t cp = b; cp < b + Chunk; ++cp)
    {
        checkQueries(c, cp);
        mixed = mixed || ref::gc().v[cp] != ref::gc().v[b] || ref::script().v[cp] != ref::script().v[b];
    }
    if (mixed)
        c.nontrivial(b);
}
static void p23Beyond(Case& c)
{
    auto const cp = static_cast<char32_t>(c.chance(1, 2) ? 0x110000 + c.draw(0x20000) : c.range(0x110000, 0xFFFFFFFF));
    c.show("value " + where(cp));
    c.nontrivial(cp);
    auto is = [&](char const* what, bool ok) {
        if (!ok)
            c.fail(std::string(what) + " has an answer for " + where(cp));
    };
    is("plane", unicode::plane(cp) == unicode::Plane::Unassigned);
    is("general_category::get", unicode::general_category::get(cp) == unicode::General_Category::Unspecified);
    for (auto const& e: Names<unicode::General_Category>::table())
        is("contains(General_Category)", !unicode::contains(static_cast<unicode::General_Category>(e.value), cp));
    for (auto const& e: Names<unicode::Core_Property>::table())
        is("contains(Core_Property)", !unicode::contains(static_cast<unicode::Core_Property>(e.value), cp));
    is("script", unicode::script(cp) == unicode::Script::Unknown);
    is("script_extensions", !unicode::script_extensions(cp));
    is("block", unicode::block(cp) == unicode::Block::Unspecified);
    is("grapheme_cluster_break", unicode::grapheme_cluster_break(cp) == unicode::Grapheme_Cluster_Break::Undefined);
    is("east_asian_width", unicode::east_asian_width(cp) == unicode::EastAsianWidth::Unspecified);
    is("the emoji predicates", !unicode::is_emoji(cp) && !unicode::is_emoji_component(cp) && !unicode::is_emoji_modifier(cp) && !unicode::is_emoji_modifier_base(cp)
                                   && !unicode::is_emoji_presentation(cp) && !unicode::is_extended_pictographic(cp));
    is("is_mirrored", !unicode::is_mirrored(cp));
    is("bidi_mirroring_glyph", unicode::bidi_mirroring_glyph(cp) == cp);
}
static std::map<std::string, std::string> const& versions()
{
    static auto const m = [] {
        std::map<std::string, std::string> r;
        for (auto const& n: ref::age().names)
            if (!n.empty())
                r[n] = "V" + ident(n);
        return r;
    }();
    return m;
}
static void checkVersion(Case& c, std::string const& s)
{
    c.show("version \"" + s + "\" " + hexBytes(s));
    Exact<char> x { std::string_view(s) };
    auto const got = unicode::make_age(x.view());
    auto const i = versions().find(s);
    auto const want = i == versions().end() ? std::string("nothing") : i->second;
    auto const have = got ? nameOf(*got) : std::string("nothing");
    if (have != want)
        c.fail("make_age(\"" + s + "\") is " + have + " instead of " + want);
}
static void p23Versions(Case& c) // every well-spelled version number up to 99.99
{
    auto const i = c.index(100 * 100);
    c.nontrivial(i);
    checkVersion(c, std::to_string(i / 100) + "." + std::to_string(i % 100));
}
static void p23VersionStrings(Case& c)
{
    std::string s;
    auto it = versions().begin();
    std::advance(it, static_cast<long>(c.draw(versions().size())));
    s = it->first;
    switch (c.draw(8))
    {
        case 0: break;
        case 1: s.insert(c.draw(s.size() + 1), 1, "0123456789. Vv_-\0\n"[c.draw(18)]); break;
        case 2: s.erase(c.draw(s.size()), 1); break;
        case 3: s[c.draw(s.size())] = static_cast<char>(c.draw(256)); break;
        case 4: s = "V" + ident(s); break;
        case 5: s += s; break;
        case 6: s = s.substr(0, c.draw(s.size() + 1)); break;
        default: {
            s.clear();
            for (auto n = c.draw(6); n > 0; --n)
                s += "0123456789."[c.draw(11)];
        }
    }
    c.nontrivial(hashStr(s));
    checkVersion(c, s);
}
// }}}

// {{{ P24
static std::vector<std::string> const& names()
{
    static auto const v = [] {
        std::vector<std::string> r(ref::MaxCp);
        ref::lines("extracted/DerivedName.txt", [&](ref::Fields const& f) {
            uint32_t lo, hi;
            ref::rangeOf(f[0], lo, hi);
            for (auto x = lo; x <= hi; ++x)
                r[x] = std::string(f[1]);
        });
        return r;
    }();
    return v;
}
static void checkName(Case& c, uint32_t cp)
{
    auto const got = unicode::codepoint_properties::name(cp);
    if (got != names()[cp])
        c.fail("name of " + where(cp) + " is \"" + std::string(got) + "\" instead of \"" + names()[cp] + "\"");
}
static void p24Every(Case& c)
{
    auto const b = static_cast<uint32_t>(c.index(Chunks) * Chunk);
    c.show("codepoints from " + where(b));
    c.evals(Chunk);
    bool some = false;
    for (uint32_t cp = b; cp < b + Chunk; ++cp)
    {
        checkName(c, cp);
        some = some || !names()[cp].empty();
    }
    if (some)
        c.nontrivial(b);
}
static void p24Order(Case& c)
{
    uint64_t h = 0;
    for (auto n = 1 + c.draw(40); n > 0; --n)
    {
        auto const big = c.chance(1, 4);
        auto const cp = static_cast<uint32_t>(big ? c.range(0x110000, 0xFFFFFFFF) : c.draw(ref::MaxCp));
        if (big)
        {
            if (unicode::codepoint_properties::name(cp) != unicode::codepoint_properties::name(cp))
                c.fail("unstable name of " + where(cp));
            continue;
        }
        h = mix(h ^ cp);
        checkName(c, cp);
    }
    if (h)
        c.nontrivial(h);
}
// }}}

PROPERTY({ "P22",
           "every codepoint is looked up; a block of 256 is non-trivial if its codepoints differ in category or script; an order case is a sequence of random lookups",
           {
               { "every-codepoint", Chunks, Chunks, p22Every, true },
               { "any-order", 20000, 1000000, p22Order },
           },
           {},
           {},
           {} });
PROPERTY({ "P23",
           "every codepoint is asked for every property; a block of 256 is non-trivial if its codepoints differ in category or script; a version string counts as itself",
           {
               { "every-codepoint", Chunks, Chunks, p23Every, true },
               { "beyond", 50000, 2000000, p23Beyond },
               { "versions", 10000, 10000, p23Versions, true },
               { "version-strings", 100000, 2000000, p23VersionStrings },
           },
           {},
           {},
           {} });
PROPERTY({ "P24",
           "every codepoint is looked up; a block of 256 is non-trivial if it has a name; an order case is a sequence of random lookups",
           {
               { "every-codepoint", Chunks, Chunks, p24Every, true },
               { "any-order", 20000, 1000000, p24Order },
           },
           {},
           {},
           {} });
