// Prints the answers the generated tables give, column by column, as runs of equal answers.
// Used by tools/tables.py (P27). Plain text: column TAB first TAB last TAB answer.
#include <pbt/pbt_enums.h>

#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/width.h>

#include <cstdio>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

template <typename T>
static std::string str(T v)
{
    // one string per enumerator value
    static std::map<long, std::string> cache;
    auto const k = static_cast<long>(v);
    auto const i = cache.find(k);
    if (i != cache.end())
        return i->second;
    std::ostringstream o;
    o << v;
    return cache[k] = o.str();
}
static std::string hex(char32_t v)
{
    char b[16];
    snprintf(b, sizeof b, "%04X", static_cast<unsigned>(v));
    return b;
}
static std::string list(std::u32string_view s)
{
    std::string r;
    for (auto const c: s)
        r += (r.empty() ? "" : " ") + hex(c);
    return r;
}
static std::string mapped(char32_t from, char32_t to)
{
    return from == to ? "=" : hex(to);
}
static std::string full(char32_t from, unicode::case_mapping_result const& r)
{
    return r.is_identity() || r.view() == std::u32string_view(&from, 1) ? "=" : list(r.view());
}
static std::string norm(char32_t c, unicode::Normalization_Form f)
{
    auto const s = unicode::normalize(std::u32string_view(&c, 1), f);
    return s == std::u32string_view(&c, 1) ? "=" : list(s);
}
static unicode::codepoint_properties P(char32_t c)
{
    return unicode::codepoint_properties::get(c);
}

int main()
{
    using C = char32_t;
    std::vector<std::pair<std::string, std::function<std::string(C)>>> columns = {
        { "name", [](C c) { return std::string(unicode::codepoint_properties::name(c)); } },
        { "age", [](C c) { return str(P(c).age); } },
        { "gc", [](C c) { return str(P(c).general_category); } },
        { "gc-query", [](C c) { return str(unicode::general_category::get(c)); } },
        { "script", [](C c) { return str(P(c).script); } },
        { "script-query", [](C c) { return str(unicode::script(c)); } },
        { "scx", [](C c) {
             std::string r;
             if (auto const x = unicode::script_extensions(c))
                 for (auto const s: *x)
                     r += str(s) + " ";
             return r;
         } },
        { "gcb", [](C c) { return str(P(c).grapheme_cluster_break); } },
        { "gcb-query", [](C c) { return str(unicode::grapheme_cluster_break(c)); } },
        { "wb", [](C c) { return str(P(c).word_break); } },
        { "incb", [](C c) { return str(P(c).indic_conjunct_break); } },
        { "eaw", [](C c) { return str(P(c).east_asian_width); } },
        { "eaw-query", [](C c) { return unicode::to_string(unicode::east_asian_width(c)); } },
        { "esc", [](C c) { return str(P(c).emoji_segmentation_category); } },
        { "flags", [](C c) { return hex(P(c).flags); } },
        { "variation-base", [](C c) { return std::to_string(P(c).is_emoji_variation_base()); } },
        { "virama", [](C c) { return std::to_string(P(c).is_virama()); } },
        { "emoji-query", [](C c) {
             return std::to_string(unicode::is_emoji(c)) + std::to_string(unicode::is_emoji_component(c)) + std::to_string(unicode::is_emoji_modifier(c)) + std::to_string(unicode::is_emoji_modifier_base(c)) + std::to_string(unicode::is_emoji_presentation(c)) + std::to_string(unicode::is_extended_pictographic(c));
         } },
        { "width", [](C c) { return std::to_string(unicode::width(c)); } },
        { "plane", [](C c) { return str(unicode::plane(c)); } },
        { "block", [](C c) { return str(unicode::block(c)); } },
        { "mirrored", [](C c) { return std::to_string(unicode::is_mirrored(c)); } },
        { "mirror", [](C c) { return mapped(c, unicode::bidi_mirroring_glyph(c)); } },
        { "upper", [](C c) { return mapped(c, unicode::simple_uppercase(c)); } },
        { "lower", [](C c) { return mapped(c, unicode::simple_lowercase(c)); } },
        { "title", [](C c) { return mapped(c, unicode::simple_titlecase(c)); } },
        { "fold", [](C c) { return mapped(c, unicode::simple_casefold(c)); } },
        { "full-upper", [](C c) { return full(c, unicode::full_uppercase(c)); } },
        { "full-lower", [](C c) { return full(c, unicode::full_lowercase(c)); } },
        { "full-title", [](C c) { return full(c, unicode::full_titlecase(c)); } },
        { "full-fold", [](C c) { return full(c, unicode::full_casefold(c)); } },
        { "ccc", [](C c) { return std::to_string(unicode::canonical_combining_class(c)); } },
        { "dtype", [](C c) { return str(unicode::decomposition_type(c)); } },
        { "nfd", [](C c) { return norm(c, unicode::Normalization_Form::NFD); } },
        { "nfkd", [](C c) { return norm(c, unicode::Normalization_Form::NFKD); } },
        { "nfc", [](C c) { return norm(c, unicode::Normalization_Form::NFC); } },
        { "exclusion", [](C c) { return std::to_string(unicode::is_composition_exclusion(c)) + std::to_string(unicode::is_full_composition_exclusion(c)); } },
        { "nfc-qc", [](C c) { return str(unicode::nfc_quick_check(c)); } },
        { "nfkc-qc", [](C c) { return str(unicode::nfkc_quick_check(c)); } },
        { "nfd-qc", [](C c) { return std::to_string(unicode::nfd_quick_check(c)) + std::to_string(unicode::nfkd_quick_check(c)); } },
        { "case", [](C c) { return std::to_string(unicode::is_cased(c)) + std::to_string(unicode::is_case_ignorable(c)) + std::to_string(unicode::changes_when_uppercased(c)) + std::to_string(unicode::changes_when_lowercased(c)) + std::to_string(unicode::changes_when_titlecased(c)) + std::to_string(unicode::changes_when_casefolded(c)); } },
        { "contains-gc", [](C c) {
             std::string r;
             for (auto const& e: pbt_enum_General_Category)
                 if (unicode::contains(static_cast<unicode::General_Category>(e.value), c))
                     r += std::string(e.name) + " ";
             return r;
         } },
    };
    for (auto const& e: pbt_enum_Core_Property)
    {
        auto const p = static_cast<unicode::Core_Property>(e.value);
        columns.emplace_back(std::string("core:") + e.name, [p](C c) { return std::string(unicode::contains(p, c) ? "Y" : "N"); });
    }
    for (auto const& [name, fn]: columns)
    {
        std::string last = fn(0);
        C from = 0;
        for (C c = 1; c <= 0x110000; ++c)
        {
            auto now = c < 0x110000 ? fn(c) : std::string("\x01");
            if (now != last)
            {
                printf("%s\t%X\t%X\t%s\n", name.c_str(), static_cast<unsigned>(from), static_cast<unsigned>(c - 1), last.c_str());
                from = c;
                last = std::move(now);
            }
        }
    }
    return 0;
}
