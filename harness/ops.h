// The library's whole interface as a list of operations, each of which folds its answers into one number.
// Used where the point is not what the answer is but that it does not depend on what else is going on.
#pragma once
#include "gen.h"

#include <pbt/pbt_enums.h>

#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <cstring>
#include <format>
#include <sstream>

namespace ops
{
using gen::U32;
using gen::U32V;

struct Digest
{
    uint64_t h = 0x9E3779B97F4A7C15ull;
    void add(uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
    }
};
// Folds the answers of all queries into one number.
inline uint64_t everything(char32_t v)
{
    Digest d;
    auto const p = unicode::codepoint_properties::get(v);
    unsigned char raw[sizeof(p)];
    std::memcpy(raw, &p, sizeof(p));
    for (auto const b: raw)
        d.add(b);
    for (auto const ch: unicode::codepoint_properties::name(v))
        d.add(static_cast<unsigned char>(ch));
    d.add(static_cast<uint64_t>(unicode::plane(v)));
    d.add(static_cast<uint64_t>(unicode::block(v)));
    d.add(static_cast<uint64_t>(unicode::script(v)));
    if (auto const x = unicode::script_extensions(v))
        for (auto const s: *x)
            d.add(static_cast<uint64_t>(s) + 1);
    d.add(static_cast<uint64_t>(unicode::grapheme_cluster_break(v)));
    d.add(static_cast<uint64_t>(unicode::east_asian_width(v)));
    d.add(static_cast<uint64_t>(unicode::general_category::get(v)));
    d.add(unicode::general_category::is_control(v) + 2 * unicode::general_category::is_surrogate(v) + 4 * unicode::general_category::is_unassigned(v) + 8 * unicode::general_category::is_private_use(v) + 16 * unicode::general_category::is_uppercase_letter(v));
    for (auto const& e: pbt_enum_Core_Property)
        d.add(unicode::contains(static_cast<unicode::Core_Property>(e.value), v));
    for (auto const& e: pbt_enum_General_Category)
        d.add(unicode::contains(static_cast<unicode::General_Category>(e.value), v));
    d.add(unicode::is_emoji(v) + 2 * unicode::is_emoji_component(v) + 4 * unicode::is_emoji_modifier(v) + 8 * unicode::is_emoji_modifier_base(v) + 16 * unicode::is_emoji_presentation(v) + 32 * unicode::is_extended_pictographic(v) + 64 * unicode::is_mirrored(v));
    d.add(unicode::bidi_mirroring_glyph(v));
    d.add(unicode::width(v));
    d.add(unicode::simple_uppercase(v));
    d.add(unicode::simple_lowercase(v));
    d.add(unicode::simple_titlecase(v));
    d.add(unicode::simple_casefold(v));
    for (auto const& r: { unicode::full_uppercase(v), unicode::full_lowercase(v), unicode::full_titlecase(v), unicode::full_casefold(v) })
    {
        d.add(r.is_identity());
        for (auto const x: r.view())
            d.add(x);
    }
    d.add(unicode::is_cased(v) + 2 * unicode::is_case_ignorable(v) + 4 * unicode::changes_when_uppercased(v) + 8 * unicode::changes_when_lowercased(v) + 16 * unicode::changes_when_titlecased(v) + 32 * unicode::changes_when_casefolded(v));
    d.add(unicode::canonical_combining_class(v));
    d.add(static_cast<uint64_t>(unicode::decomposition_type(v)));
    d.add(unicode::is_composition_exclusion(v) + 2 * unicode::is_full_composition_exclusion(v));
    d.add(static_cast<uint64_t>(unicode::nfc_quick_check(v)) + 4 * static_cast<uint64_t>(unicode::nfkc_quick_check(v)) + 16 * unicode::nfd_quick_check(v) + 32 * unicode::nfkd_quick_check(v));
    d.add(unicode::is_hangul_syllable(v) + 2 * unicode::is_hangul_l_jamo(v) + 4 * unicode::is_hangul_v_jamo(v) + 8 * unicode::is_hangul_t_jamo(v));
    char32_t out[8] = {};
    auto const n = unicode::hangul_decompose(v, out);
    d.add(n);
    for (size_t i = 0; i < n && i < 8; ++i)
        d.add(out[i]);
    for (char32_t const o: { char32_t(0x1100), char32_t(0x1161), char32_t(0x11A8), char32_t(0xAC00), v })
    {
        d.add(unicode::hangul_compose(v, o));
        d.add(unicode::hangul_compose(o, v));
        d.add(unicode::hangul_compose(0x1100, 0x1161, v));
        d.add(unicode::hangul_compose(o, v, v));
    }
    return d.h;
}

inline void add(Digest& d, U32V s)
{
    d.add(s.size());
    for (auto const x: s)
        d.add(x);
}
inline void add(Digest& d, std::string_view s)
{
    d.add(s.size());
    for (auto const x: s)
        d.add(static_cast<unsigned char>(x));
}

// What an operation works on: the codepoints, the same text (or any bytes) as UTF-8, another text.
struct Input
{
    U32 text;
    std::string utf8;
    U32 other;
    std::string otherUtf8;
    unsigned number = 0; // a limit, a form, a chunk size
};
using Fn = void (*)(Digest&, Input const&);
struct Op
{
    char const* name;
    Fn fn;
};

struct RecordingReceiver final: unicode::grapheme_cluster_receiver
{
    Digest& d;
    explicit RecordingReceiver(Digest& x): d(x) {}
    void receiveAsciiSequence(std::string_view s) noexcept override { add(d, s); }
    void receiveGraphemeCluster(std::string_view s, size_t n) noexcept override
    {
        add(d, s);
        d.add(n);
    }
    void receiveInvalidGraphemeCluster() noexcept override { d.add(0xBAD); }
};
inline unicode::Normalization_Form form(unsigned n)
{
    static constexpr unicode::Normalization_Form forms[] = { unicode::Normalization_Form::NFC, unicode::Normalization_Form::NFD, unicode::Normalization_Form::NFKC, unicode::Normalization_Form::NFKD };
    return forms[n % 4];
}
template <typename Seg>
void segments(Digest& d, U32V s)
{
    Seg seg(s.data(), s.data() + s.size());
    for (size_t n = 0; n <= s.size(); ++n)
    {
        d.add((*seg).size());
        if (!seg.codepointsAvailable())
            break;
        ++seg;
    }
}
template <typename E>
void printed(Digest& d, E e)
{
    std::ostringstream os;
    os << e;
    add(d, os.str());
    add(d, std::format("{}", e));
}
inline int sgn(int x) { return (x > 0) - (x < 0); }

inline std::vector<Op> const& all()
{
    static std::vector<Op> const v {
        { "queries", [](Digest& d, Input const& i) {
             for (auto const x: i.text.substr(0, 8))
                 d.add(everything(x));
         } },
        { "name", [](Digest& d, Input const& i) {
             for (auto const x: i.text)
                 for (auto const ch: unicode::codepoint_properties::name(x))
                     d.add(static_cast<unsigned char>(ch));
         } },
        { "print", [](Digest& d, Input const& i) {
             for (auto const x: i.text.substr(0, 8))
             {
                 auto const p = unicode::codepoint_properties::get(x);
                 printed(d, p.script);
                 printed(d, p.general_category);
                 printed(d, p.grapheme_cluster_break);
                 printed(d, p.word_break);
                 printed(d, p.east_asian_width);
                 printed(d, unicode::block(x));
                 std::ostringstream os;
                 os << p.age;
                 add(d, os.str());
             }
         } },
        { "age", [](Digest& d, Input const& i) {
             for (auto const* s: { "1.1", "15.1", "15.0", "9.0", "99.0", "" })
                 if (auto const a = unicode::make_age(s))
                     d.add(static_cast<uint64_t>(*a) + 1);
             d.add(unicode::make_age(std::string_view(i.utf8).substr(0, 6)).has_value());
         } },
        { "convert", [](Digest& d, Input const& i) {
             add(d, unicode::convert_to<char>(U32V(i.text)));
             for (auto const x: unicode::convert_to<char16_t>(U32V(i.text)))
                 d.add(x);
             for (auto const x: unicode::convert_to<wchar_t>(U32V(i.text)))
                 d.add(static_cast<uint64_t>(x));
             add(d, unicode::to_utf8(U32V(i.text)));
         } },
        { "convert-utf8", [](Digest& d, Input const& i) {
             add(d, unicode::convert_to<char32_t>(std::string_view(i.utf8)));
             add(d, unicode::from_utf8(i.utf8));
             auto const u16 = unicode::convert_to<char16_t>(std::string_view(i.utf8));
             add(d, unicode::convert_to<char32_t>(std::u16string_view(u16)));
         } },
        { "decode", [](Digest& d, Input const& i) {
             unicode::utf8_decoder_state st;
             for (auto const b: i.utf8)
                 d.add(unicode::from_utf8i(st, static_cast<uint8_t>(b)));
         } },
        { "graphemes", [](Digest& d, Input const& i) { segments<unicode::grapheme_segmenter>(d, i.text); } },
        { "grapheme-steps", [](Digest& d, Input const& i) {
             unicode::grapheme_segmenter_state st;
             for (size_t k = 0; k < i.text.size(); ++k)
                 if (k == 0)
                     unicode::grapheme_process_init(i.text[0], st);
                 else
                     d.add(unicode::grapheme_process_breakable(i.text[k], st));
         } },
        { "words", [](Digest& d, Input const& i) { segments<unicode::word_segmenter>(d, i.text); } },
        { "utf8-graphemes", [](Digest& d, Input const& i) {
             for (auto const& cluster: unicode::utf8_grapheme_segmenter(i.utf8))
                 add(d, U32V(cluster));
         } },
        { "scripts", [](Digest& d, Input const& i) {
             unicode::script_segmenter seg(i.text.data(), i.text.size());
             size_t end = 0;
             unicode::Script script {};
             for (size_t n = 0; n <= i.text.size() && seg.consume(unicode::out(end), unicode::out(script)); ++n)
                 d.add(end * 256 + static_cast<uint64_t>(script));
         } },
        { "emoji", [](Digest& d, Input const& i) {
             unicode::emoji_segmenter seg(i.text.data(), i.text.size());
             size_t end = 0;
             unicode::PresentationStyle style {};
             for (size_t n = 0; n <= i.text.size() && seg.consume(unicode::out(end), unicode::out(style)); ++n)
                 d.add(end * 2 + static_cast<uint64_t>(style));
         } },
        { "runs", [](Digest& d, Input const& i) {
             unicode::run_segmenter seg { U32V(i.text) };
             unicode::run_segmenter::range r {};
             for (size_t n = 0; n <= i.text.size() && seg.consume(unicode::out(r)); ++n)
             {
                 d.add(r.start);
                 d.add(r.end);
                 d.add(static_cast<uint64_t>(std::get<0>(r.properties)));
                 d.add(static_cast<uint64_t>(std::get<1>(r.properties)));
             }
         } },
        { "width", [](Digest& d, Input const& i) {
             d.add(unicode::grapheme_cluster_width(U32V(i.text)));
             unicode::grapheme_cluster_width_accumulator acc;
             for (auto const x: i.text)
             {
                 acc.push(x);
                 d.add(acc.width());
             }
         } },
        { "width-utf8", [](Digest& d, Input const& i) { d.add(unicode::grapheme_cluster_width(std::string_view(i.utf8))); } },
        { "scan", [](Digest& d, Input const& i) {
             unicode::scan_state st;
             RecordingReceiver r(d);
             auto const s = unicode::scan_text(st, i.utf8, 1 + i.number, r);
             d.add(s.count);
             d.add(static_cast<uint64_t>(s.start - i.utf8.data()));
             d.add(static_cast<uint64_t>(s.end - i.utf8.data()));
         } },
        { "scan-plain", [](Digest& d, Input const& i) {
             unicode::scan_state st;
             auto const s = unicode::scan_text(st, i.utf8, 1u << 20);
             d.add(s.count);
             d.add(static_cast<uint64_t>(s.end - i.utf8.data()));
         } },
        { "scan-chunks", [](Digest& d, Input const& i) {
             unicode::scan_state st;
             for (size_t k = 0; k < i.utf8.size(); k += 16)
             {
                 auto rest = std::string_view(i.utf8).substr(k, 16);
                 while (!rest.empty()) // a control stops the scan: go on behind it
                 {
                     auto const r = unicode::scan_text(st, rest, 1u << 20);
                     d.add(r.count);
                     auto const used = static_cast<size_t>(r.end - rest.data());
                     rest.remove_prefix(std::min(rest.size(), used + 1));
                 }
             }
         } },
        { "normalize", [](Digest& d, Input const& i) { add(d, U32V(unicode::normalize(U32V(i.text), form(i.number)))); } },
        { "normalize-utf8", [](Digest& d, Input const& i) { add(d, unicode::normalize(std::string_view(i.utf8), form(i.number))); } },
        { "normalized", [](Digest& d, Input const& i) {
             for (unsigned f = 0; f < 4; ++f)
             {
                 d.add(unicode::is_normalized(U32V(i.text), form(f)));
                 d.add(static_cast<uint64_t>(unicode::quick_check(U32V(i.text), form(f))));
                 d.add(unicode::is_normalized(std::string_view(i.utf8), form(f)));
             }
         } },
        { "equivalent", [](Digest& d, Input const& i) {
             d.add(unicode::is_canonically_equivalent(U32V(i.text), U32V(i.other)));
             d.add(unicode::is_compatibility_equivalent(U32V(i.text), U32V(i.other)));
             d.add(unicode::is_canonically_equivalent(std::string_view(i.utf8), std::string_view(i.otherUtf8)));
             d.add(unicode::is_compatibility_equivalent(std::string_view(i.utf8), std::string_view(i.otherUtf8)));
         } },
        { "normalizer", [](Digest& d, Input const& i) {
             unicode::normalizer n(form(i.number));
             for (auto const x: i.text)
                 add(d, n.feed(x));
             add(d, n.flush());
         } },
        { "utf8-normalizer", [](Digest& d, Input const& i) {
             unicode::utf8_normalizer n(form(i.number));
             for (size_t k = 0; k < i.utf8.size(); k += 3)
                 add(d, n.feed(std::string_view(i.utf8).substr(k, 3)));
             add(d, n.flush());
         } },
        { "utf8-normalizer-whole", [](Digest& d, Input const& i) {
             unicode::utf8_normalizer n(form(i.number));
             add(d, n.feed(std::string_view(i.utf8)));
             add(d, n.flush());
         } },
        { "upper", [](Digest& d, Input const& i) {
             add(d, U32V(unicode::to_uppercase(U32V(i.text))));
             add(d, unicode::to_uppercase(std::string_view(i.utf8)));
         } },
        { "lower", [](Digest& d, Input const& i) {
             add(d, U32V(unicode::to_lowercase(U32V(i.text))));
             add(d, unicode::to_lowercase(std::string_view(i.utf8)));
         } },
        { "title", [](Digest& d, Input const& i) {
             add(d, U32V(unicode::to_titlecase(U32V(i.text))));
             add(d, unicode::to_titlecase(std::string_view(i.utf8)));
         } },
        { "casefold", [](Digest& d, Input const& i) {
             add(d, U32V(unicode::casefold(U32V(i.text))));
             add(d, unicode::casefold(std::string_view(i.utf8)));
         } },
        { "caseless", [](Digest& d, Input const& i) {
             d.add(static_cast<uint64_t>(sgn(unicode::casefold_compare(U32V(i.text), U32V(i.other)))));
             d.add(unicode::casefold_equals(U32V(i.text), U32V(i.other)));
             d.add(static_cast<uint64_t>(sgn(unicode::casefold_compare(std::string_view(i.utf8), std::string_view(i.otherUtf8)))));
             d.add(unicode::casefold_equals(std::string_view(i.utf8), std::string_view(i.otherUtf8)));
         } },
        { "c-api", [](Digest& d, Input const& i) {
             std::vector<u32_char_t> u(i.text.begin(), i.text.end());
             u.push_back(0);
             d.add(static_cast<uint64_t>(u32_gc_count(u.data(), i.text.size())));
             d.add(static_cast<uint64_t>(u8_gc_count(i.utf8.data(), i.utf8.size())));
             for (int mode: { GC_WIDTH_MODE_NON_MODIFIABLE, GC_WIDTH_MODE_MODIFIABLE })
             {
                 d.add(static_cast<uint64_t>(u32_gc_width(u.data(), i.text.size(), mode)));
                 d.add(static_cast<uint64_t>(u8_gc_width(i.utf8.data(), i.utf8.size(), mode)));
             }
             char buf[64] {};
             d.add(static_cast<uint64_t>(u32u8_convert(u.data(), i.text.size(), buf, sizeof buf)));
         } },
        { "c-stream", [](Digest& d, Input const& i) {
             auto stream = u8u32_stream_convert_create();
             for (auto const b: i.utf8)
             {
                 u32_char_t x = 0;
                 if (u8u32_stream_convert_run(stream, b, &x) > 0)
                     d.add(x);
             }
             u8u32_stream_convert_destroy(&stream);
             d.add(stream == nullptr);
         } },
    };
    return v;
}
inline uint64_t run(size_t op, Input const& i)
{
    Digest d;
    all()[op].fn(d, i);
    return d.h;
}
} // namespace ops
