// P29 every query and algorithm is total over all 32-bit values.
#include "clusters.h"
#include "ops.h"

#include <pbt/pbt_enums.h>

#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <array>
#include <cstring>

using namespace pbt;
using namespace gen;
using ops::everything;

static std::string where(uint32_t v)
{
    return hexStr(U32(1, static_cast<char32_t>(v)));
}

// {{{ every per-codepoint query
// What has to hold for a value that is no scalar.
static void foreign(Case& c, char32_t v)
{
    auto const id = [&](char const* what, char32_t got) {
        if (got != v)
            c.fail(std::string(what) + "(" + where(v) + ") is " + where(got) + ", the value has to pass unchanged");
    };
    id("simple_uppercase", unicode::simple_uppercase(v));
    id("simple_lowercase", unicode::simple_lowercase(v));
    id("simple_titlecase", unicode::simple_titlecase(v));
    id("simple_casefold", unicode::simple_casefold(v));
    id("bidi_mirroring_glyph", unicode::bidi_mirroring_glyph(v));
    auto const full = [&](char const* what, unicode::case_mapping_result const& r) {
        if (!r.is_identity() && r.view() != U32V(&v, 1))
            c.fail(std::string(what) + "(" + where(v) + ") is " + hexStr(r.view()) + ", the value has to pass unchanged");
    };
    full("full_uppercase", unicode::full_uppercase(v));
    full("full_lowercase", unicode::full_lowercase(v));
    full("full_titlecase", unicode::full_titlecase(v));
    full("full_casefold", unicode::full_casefold(v));
    if (unicode::changes_when_uppercased(v) || unicode::changes_when_lowercased(v) || unicode::changes_when_titlecased(v) || unicode::changes_when_casefolded(v))
        c.fail(where(v) + " is said to change when mapped");
    if (unicode::canonical_combining_class(v) != 0)
        c.fail("canonical_combining_class(" + where(v) + ") is " + std::to_string(unicode::canonical_combining_class(v)));
    if (unicode::width(v) > 2)
        c.fail("width(" + where(v) + ") is " + std::to_string(unicode::width(v)));
    if (unicode::is_hangul_syllable(v) || unicode::is_hangul_l_jamo(v) || unicode::is_hangul_v_jamo(v) || unicode::is_hangul_t_jamo(v))
        c.fail(where(v) + " is said to be Hangul");
}
static void values(Case& c, uint64_t from, uint64_t to)
{
    for (auto v = from; v < to; ++v)
    {
        auto const a = everything(static_cast<char32_t>(v));
        // again, with something else asked in between
        if ((v & 7) == 0)
        {
            auto const other = static_cast<char32_t>((v * 2654435761u) & 0x1FFFFF);
            (void) everything(other);
            if (everything(static_cast<char32_t>(v)) != a)
                c.fail("the answers for " + where(static_cast<uint32_t>(v)) + " change between calls");
        }
        if (v >= 0x110000 || (v >= 0xD800 && v < 0xE000))
            foreign(c, static_cast<char32_t>(v));
    }
    c.evals(to - from - 1);
}
static constexpr uint64_t Chunk = 0x200;
static void p29Low(Case& c)
{
    auto const k = c.index(0x140000 / Chunk);
    values(c, k * Chunk, (k + 1) * Chunk);
    c.nontrivial(k);
}
// The whole 32-bit range in strides; every value in the thorough tier's random draws is equally likely.
static void p29High(Case& c)
{
    auto const k = c.draw((0x100000000ull - 0x110000) / 64);
    auto const from = 0x110000 + k * 64;
    c.show("values from " + where(static_cast<uint32_t>(from)));
    c.nontrivial(k);
    values(c, from, from + 64);
}
static void p29Edges(Case& c)
{
    // every power of two and every multiple of 2^16 (+/- 16): where narrowing an index would wrap
    auto const k = c.index(65536 + 32);
    auto const base = k < 65536 ? static_cast<uint64_t>(k) << 16 : uint64_t { 1 } << (k - 65536);
    auto const from = base < 16 ? 0 : base - 16;
    auto const to = std::min<uint64_t>(base + 16, 0x100000000ull);
    c.nontrivial(k);
    values(c, from, to);
}
// }}}

// {{{ in text
static char32_t foreignValue(Case& c)
{
    static const char32_t hot[] = { 0x110000, 0xD800, 0xDFFF, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x11FFFF, 0x110041, 0x200041, 0x1000061, 0x120301, 0x80000041, 0xFFFF0041, 0x1100AC00, 0xDC00 };
    auto const k = c.draw(8);
    if (k < 3)
        return hot[c.draw(std::size(hot))];
    if (k < 5)
        return static_cast<char32_t>(0xD800 + c.draw(0x800));
    if (k < 7) // an alias of an ordinary character in the low bits
        return static_cast<char32_t>((c.range(0x11, 0xFFF) << 20) | (anyScalar(c) & 0xFFFFF));
    return static_cast<char32_t>(c.range(0x110000, 0xFFFFFFFFull));
}
static Pool const& pool()
{
    static Pool const p = Pool::by(
        [](uint32_t v) {
            return std::tuple { ref::ccc(v), ref::isCased(v), ref::isCaseIgnorable(v), ref::W_(v), ref::G_(v), ref::simpleUpper(v) != v, ref::simpleLower(v) != v };
        },
        { U'a', U'A', 0xDF, U'e', 0x301, 0xAC00, 0x1100, 0x1161, 0x11A8, 0x386, 0x17F, U'\'', 0x3A9, 0x300, 0xF73, 0x3A3, 0x130, 0x1C5 });
    return p;
}
static U32 part(Case& c)
{
    U32 s;
    for (auto n = c.draw(5); n--;)
        s += pool().draw(c);
    stretch(c, s);
    return s;
}
using Fn32 = U32 (*)(U32V);
struct Algo
{
    char const* name;
    Fn32 fn;
    bool local; // maps what is before and after a foreign value independently
};
static Algo const algos[] = {
    { "to_uppercase", [](U32V s) { return unicode::to_uppercase(s); }, true },
    { "to_lowercase", [](U32V s) { return unicode::to_lowercase(s); }, true },
    { "casefold", [](U32V s) { return unicode::casefold(s); }, true },
    { "to_nfc", [](U32V s) { return unicode::to_nfc(s); }, true },
    { "to_nfd", [](U32V s) { return unicode::to_nfd(s); }, true },
    { "to_nfkc", [](U32V s) { return unicode::to_nfkc(s); }, true },
    { "to_nfkd", [](U32V s) { return unicode::to_nfkd(s); }, true },
    { "to_titlecase", [](U32V s) { return unicode::to_titlecase(s); }, false },
};
static unicode::Normalization_Form const forms[] = { unicode::Normalization_Form::NFC, unicode::Normalization_Form::NFD, unicode::Normalization_Form::NFKC, unicode::Normalization_Form::NFKD };

// Segmenters over a text with foreign values: complete, ordered, finite, the same each time.
template <typename Next>
static std::vector<size_t> ends(Case& c, char const* what, U32V s, Next next)
{
    std::vector<size_t> r;
    size_t at = 0;
    for (size_t n = 0;; ++n)
    {
        if (n > s.size() + 1)
            c.fail(std::string(what) + " does not end on " + hexStr(s));
        size_t len = 0;
        if (!next(len))
            break;
        if (len == 0 || at + len > s.size())
            c.fail(std::string(what) + " yields a piece of " + std::to_string(len) + " at " + std::to_string(at) + " of " + hexStr(s));
        at += len;
        r.push_back(at);
    }
    if (at != s.size())
        c.fail(std::string(what) + " covers " + std::to_string(at) + " of the " + std::to_string(s.size()) + " codepoints of " + hexStr(s));
    return r;
}
template <typename Seg>
static std::vector<size_t> stepped(Case& c, char const* what, U32V s)
{
    Seg seg(s.data(), s.data() + s.size());
    bool first = true;
    return ends(c, what, s, [&](size_t& len) {
        if (!first)
        {
            if (!seg.codepointsAvailable())
                return false;
            ++seg;
        }
        first = false;
        len = (*seg).size();
        return true;
    });
}
static std::vector<std::vector<size_t>> segment(Case& c, U32V s)
{
    std::vector<std::vector<size_t>> r;
    r.push_back(stepped<unicode::grapheme_segmenter>(c, "grapheme_segmenter", s));
    r.push_back(stepped<unicode::word_segmenter>(c, "word_segmenter", s));
    {
        unicode::script_segmenter seg(s.data(), s.size());
        size_t last = 0;
        r.push_back(ends(c, "script_segmenter", s, [&](size_t& len) {
            size_t end = 0;
            unicode::Script script {};
            if (!seg.consume(unicode::out(end), unicode::out(script)))
                return false;
            len = end - last;
            last = end;
            return true;
        }));
    }
    {
        unicode::emoji_segmenter seg(s.data(), s.size());
        size_t last = 0;
        r.push_back(ends(c, "emoji_segmenter", s, [&](size_t& len) {
            size_t end = 0;
            unicode::PresentationStyle style {};
            if (!seg.consume(unicode::out(end), unicode::out(style)))
                return false;
            len = end - last;
            last = end;
            return true;
        }));
    }
    {
        unicode::run_segmenter seg(s);
        size_t last = 0;
        r.push_back(ends(c, "run_segmenter", s, [&](size_t& len) {
            unicode::run_segmenter::range g {};
            if (!seg.consume(unicode::out(g)))
                return false;
            if (g.start != last)
                c.fail("run_segmenter leaves a gap before " + std::to_string(g.start) + " in " + hexStr(s));
            len = g.end - g.start;
            last = g.end;
            return true;
        }));
    }
    return r;
}

static void p29Text(Case& c)
{
    auto const a = part(c), b = part(c);
    auto const v = foreignValue(c);
    auto const s = a + v + b;
    c.show("text " + hexStr(a) + " + " + where(v) + " + " + hexStr(b));
    if (a.size() + b.size() > 0)
        c.nontrivial(hashOf(s));
    c.label(v < 0x110000 ? "value.surrogate" : "value.above");
    Exact<char32_t> copy { U32V(s) };
    for (auto const& f: algos)
    {
        auto const got = f.fn(copy.view());
        if (got != f.fn(copy.view()))
            c.fail(std::string(f.name) + "(" + hexStr(s) + ") changes between calls");
        U32 want;
        if (f.local)
            want = f.fn(a) + v + f.fn(b);
        else
        {
            // like an unassigned character in its place
            want = f.fn(a + char32_t(0x378) + b);
            auto const at = want.find(char32_t(0x378));
            if (at != U32::npos)
                want[at] = v;
        }
        if (got != want)
            c.fail(std::string(f.name) + "(" + hexStr(s) + ") is " + hexStr(got) + ", but " + (f.local ? "mapping the text around the value gives " : "an unassigned character in its place gives ") + hexStr(want));
    }
    for (auto const f: forms)
    {
        if (unicode::quick_check(copy.view(), f) != unicode::quick_check(copy.view(), f))
            c.fail("quick_check(" + hexStr(s) + ") changes between calls");
        auto const n = unicode::normalize(copy.view(), f);
        if (unicode::is_normalized(copy.view(), f) != (n == s))
            c.fail("is_normalized(" + hexStr(s) + ") contradicts normalize()");
        if (unicode::normalize(U32V(n), f) != n)
            c.fail("normalize(" + hexStr(s) + ") is not idempotent");
        unicode::normalizer st(f);
        U32 streamed;
        for (auto const x: copy.view())
            streamed += st.feed(x);
        streamed += st.flush();
        if (streamed != n)
            c.fail("the streaming normalizer turns " + hexStr(s) + " into " + hexStr(streamed) + ", normalize() into " + hexStr(n));
    }
    auto const folded = a + v + b;
    if (!unicode::casefold_equals(copy.view(), copy.view()) || unicode::casefold_compare(copy.view(), copy.view()) != 0 || !unicode::is_canonically_equivalent(copy.view(), U32V(unicode::to_nfd(U32V(s)))) || !unicode::is_compatibility_equivalent(copy.view(), copy.view()))
        c.fail(hexStr(s) + " does not compare equal to itself");
    auto const w = static_cast<char32_t>(v ^ 1);
    if (w > 0x10FFFF && unicode::casefold_equals(copy.view(), U32V(a + w + b)))
        c.fail(hexStr(s) + " and the text with " + where(w) + " instead compare equal");
}

static void p29Segments(Case& c)
{
    auto s = sequence(c);
    for (auto n = 1 + c.draw(4); n--;)
        s.insert(s.begin() + static_cast<long>(c.draw(s.size() + 1)), foreignValue(c));
    c.show("text " + hexStr(s));
    if (s.size() > 1)
        c.nontrivial(hashOf(s));
    Exact<char32_t> copy { U32V(s) };
    auto const r = segment(c, copy.view());
    if (segment(c, copy.view()) != r)
        c.fail("the segments of " + hexStr(s) + " change between runs");
    // the stateful forms
    unicode::grapheme_segmenter_state g;
    unicode::grapheme_process_init(s[0], g);
    std::vector<size_t> viaState;
    for (size_t i = 1; i < s.size(); ++i)
        if (unicode::grapheme_process_breakable(s[i], g))
            viaState.push_back(i);
    viaState.push_back(s.size());
    if (viaState != r[0])
        c.fail("grapheme_process_breakable and grapheme_segmenter disagree on " + hexStr(s));
    size_t at = 0;
    unsigned sum = 0;
    for (auto const e: r[0])
    {
        auto const cluster = copy.view().substr(at, e - at);
        unicode::grapheme_cluster_width_accumulator acc;
        for (auto const x: cluster)
            acc.push(x);
        auto const wd = unicode::grapheme_cluster_width(cluster);
        if (acc.width() != wd)
            c.fail("the width accumulator says " + std::to_string(acc.width()) + " for " + hexStr(cluster) + ", grapheme_cluster_width() " + std::to_string(wd));
        sum += wd;
        at = e;
    }
    (void) sum;
    // to UTF-8/16 and back: no fault, the same each time
    auto const u8 = unicode::convert_to<char>(copy.view());
    auto const u16 = unicode::convert_to<char16_t>(copy.view());
    if (u8 != unicode::convert_to<char>(copy.view()) || u16 != unicode::convert_to<char16_t>(copy.view()))
        c.fail("converting " + hexStr(s) + " gives different results each time");
    (void) unicode::convert_to<char32_t>(std::string_view(u8));
    (void) unicode::convert_to<char32_t>(std::u16string_view(u16));
}
// }}}

// {{{ arbitrary bytes through every UTF-8 overload
using Fn8 = std::string (*)(std::string_view);
static std::pair<char const*, Fn8> const algos8[] = {
    { "to_uppercase", [](std::string_view s) { return unicode::to_uppercase(s); } }, { "to_lowercase", [](std::string_view s) { return unicode::to_lowercase(s); } },
    { "to_titlecase", [](std::string_view s) { return unicode::to_titlecase(s); } }, { "casefold", [](std::string_view s) { return unicode::casefold(s); } },
    { "to_nfc", [](std::string_view s) { return unicode::to_nfc(s); } },             { "to_nfd", [](std::string_view s) { return unicode::to_nfd(s); } },
    { "to_nfkc", [](std::string_view s) { return unicode::to_nfkc(s); } },           { "to_nfkd", [](std::string_view s) { return unicode::to_nfkd(s); } },
};
static Fn32 const same32[] = { algos[0].fn, algos[1].fn, algos[7].fn, algos[2].fn, algos[3].fn, algos[4].fn, algos[5].fn, algos[6].fn };
static void p29Bytes(Case& c)
{
    std::string b;
    if (c.chance(1, 4))
        for (auto n = c.draw(40); n--;)
            b += static_cast<char>(c.draw(256));
    else
    {
        BytesOptions o;
        o.nonscalar = true;
        b = bytes(c, [](Case& k) { return k.chance(1, 2) ? pool().draw(k) : anyScalar(k); }, o);
    }
    c.show("bytes " + hexBytes(b));
    if (!b.empty())
        c.nontrivial(hashStr(b));
    Exact<char> copy { std::string_view(b) };
    auto const u32 = unicode::convert_to<char32_t>(copy.view());
    size_t i = 0;
    for (auto const& [name, f]: algos8)
    {
        auto const got = f(copy.view());
        if (got != f(copy.view()))
            c.fail(std::string(name) + "(" + hexBytes(b) + ") changes between calls");
        auto const want = unicode::convert_to<char>(U32V(same32[i++](u32)));
        if (got != want)
            c.fail(std::string(name) + "(" + hexBytes(b) + ") is " + hexBytes(got) + ", decoding first gives " + hexBytes(want));
    }
    for (auto const f: forms)
        (void) unicode::quick_check(copy.view(), f), (void) unicode::is_normalized(copy.view(), f);
    if (unicode::casefold_compare(copy.view(), copy.view()) != 0 || !unicode::casefold_equals(copy.view(), copy.view()) || !unicode::is_canonically_equivalent(copy.view(), copy.view()) || !unicode::is_compatibility_equivalent(copy.view(), copy.view()))
        c.fail(hexBytes(b) + " does not compare equal to itself");
    (void) unicode::grapheme_cluster_width(copy.view());
    size_t n = 0;
    for (auto const& cluster: unicode::utf8_grapheme_segmenter(copy.view()))
    {
        if (++n > b.size() + 1)
            c.fail("utf8_grapheme_segmenter does not end on " + hexBytes(b));
        (void) cluster;
    }
    unicode::scan_state st;
    auto const limit = c.draw(100);
    auto const x = unicode::scan_text(st, copy.view(), limit);
    unicode::scan_state st2;
    auto const y = unicode::scan_text(st2, copy.view(), limit);
    if (x.count != y.count || x.start != y.start || x.end != y.end)
        c.fail("scan_text(" + hexBytes(b) + ") changes between calls");
    if (x.start < copy.view().data() || x.end < x.start || x.end > copy.view().data() + b.size())
        c.fail("scan_text(" + hexBytes(b) + ") reports a range outside the text");
}
// }}}

PROPERTY({ "P29",
           "a chunk of 32-bit values asked through every query, a text with a value that is no scalar and at least one neighbour, or a non-empty byte string",
           {
               { "values-to-140000", 0x140000 / Chunk, 0x140000 / Chunk, p29Low, true },
               { "value-edges", 65536 + 32, 65536 + 32, p29Edges, true },
               { "values-above", 20000, 3000000, p29High },
               { "text", 60000, 3000000, p29Text },
               { "segments", 100000, 4000000, p29Segments },
               { "bytes", 60000, 3000000, p29Bytes },
               { "long-text", 500, 20000, longArm(p29Text, 3000, 20000) },
               { "long-segments", 700, 20000, longArm(p29Segments, 3000, 20000) },
               { "long-bytes", 500, 20000, longArm(p29Bytes, 3000, 20000) },
           },
           {},
           {},
           {} });
