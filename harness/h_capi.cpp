// P28 the C API. Everything is called through h_capi.c, which is compiled as C.
#include "clusters.h"

#include <memory>

#include <libunicode/convert.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/width.h>

using namespace pbt;
using namespace gen;

using u32_char_t = uint_least32_t;
extern "C"
{
int c_is_valid(u32_char_t c);
int c_is_valid_expr(u32_char_t c);
u32_char_t c_mask(u32_char_t c);
u32_char_t c_mask_expr(u32_char_t c);
unsigned c_capacity(void);
int c_get(u32_char_t c, int i);
u32_char_t c_on(u32_char_t c, int i);
u32_char_t c_off(u32_char_t c, int i);
u32_char_t c_cleared(u32_char_t c);
u32_char_t c_limits(int i);
int c_gc_count32(u32_char_t const* p, size_t n);
int c_gc_count8(char const* p, size_t n);
int c_gc_width32(u32_char_t const* p, size_t n, int whole);
int c_gc_width8(char const* p, size_t n, int whole);
int c_unbreakable(u32_char_t a, u32_char_t b);
int c_convert(u32_char_t const* p, size_t n, char* d, size_t dn);
long c_stream(char const* p, size_t n, u32_char_t* out, char const* other, size_t on);
}

struct Expected
{
    int count = 0, whole = 0, base = 0;
};
// What the C++ API says; on Unicode text the reference model has to agree.
static Expected expected(Case& c, U32V s, bool scalars)
{
    Expected e;
    Exact<char32_t> copy(s);
    size_t at = 0;
    for (auto const& cluster: ref::graphemeEnds(s))
    {
        auto const g = copy.view().substr(at, cluster - at);
        at = cluster;
        ++e.count;
        e.whole += static_cast<int>(unicode::grapheme_cluster_width(g));
        e.base += static_cast<int>(unicode::width(g.front()));
        if (scalars && unicode::grapheme_cluster_width(g) != ref::clusterWidth(g))
            c.fail("grapheme_cluster_width(" + hexStr(g) + ") differs from the reference");
        if (scalars && unicode::width(g.front()) != ref::width(g.front()))
            c.fail("width(" + hexStr(U32(1, g.front())) + ") differs from the reference");
    }
    Expected f;
    if (!s.empty())
    {
        unicode::grapheme_segmenter seg(copy.view());
        for (;;)
        {
            ++f.count;
            f.whole += static_cast<int>(unicode::grapheme_cluster_width(*seg));
            f.base += static_cast<int>(unicode::width((*seg).front()));
            if (!seg.codepointsAvailable())
                break;
            ++seg;
        }
    }
    if (!scalars)
        return f;
    if (f.count != e.count || f.whole != e.whole || f.base != e.base)
        c.fail("the C++ API finds " + std::to_string(f.count) + " clusters of " + std::to_string(f.whole) + "/" + std::to_string(f.base) + " columns in " + hexStr(s) + ", the reference " + std::to_string(e.count) + " of " + std::to_string(e.whole) + "/" + std::to_string(e.base));
    return e;
}
static void check32(Case& c, U32V s, bool scalars)
{
    std::vector<u32_char_t> in(s.begin(), s.end());
    Exact<u32_char_t> copy(std::basic_string_view<u32_char_t>(in.data(), in.size()));
    auto const* p = copy.view().data();
    auto const n = s.size();
    auto const e = expected(c, s, scalars);
    auto const what = hexStr(s);
    if (auto const g = c_gc_count32(p, n); g != e.count)
        c.fail("u32_gc_count(" + what + ") = " + std::to_string(g) + ", expected " + std::to_string(e.count));
    if (auto const g = c_gc_width32(p, n, 1); g != e.whole)
        c.fail("u32_gc_width(" + what + ", modifiable) = " + std::to_string(g) + ", expected " + std::to_string(e.whole));
    if (auto const g = c_gc_width32(p, n, 0); g != e.base)
        c.fail("u32_gc_width(" + what + ", non-modifiable) = " + std::to_string(g) + ", expected " + std::to_string(e.base));
}

static void p28Text(Case& c)
{
    auto s = c.chance(1, 40) ? U32 {} : sequence(c);
    bool scalars = true;
    if (c.chance(1, 6))
        for (auto k = 1 + c.draw(3); k--;)
        {
            s.insert(s.begin() + static_cast<long>(c.draw(s.size() + 1)), c.chance(1, 2) ? static_cast<char32_t>(0xD800 + c.draw(0x800)) : static_cast<char32_t>(c.range(0x110000, 0xFFFFFFFFull)));
            scalars = false;
        }
    c.show("text " + hexStr(s));
    c.label(scalars ? "text.unicode" : "text.beyond");
    if (s.size() > 1)
        c.nontrivial(hashOf(s));
    check32(c, s, scalars);
}

static void p28Bytes(Case& c)
{
    auto const b = c.chance(1, 40) ? std::string {} : bytes(c, [](Case& k) { return k.chance(2, 3) ? clusterPool().draw(k) : anyScalar(k); }, {});
    c.show("bytes " + hexBytes(b));
    U32 want;
    bool wellFormed = true;
    for (auto const& u: ref::units(b))
    {
        want += u.ok ? static_cast<char32_t>(u.value) : U'\uFFFD';
        wellFormed = wellFormed && u.ok;
    }
    c.label(wellFormed ? "bytes.well-formed" : "bytes.ill-formed");
    if (b.size() > 1)
        c.nontrivial(hashStr(b));
    Exact<char> copy { std::string_view(b) };
    auto const u32 = unicode::convert_to<char32_t>(copy.view());
    if (wellFormed && u32 != want)
        c.fail("convert_to<char32_t>(" + hexBytes(b) + ") differs from the reference");
    auto const e = expected(c, u32, wellFormed);
    auto const* p = copy.view().data();
    if (auto const g = c_gc_count8(p, b.size()); g != e.count)
        c.fail("u8_gc_count(" + hexBytes(b) + ") = " + std::to_string(g) + ", expected " + std::to_string(e.count));
    if (auto const g = c_gc_width8(p, b.size(), 1); g != e.whole)
        c.fail("u8_gc_width(" + hexBytes(b) + ", modifiable) = " + std::to_string(g) + ", expected " + std::to_string(e.whole));
    if (auto const g = c_gc_width8(p, b.size(), 0); g != e.base)
        c.fail("u8_gc_width(" + hexBytes(b) + ", non-modifiable) = " + std::to_string(g) + ", expected " + std::to_string(e.base));
    // streaming: the C++ decoder fed byte by byte
    unicode::decoder<char> d;
    U32 viaDecoder;
    for (auto const x: b)
        if (auto const cp = d(static_cast<uint8_t>(x)); cp.has_value())
            viaDecoder += *cp;
    std::vector<u32_char_t> out(b.size() + 1, 0);
    auto const other = bytes(c, [](Case& k) { return anyScalar(k); }, {});
    auto const k = c_stream(p, b.size(), out.data(), other.data(), other.size());
    if (k < 0)
        c.fail("the streaming converter does not honour its contract on " + hexBytes(b) + " (" + std::to_string(k) + ")");
    if (U32 const got(out.begin(), out.begin() + k); got != viaDecoder || (wellFormed && got != want))
        c.fail("u8u32_stream_convert_run yields " + hexStr(got) + " for " + hexBytes(b) + ", unicode::decoder yields " + hexStr(viaDecoder));
}

static void p28Convert(Case& c)
{
    U32 s;
    for (auto n = c.draw(c.chance(1, 8) ? 40 : 7); n--;)
        s += anyScalar(c);
    auto const want = ref::utf8(s);
    std::vector<u32_char_t> in(s.begin(), s.end());
    Exact<u32_char_t> copy(std::basic_string_view<u32_char_t>(in.data(), in.size()));
    c.show("text " + hexStr(s));
    if (!s.empty())
        c.nontrivial(hashOf(s));
    auto const from = want.size() > 24 ? c.draw(want.size() - 20) : 0;
    size_t evals = 0;
    for (auto dn = from; dn <= std::min(want.size() + 5, from + 30); ++dn, ++evals)
    {
        auto const how = "u32u8_convert(" + hexStr(s) + ") into " + std::to_string(dn) + " bytes";
        auto buf = std::make_unique<char[]>(dn); // exact: the sanitizer guards both ends
        std::fill_n(buf.get(), dn, '\x7e');
        auto const r = c_convert(copy.view().data(), s.size(), buf.get(), dn);
        if (want.size() <= dn)
        {
            c.label(want.size() == dn ? "fits.exactly" : "fits");
            if (r != static_cast<int>(want.size()))
                c.fail(how + " returns " + std::to_string(r) + ", but the text needs " + std::to_string(want.size()));
            if (std::string_view(buf.get(), want.size()) != want)
                c.fail(how + " writes " + hexBytes(std::string(buf.get(), want.size())) + " instead of " + hexBytes(want));
            for (auto i = want.size(); i < dn; ++i)
                if (buf[i] != '\x7e')
                    c.fail(how + " writes beyond the text");
        }
        else
        {
            c.label("too-small");
            if (r != -1)
                c.fail(how + " returns " + std::to_string(r) + ", but the text needs " + std::to_string(want.size()));
        }
    }
    if (evals)
        c.evals(evals - 1);
    // values that are no scalars: what the C++ encoder does
    if (c.chance(1, 4))
    {
        auto const v = c.chance(1, 2) ? static_cast<u32_char_t>(0xD800 + c.draw(0x800)) : static_cast<u32_char_t>(c.range(0x110000, 0xFFFFFFFFull));
        char buf[12] = {};
        auto const u8 = unicode::convert_to<char>(static_cast<char32_t>(v));
        auto const r = c_convert(&v, 1, buf, sizeof(buf));
        if (r != static_cast<int>(u8.size()) || std::string_view(buf, u8.size()) != u8)
            c.fail("u32u8_convert(U+" + std::to_string(v) + ") differs from the C++ encoder");
    }
}

static void p28Pairs(Case& c)
{
    auto const& pool = clusterPool();
    auto const n = pool.groups.size();
    auto const i = c.index(n * n);
    auto const& A = pool.groups[i / n];
    auto const& B = pool.groups[i % n];
    c.nontrivial(i);
    auto const step = [](size_t k) { return std::max<size_t>(1, k / 4); };
    size_t evals = 0;
    for (size_t x = 0; x < A.size(); x += step(A.size()))
        for (size_t y = 0; y < B.size(); y += step(B.size()), ++evals)
        {
            char32_t const s[] = { A[x], B[y] };
            auto const want = ref::graphemeEnds(U32V(s, 2)).size() == 1 ? 1 : 0;
            if (auto const got = c_unbreakable(s[0], s[1]); got != want)
                c.fail("u32_grapheme_unbreakable(" + hexStr(U32V(s, 2)) + ") = " + std::to_string(got) + ", expected " + std::to_string(want));
            check32(c, U32V(s, 2), true);
        }
    c.evals(evals - 1);
}
static void p28Beyond(Case& c)
{
    auto const odd = [&] { return c.chance(1, 3) ? clusterPool().draw(c) : c.chance(1, 4) ? static_cast<char32_t>(0xD800 + c.draw(0x800)) : static_cast<char32_t>(c.range(0x110000, 0xFFFFFFFFull)); };
    auto const a = odd(), b = odd();
    char32_t const s[] = { a, b };
    c.show("pair " + hexStr(U32V(s, 2)));
    c.nontrivial(hashOf(U32V(s, 2)));
    auto const got = c_unbreakable(a, b);
    auto const want = unicode::grapheme_segmenter(U32V(s, 2)).codepointsAvailable() ? 0 : 1;
    if (got != want)
        c.fail("u32_grapheme_unbreakable(" + hexStr(U32V(s, 2)) + ") = " + std::to_string(got) + ", but the segmenter says " + std::to_string(want));
}

// {{{ macros
static void macros(Case& c, uint32_t v)
{
    auto const bad = [&](char const* m) { c.fail(std::string(m) + " is wrong for " + hexStr(U32(1, v))); };
    auto const valid = [](uint32_t x) { return x <= 0x10FFFF && !(x >= 0xD800 && x <= 0xDFFF); };
    if (c_is_valid(v) != valid(v))
        bad("u32_is_valid_codepoint");
    if (c_is_valid_expr(v) != (!valid(v ^ 1) + 2 * valid(v)))
        bad("u32_is_valid_codepoint in an expression");
    if (c_mask(v) != v >> 21)
        bad("u32_unused_bit_mask");
    if (c_mask_expr(v) != ((v | 0x80000000u) >> 21) + 1)
        bad("u32_unused_bit_mask of an expression");
    if (c_cleared(v) != (v & 0x1FFFFF))
        bad("u32_unused_bit_cleared");
    for (int i = 0; i < 11; ++i)
    {
        auto const bit = uint32_t { 1 } << (21 + i);
        if (c_get(v, i) != ((v & bit) != 0))
            bad("u32_unused_bit_get");
        if (c_on(v, i) != (v | bit))
            bad("u32_unused_bit_on");
        if (c_off(v, i) != (v & ~bit))
            bad("u32_unused_bit_off");
    }
}
static void p28Macros(Case& c)
{
    auto const k = c.index(0x11C000 / 0x400);
    for (uint32_t v = static_cast<uint32_t>(k) * 0x400, e = v + 0x400; v < e; ++v)
        macros(c, v);
    if (c_capacity() != 11 || c_limits(0) != 0 || c_limits(1) != 0x10FFFF || c_limits(2) != 0x1FFFFF)
        c.fail("u32_unused_bit_capacity() or one of the limits is wrong");
    c.evals(0x3FF);
    c.nontrivial(k);
}
static void p28MacrosAny(Case& c)
{
    auto const v = static_cast<uint32_t>(c.draw(0x100000000ull));
    c.show("value " + hexStr(U32(1, v)));
    c.nontrivial(v);
    macros(c, v);
}
// }}}

static size_t pairs()
{
    auto const n = clusterPool().groups.size();
    return n * n;
}
PROPERTY({ "P28",
           "a text of at least two codepoints or bytes, a destination size for a non-empty text, a pair of codepoints, or a 32-bit value for the macros",
           {
               { "text", 150000, 5000000, p28Text },
               { "bytes", 100000, 4000000, p28Bytes },
               { "long-text", 1000, 30000, longArm(p28Text) },
               { "long-bytes", 1000, 30000, longArm(p28Bytes) },
               { "encode", 60000, 2000000, p28Convert },
               { "class-pairs", pairs(), pairs(), p28Pairs, true },
               { "beyond-unicode", 50000, 1000000, p28Beyond },
               { "macros-unicode", 0x11C000 / 0x400, 0x11C000 / 0x400, p28Macros, true },
               { "macros-any", 200000, 20000000, p28MacrosAny },
           },
           {},
           {},
           { "the C++ functions the C API is compared with are themselves compared with the reference model on Unicode text" } });
