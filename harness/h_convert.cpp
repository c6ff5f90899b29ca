// P01 lossless transcoding, P02 ill-formed input, P03 (conversion part; the scan part is in h_scan).
#include "gen.h"
#include "simdgroups.h"

#include <memory>

#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>

using namespace pbt;
using namespace gen;

template <typename C>
using SV = std::basic_string_view<C>;
template <typename C>
using Str = std::basic_string<C>;

static std::wstring wide(U32V s)
{
    return std::wstring(s.begin(), s.end());
}
template <typename C>
static std::string show(SV<C> s)
{
    U32 u;
    for (auto x: s)
        u += static_cast<char32_t>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>(x));
    return hexStr(u);
}
template <typename C>
static void eq(Case& c, Str<C> const& got, Str<C> const& want, char const* route, std::string const& input)
{
    if (got != want)
        c.fail(std::string(route) + " of " + input + " gives " + show(SV<C>(got)) + ", expected " + show(SV<C>(want)));
}

// convert_to between S and T, as a string and through an iterator into an exact buffer.
template <typename T, typename S>
static void route(Case& c, SV<S> in, Str<T> const& want, char const* name)
{
    Exact<S> copy(in);
    auto const what = show(in);
    eq(c, unicode::convert_to<T>(copy.view()), want, name, what);
    Str<T> viaIt;
    unicode::convert_to<T>(copy.view(), std::back_inserter(viaIt));
    eq(c, viaIt, want, (std::string(name) + " through an output iterator").c_str(), what);
    // through a plain pointer into a buffer of exactly the needed size
    auto buf = std::make_unique<T[]>(want.size() + 1);
    buf[want.size()] = T(0x55);
    auto* e = unicode::convert_to<T>(copy.view(), buf.get());
    if (static_cast<size_t>(e - buf.get()) != want.size() || SV<T>(buf.get(), want.size()) != SV<T>(want) || buf[want.size()] != T(0x55))
        c.fail(std::string(name) + " into a buffer of " + what + " writes " + std::to_string(e - buf.get()) + " units, expected " + show(SV<T>(want)));
}

static void checkLossless(Case& c, U32 const& s)
{
    auto const what = hexStr(s);
    auto const u8 = ref::utf8(s);
    auto const u16 = ref::utf16(s);
    auto const w = wide(s);

    route<char, char32_t>(c, s, u8, "UTF-32 to UTF-8");
    route<char16_t, char32_t>(c, s, u16, "UTF-32 to UTF-16");
    route<wchar_t, char32_t>(c, s, w, "UTF-32 to wide");
    route<char32_t, char32_t>(c, s, s, "UTF-32 to UTF-32");
    route<char32_t, char>(c, u8, s, "UTF-8 to UTF-32");
    route<char16_t, char>(c, u8, u16, "UTF-8 to UTF-16");
    route<wchar_t, char>(c, u8, w, "UTF-8 to wide");
    route<char, char>(c, u8, u8, "UTF-8 to UTF-8");
    route<char32_t, char16_t>(c, u16, s, "UTF-16 to UTF-32");
    route<char, char16_t>(c, u16, u8, "UTF-16 to UTF-8");
    route<wchar_t, char16_t>(c, u16, w, "UTF-16 to wide");
    route<char16_t, char16_t>(c, u16, u16, "UTF-16 to UTF-16");
    route<char, wchar_t>(c, w, u8, "wide to UTF-8");
    route<char16_t, wchar_t>(c, w, u16, "wide to UTF-16");
    route<char32_t, wchar_t>(c, w, s, "wide to UTF-32");
    route<wchar_t, wchar_t>(c, w, w, "wide to wide");

    // utf8.h
    eq(c, unicode::to_utf8(s), u8, "to_utf8(u32string)", what);
    eq(c, unicode::to_utf8(U32V(s)), u8, "to_utf8(u32string_view)", what);
    {
        Exact<char32_t> copy { U32V(s) };
        eq(c, unicode::to_utf8(copy.view().data(), s.size()), u8, "to_utf8(pointer, n)", what);
    }
    Exact<char> c8 { std::string_view(u8) };
    eq(c, unicode::from_utf8(c8.view()), s, "from_utf8(string_view)", what);

    // incremental decoders
    {
        U32 a, b, d, e;
        unicode::utf8_decoder_state st {}, st2 {};
        unicode::decoder<char> dec;
        auto handle = u8u32_stream_convert_create();
        size_t i = 0;
        for (char ch: u8)
        {
            auto const byte = static_cast<uint8_t>(ch);
            auto const r = unicode::from_utf8(st, byte);
            bool const last = i + 1 == u8.size() || (static_cast<uint8_t>(u8[i + 1]) & 0xC0) != 0x80;
            if (std::holds_alternative<unicode::Success>(r) != last || std::holds_alternative<unicode::Invalid>(r))
                c.fail("from_utf8(state) on well-formed " + what + ": wrong kind of result at byte " + std::to_string(i));
            if (last)
                a += std::get<unicode::Success>(r).value;
            auto const ri = unicode::from_utf8i(st2, byte);
            if (last)
                b += static_cast<char32_t>(ri);
            else if (ri != static_cast<unsigned>(-1))
                c.fail("from_utf8i on well-formed " + what + ": no 'incomplete' at byte " + std::to_string(i));
            if (auto const x = dec(byte))
                d += *x;
            u32_char_t o = 0x7E57;
            auto const rc = u8u32_stream_convert_run(handle, ch, &o);
            if (rc == 1)
                e += static_cast<char32_t>(o);
            else if (rc != 0 || o != 0x7E57)
                c.fail("u8u32_stream_convert_run on " + what + ": returns " + std::to_string(rc) + " or touches the output while incomplete");
            ++i;
        }
        u8u32_stream_convert_destroy(&handle);
        if (handle != nullptr)
            c.fail("u8u32_stream_convert_destroy leaves the handle set");
        eq(c, a, s, "from_utf8(state)", what);
        eq(c, b, s, "from_utf8i(state)", what);
        eq(c, d, s, "decoder<char> bytewise", what);
        eq(c, e, s, "C stream decoder", what);
    }
    // iterator decoders over well-formed text
    {
        U32 a, b, d, e;
        auto const* p = c8.view().data();
        auto const* const pe = p + u8.size();
        while (p != pe)
        {
            unicode::decoder<char> dec;
            auto const x = dec(p);
            if (!x || p > pe)
                c.fail("decoder<char> through an iterator fails on " + what);
            a += *x;
        }
        Exact<char16_t> c16 { SV<char16_t>(u16) };
        auto const* q = c16.view().data();
        auto const* const qe = q + u16.size();
        while (q != qe)
        {
            unicode::decoder<char16_t> dec;
            auto const x = dec(q);
            if (!x || q > qe)
                c.fail("decoder<char16_t> fails on " + what);
            b += *x;
        }
        auto r = s.cbegin();
        while (r != s.cend())
        {
            unicode::decoder<char32_t> dec;
            d += *dec(r);
        }
        auto v = w.cbegin();
        while (v != w.cend())
        {
            unicode::decoder<wchar_t> dec;
            e += *dec(v);
        }
        eq(c, a, s, "decoder<char> through an iterator", what);
        eq(c, b, s, "decoder<char16_t>", what);
        eq(c, d, s, "decoder<char32_t>", what);
        eq(c, e, s, "decoder<wchar_t>", what);
    }
    // from_utf8(bytes, &size), one character at a time
    {
        U32 a;
        size_t i = 0;
        while (i < u8.size())
        {
            size_t n = 0;
            auto const r = c.draw(2) ? unicode::from_utf8(c8.view().data() + i, &n) : unicode::from_utf8(reinterpret_cast<uint8_t const*>(c8.view().data() + i), &n);
            if (!std::holds_alternative<unicode::Success>(r) || n == 0 || i + n > u8.size())
                c.fail("from_utf8(bytes, &size) fails at byte " + std::to_string(i) + " of " + what);
            a += std::get<unicode::Success>(r).value;
            i += n;
            if (a.size() > 40)
                break; // long texts: a prefix is enough
        }
        eq(c, a, s.substr(0, a.size()), "from_utf8(bytes, &size)", what);
    }
    // encoders
    {
        std::string a;
        std::u16string b;
        U32 d;
        std::wstring e;
        for (auto x: s)
        {
            unicode::encoder<char> ea;
            ea(x, std::back_inserter(a));
            unicode::encoder<char16_t> eb;
            eb(x, std::back_inserter(b));
            unicode::encoder<char32_t> ed;
            ed(x, std::back_inserter(d));
            unicode::encoder<wchar_t> ee;
            ee(x, std::back_inserter(e));
        }
        eq(c, a, u8, "encoder<char>", what);
        eq(c, b, u16, "encoder<char16_t>", what);
        eq(c, d, s, "encoder<char32_t>", what);
        eq(c, e, w, "encoder<wchar_t>", what);
    }
}
static void checkChar(Case& c, char32_t x)
{
    U32 const s(1, x);
    auto const what = hexStr(s);
    auto const u8 = ref::utf8(s);
    eq(c, unicode::to_utf8(x), u8, "to_utf8(char32_t)", what);
    {
        uint8_t buf[6] = { 0x5A, 0x5A, 0x5A, 0x5A, 0x5A, 0x5A };
        auto const n = unicode::to_utf8(x, buf);
        if (n != u8.size() || memcmp(buf, u8.data(), n) != 0 || buf[n] != 0x5A)
            c.fail("to_utf8(char32_t, buffer) of " + what + " writes " + std::to_string(n) + " bytes");
    }
    eq(c, unicode::convert_to<char>(x), u8, "convert_to<char>(char32_t)", what);
    eq(c, unicode::convert_to<char16_t>(x), ref::utf16(s), "convert_to<char16_t>(char32_t)", what);
    eq(c, unicode::convert_to<wchar_t>(x), wide(s), "convert_to<wchar_t>(char32_t)", what);
    eq(c, unicode::convert_to<char32_t>(x), s, "convert_to<char32_t>(char32_t)", what);
    if (x < 0x10000)
    {
        auto const y = static_cast<char16_t>(x);
        eq(c, unicode::convert_to<char>(y), u8, "convert_to<char>(char16_t)", what);
        eq(c, unicode::convert_to<char32_t>(y), s, "convert_to<char32_t>(char16_t)", what);
        eq(c, unicode::convert_to<wchar_t>(y), wide(s), "convert_to<wchar_t>(char16_t)", what);
    }
    if (x < 0x80)
    {
        auto const y = static_cast<char>(x);
        eq(c, unicode::convert_to<char16_t>(y), ref::utf16(s), "convert_to<char16_t>(char)", what);
        eq(c, unicode::convert_to<char32_t>(y), s, "convert_to<char32_t>(char)", what);
        eq(c, unicode::convert_to<wchar_t>(y), wide(s), "convert_to<wchar_t>(char)", what);
    }
}
static char32_t scalar(Case& c)
{
    return anyScalar(c);
}
static U32 wellFormed(Case& c, size_t max)
{
    U32 s;
    for (auto k = 1 + c.draw(4); k > 0; --k)
    {
        if (c.chance(2, 3)) // ASCII runs of every length around the vector sizes
        {
            static const size_t len[] = { 1, 3, 7, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 95, 127, 128, 129, 191, 255 };
            auto n = c.chance(1, 2) ? len[c.draw(19)] : c.draw(140);
            n = std::min(n, max);
            for (size_t i = 0; i < n; ++i)
                s += static_cast<char32_t>((i * 37 + n) % 128);
        }
        for (auto j = c.draw(6); j > 0; --j)
            s += scalar(c);
    }
    stretch(c, s);
    return s;
}
static void p01Strings(Case& c)
{
    auto const s = wellFormed(c, 260);
    c.show("text " + hexStr(s));
    bool multi = false;
    size_t run = 0;
    while (run < s.size() && s[run] < 0x80)
        ++run;
    for (auto x: s)
        multi = multi || x >= 0x80;
    if (multi || run >= 16)
        c.nontrivial(hashOf(s));
    c.label("ascii-prefix." + std::string(run >= 64 ? ">=64" : run >= 32 ? "32-63" : run >= 16 ? "16-31" : "<16"));
    checkLossless(c, s);
}
constexpr uint64_t Chunk = 0x400;
static void p01Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    U32 s;
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        if (isSurrogate(cp))
            continue;
        checkChar(c, cp);
        s += cp;
    }
    checkLossless(c, s);
    c.evals(2 * s.size());
    c.nontrivial(k);
}

// {{{ P02
// Is `out` what ignoring the ill-formed parts gives? Structurally complete but non-scalar parts
// may be decoded as they stand or ignored.
static bool ignores(std::string_view bytes, U32V out)
{
    size_t p = 0;
    for (auto const& u: ref::units(bytes))
    {
        if (!u.ok)
            continue;
        auto const n = u.end - u.begin;
        auto const overlong = (n == 2 && u.value < 0x80) || (n == 3 && u.value < 0x800) || (n == 4 && u.value < 0x10000);
        bool const nonScalarUnit = overlong || isSurrogate(u.value) || u.value > 0x10FFFF;
        if (p < out.size() && out[p] == u.value)
            ++p; // non-scalar values are distinguishable from their neighbours only by position; taking them is the common case
        else if (!nonScalarUnit)
            return false;
    }
    return p == out.size();
}
static std::u16string encode16(U32V s)
{
    std::u16string o;
    for (auto x: s)
        if (x <= 0x10FFFF && !isSurrogate(x))
            o += ref::utf16(U32(1, x));
    return o;
}
static void checkIll8(Case& c, std::string const& b)
{
    Exact<char> copy { std::string_view(b) };
    auto const v = copy.view();
    auto const what = hexBytes(b);
    auto const a = unicode::convert_to<char32_t>(v);
    if (!ignores(b, a))
        c.fail("UTF-8 to UTF-32 of " + what + " gives " + hexStr(a) + ", which is not its well-formed characters");
    eq(c, unicode::from_utf8(v), a, "from_utf8(string_view) (against convert_to<char32_t>)", what);
    {
        U32 o;
        unicode::convert_to<char32_t>(v, std::back_inserter(o));
        eq(c, o, a, "UTF-8 to UTF-32 through an iterator", what);
    }
    eq(c, unicode::convert_to<wchar_t>(v), wide(a), "UTF-8 to wide", what);
    eq(c, unicode::convert_to<char16_t>(v), encode16(a), "UTF-8 to UTF-16", what);
    {
        std::u16string o;
        unicode::convert_to<char16_t>(v, std::back_inserter(o));
        eq(c, o, encode16(a), "UTF-8 to UTF-16 through an iterator", what);
    }
    eq(c, unicode::convert_to<char>(v), b, "UTF-8 to UTF-8", what);
    // incremental
    U32 d, e, f, g;
    unicode::decoder<char> dec;
    unicode::utf8_decoder_state st {}, st2 {};
    auto handle = u8u32_stream_convert_create();
    for (char ch: b)
    {
        auto const byte = static_cast<uint8_t>(ch);
        if (auto const x = dec(byte))
            d += *x;
        auto const r = unicode::from_utf8(st, byte);
        if (std::holds_alternative<unicode::Success>(r))
            e += std::get<unicode::Success>(r).value;
        auto const ri = unicode::from_utf8i(st2, byte);
        if (ri < 0xFFFFFFFEu)
            g += static_cast<char32_t>(ri);
        u32_char_t o = 0x7E57;
        auto const rc = u8u32_stream_convert_run(handle, ch, &o);
        if (rc == 1)
            f += static_cast<char32_t>(o);
        else if (rc != 0 || o != 0x7E57)
            c.fail("C stream decoder on " + what + ": returns " + std::to_string(rc) + " or touches the output");
    }
    u8u32_stream_convert_destroy(&handle);
    eq(c, d, a, "decoder<char> bytewise", what);
    eq(c, e, a, "from_utf8(state)", what);
    eq(c, g, a, "from_utf8i(state)", what);
    eq(c, f, a, "C stream decoder", what);
    // single characters and single bytes
    for (char ch: b.substr(0, 4))
    {
        U32 const one = static_cast<uint8_t>(ch) < 0x80 ? U32(1, static_cast<char32_t>(ch)) : U32();
        eq(c, unicode::convert_to<char32_t>(ch), one, "convert_to<char32_t>(char)", hexBytes(std::string(1, ch)));
        eq(c, unicode::convert_to<char16_t>(ch), encode16(one), "convert_to<char16_t>(char)", hexBytes(std::string(1, ch)));
    }
    // from_utf8(bytes, &size) reads one character of NUL-terminated text and no further
    auto const z = b + std::string(1, '\0');
    Exact<char> zc { std::string_view(z) };
    size_t i = 0;
    auto const us = ref::units(z);
    for (auto const& u: us)
    {
        if (u.begin != i || i > 64)
            break;
        size_t n = 0;
        auto const r = unicode::from_utf8(zc.view().data() + i, &n);
        auto const overlongish = u.ok && (u.value > 0x10FFFF || isSurrogate(u.value) || ref::utf8(U32(1, static_cast<char32_t>(u.value))).size() != u.end - u.begin);
        if (u.ok && !overlongish && (!std::holds_alternative<unicode::Success>(r) || std::get<unicode::Success>(r).value != u.value || n != u.end - u.begin))
            c.fail("from_utf8(bytes, &size) at byte " + std::to_string(i) + " of " + hexBytes(z) + " does not return the character there");
        if (!u.ok && (!std::holds_alternative<unicode::Invalid>(r) || n > u.end - u.begin || n == 0))
            c.fail("from_utf8(bytes, &size) at the ill-formed byte " + std::to_string(i) + " of " + hexBytes(z) + " does not return Invalid within it (size " + std::to_string(n) + ")");
        i = u.end;
    }
}
static std::function<void(Case&)> p02Bytes(BytesOptions o)
{
    return [o](Case& c) {
        auto const b = bytes(c, scalar, o);
        c.show("bytes " + hexBytes(b));
        for (auto const& u: ref::units(b))
            if (!u.ok)
            {
                c.nontrivial(hashOf(b));
                break;
            }
        checkIll8(c, b);
    };
}
static void p02ShortBytes(Case& c)
{
    static const uint8_t v[] = { 'a', 0x00, 0x7F, 0x80, 0x9B, 0xBF, 0xC2, 0xCC, 0xDF, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFF };
    auto k = c.index(65536);
    std::string b;
    for (int i = 0; i < 4; ++i)
    {
        b += static_cast<char>(v[k % 16]);
        k /= 16;
    }
    c.show("bytes " + hexBytes(b));
    c.nontrivial(hashOf(b));
    checkIll8(c, b);
    checkIll8(c, b + "z");
    checkIll8(c, "z" + b.substr(0, 3));
    checkIll8(c, b.substr(0, 1));
    checkIll8(c, b.substr(0, 2));
    c.evals(4);
}
static U32 ref16(std::u16string_view s)
{
    U32 o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto const x = s[i];
        if (x >= 0xD800 && x < 0xDC00)
        {
            if (i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000)
                o += static_cast<char32_t>(0x10000 + ((x - 0xD800) << 10) + (s[i + 1] - 0xDC00));
            ++i; // an unpaired high surrogate is dropped together with the unit after it
        }
        else if (x >= 0xDC00 && x < 0xE000)
            continue;
        else
            o += x;
    }
    return o;
}
static void check16(Case& c, std::u16string const& s)
{
    auto const want = ref16(s);
    route<char32_t, char16_t>(c, s, want, "UTF-16 to UTF-32");
    route<char, char16_t>(c, s, ref::utf8(want), "UTF-16 to UTF-8");
    route<wchar_t, char16_t>(c, s, wide(want), "UTF-16 to wide");
    route<char16_t, char16_t>(c, s, s, "UTF-16 to UTF-16");
    for (auto x: s.substr(0, 3))
        eq(c, unicode::convert_to<char32_t>(x), isSurrogate(x) ? U32() : U32(1, x), "convert_to<char32_t>(char16_t)", hexStr(U32(1, x)));
}
static void p02Utf16(Case& c)
{
    std::u16string s;
    for (auto k = c.size(24); k > 0; --k)
        switch (c.draw(5))
        {
            case 0: s += static_cast<char16_t>(c.range(0xD800, 0xDBFF)); break;
            case 1: s += static_cast<char16_t>(c.range(0xDC00, 0xDFFF)); break;
            case 2: {
                s += static_cast<char16_t>(c.range(0xD800, 0xDBFF));
                s += static_cast<char16_t>(c.range(0xDC00, 0xDFFF));
                break;
            }
            case 3: s += static_cast<char16_t>(c.draw(0x10000)); break;
            default: s += static_cast<char16_t>(c.range(0x20, 0x7E)); break;
        }
    stretch(c, s);
    c.show("units " + show(std::u16string_view(s)));
    if (ref::utf16(ref16(s)) != s)
        c.nontrivial(hashOf(s));
    check16(c, s);
}
// The single-character decoders that pull from an iterator: nothing bounds them but the text itself, so it ends in a NUL.
static void p02Pull(Case& c)
{
    if (c.chance(2, 3))
    {
        auto b = bytes(c, scalar, { true, c.chance(1, 3), true, 10 });
        b += '\0';
        for (auto const& u: ref::units(b))
            if (!u.ok)
                c.nontrivial(hashOf(b));
        c.show("bytes " + hexBytes(b));
        Exact<char> z { std::string_view(b) };
        auto const* const d = z.view().data();
        size_t checked = 0;
        for (auto const& u: ref::units(b))
        {
            if (++checked > 80)
                break;
            auto const first = static_cast<uint8_t>(b[u.begin]);
            size_t stop = u.begin + 1; // the first byte after the lead that is no continuation byte
            while (stop < b.size() && (static_cast<uint8_t>(b[stop]) & 0xC0) == 0x80)
                ++stop;
            auto const where = "decoder<char> from an iterator at byte " + std::to_string(u.begin) + " of " + hexBytes(b);
            unicode::decoder<char> dec;
            auto const* it = d + u.begin;
            auto const r = dec(it);
            auto const n = static_cast<size_t>(it - (d + u.begin));
            auto const standard = u.ok && u.value <= 0x10FFFF && !isSurrogate(u.value) && ref::utf8(U32(1, static_cast<char32_t>(u.value))).size() == u.end - u.begin;
            if (n == 0 || n > stop + 1 - u.begin || n > 6)
                c.fail(where + " consumes " + std::to_string(n) + " bytes");
            if (standard && (!r || *r != u.value || n != u.end - u.begin))
                c.fail(where + " does not give the character there");
            if (!u.ok && first < 0xF8 && r)
                c.fail(where + " gives U+" + hexStr(U32(1, *r)) + " although no character starts there");
            if (!u.ok && first < 0xF8 && n > u.end - u.begin + 1)
                c.fail(where + " consumes " + std::to_string(n) + " bytes of a broken sequence");
        }
        return;
    }
    std::u16string s;
    for (auto n = c.size(12); n > 0; --n)
    {
        auto const k = c.draw(6);
        auto const v = scalar(c);
        if (k == 0)
            s += static_cast<char16_t>(0xD800 + c.draw(0x400));
        else if (k == 1)
            s += static_cast<char16_t>(0xDC00 + c.draw(0x400));
        else if (!isSurrogate(v))
            s += encode16(U32(1, v));
    }
    s += u'\0';
    if (ref::utf16(ref16(s)) != s)
        c.nontrivial(hashOf(s));
    c.show("units " + show(std::u16string_view(s)));
    Exact<char16_t> z { std::u16string_view(s) };
    auto const* const d = z.view().data();
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto const high = s[i] >= 0xD800 && s[i] < 0xDC00;
        auto const low = s[i] >= 0xDC00 && s[i] < 0xE000;
        auto const pair = high && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000;
        unicode::decoder<char16_t> dec;
        auto const* it = d + i;
        auto const r = dec(it);
        auto const n = static_cast<size_t>(it - (d + i));
        auto const where = "decoder<char16_t> from an iterator at unit " + std::to_string(i) + " of " + show(std::u16string_view(s));
        if (pair)
        {
            auto const v = 0x10000u + ((static_cast<uint32_t>(s[i]) - 0xD800u) << 10) + (static_cast<uint32_t>(s[i + 1]) - 0xDC00u);
            if (!r || *r != v || n != 2)
                c.fail(where + " does not give the character of the pair");
        }
        else if (high || low)
        {
            if (r || n == 0 || n > (high ? 2u : 1u))
                c.fail(where + " gives a value or consumes " + std::to_string(n) + " units for an unpaired surrogate");
        }
        else if (!r || *r != s[i] || n != 1)
            c.fail(where + " does not give the unit there");
    }
}
static void p02Utf32(Case& c)
{
    U32 s;
    for (auto k = c.size(24); k > 0; --k)
        switch (c.draw(4))
        {
            case 0: s += static_cast<char32_t>(c.range(0xD800, 0xDFFF)); break;
            case 1: s += static_cast<char32_t>(c.range(0x110000, 0xFFFFFFFFull)); break;
            default: s += scalar(c); break;
        }
    stretch(c, s);
    c.show("units " + hexStr(s));
    bool bad = false;
    for (auto x: s)
        bad = bad || isSurrogate(x) || x > 0x10FFFF;
    if (bad)
        c.nontrivial(hashOf(s));
    route<char16_t, char32_t>(c, s, encode16(s), "UTF-32 to UTF-16");
    route<char32_t, char32_t>(c, s, s, "UTF-32 to UTF-32");
    route<wchar_t, char32_t>(c, s, wide(s), "UTF-32 to wide");
    // UTF-8: the scalar values come out unharmed, every other value takes at most four bytes
    Exact<char32_t> copy { U32V(s) };
    auto const u8 = unicode::convert_to<char>(copy.view());
    eq(c, unicode::to_utf8(s), u8, "to_utf8 (against convert_to<char>)", hexStr(s));
    if constexpr (sizeof(wchar_t) == 4) // wide text is UTF-32 text
    {
        auto const w = wide(s);
        route<char32_t, wchar_t>(c, w, s, "wide to UTF-32");
        route<char16_t, wchar_t>(c, w, encode16(s), "wide to UTF-16");
        route<char, wchar_t>(c, w, u8, "wide to UTF-8");
        route<wchar_t, wchar_t>(c, w, w, "wide to wide");
    }
    if (u8.size() > 4 * s.size())
        c.fail("UTF-32 to UTF-8 of " + hexStr(s) + " writes more than four bytes per value");
    std::set<size_t> at { 0 };
    for (auto x: s)
    {
        std::set<size_t> next;
        for (auto p: at)
            if (isSurrogate(x) || x > 0x10FFFF)
                for (size_t n = 0; n <= 4 && p + n <= u8.size(); ++n)
                    next.insert(p + n);
            else if (auto const e = ref::utf8(U32(1, x)); u8.compare(p, e.size(), e) == 0)
                next.insert(p + e.size());
        at = next;
    }
    if (!at.count(u8.size()))
        c.fail("UTF-32 to UTF-8 of " + hexStr(s) + " gives " + hexBytes(u8) + ": a scalar value is lost or changed");
}
// }}}

// {{{ P03: ASCII prefix of every length and alignment, then something else
static void p03Convert(Case& c)
{
    auto const len = c.index(261);
    uint64_t n = 0;
    auto const off0 = c.draw(64);
    for (size_t off: { size_t(0), size_t(1), static_cast<size_t>(off0) })
        for (int tail = 0; tail < 7; ++tail)
        {
            static const std::string tails[] = { "", "\xC3\xA4", "\x80", "\xF0\x9F\x98\x80", "\xE2\x82", "\xC3", "\xFFz" };
            std::string s;
            for (size_t i = 0; i < len; ++i)
                s += static_cast<char>((i * 31 + off + len) % 128);
            s += tails[tail];
            if (tail == 1)
                s.append(40, 'q');
            std::unique_ptr<char[]> buf(new char[off + s.size()]);
            memcpy(buf.get() + off, s.data(), s.size());
            std::string_view const v(buf.get() + off, s.size());
            U32 want;
            for (auto const& u: ref::units(s))
                if (u.ok)
                    want += static_cast<char32_t>(u.value);
            c.show("bytes " + hexBytes(s) + " at offset " + std::to_string(off));
            eq(c, unicode::convert_to<char32_t>(v), want, "UTF-8 to UTF-32", hexBytes(s));
            eq(c, unicode::from_utf8(v), want, "from_utf8", hexBytes(s));
            eq(c, unicode::convert_to<char16_t>(v), encode16(want), "UTF-8 to UTF-16", hexBytes(s));
            n += 3;
            // one non-ASCII byte at every position of the run
            if (tail == 0 && off == 0)
                for (size_t p = 0; p < len; p += 1 + len / 40)
                {
                    auto t = s;
                    t.replace(p, 1, "\xC2\xA9");
                    Exact<char> e { std::string_view(t) };
                    U32 w2;
                    for (auto const& u: ref::units(t))
                        w2 += static_cast<char32_t>(u.value);
                    eq(c, unicode::convert_to<char32_t>(e.view()), w2, "UTF-8 to UTF-32", hexBytes(t));
                    eq(c, unicode::convert_to<char16_t>(e.view()), encode16(w2), "UTF-8 to UTF-16", hexBytes(t));
                    ++n;
                }
        }
    c.evals(n);
    c.nontrivial(len);
}
static void p03Random(Case& c)
{
    auto const b = bytes(c, scalar, { true, false, true, 12 });
    c.show("bytes " + hexBytes(b));
    if (b.size() >= 16)
        c.nontrivial(hashOf(b));
    Exact<char> e { std::string_view(b) };
    U32 want;
    for (auto const& u: ref::units(b))
        if (u.ok)
            want += static_cast<char32_t>(u.value);
    eq(c, unicode::convert_to<char32_t>(e.view()), want, "UTF-8 to UTF-32", hexBytes(b));
    eq(c, unicode::convert_to<char16_t>(e.view()), encode16(want), "UTF-8 to UTF-16", hexBytes(b));
}
// }}}

PROPERTY({ "P01",
           "a text is non-trivial if it has a non-ASCII character or starts with at least 16 ASCII characters",
           inAllGroups({
               { "strings", 12000, 300000, p01Strings },
               { "long", 300, 10000, longArm(p01Strings, 3000, 70000) },
               { "every-scalar", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p01Every, true },
           }),
           simdSetup,
           simdEnabled,
           { "wchar_t has 32 bits here; its 16-bit branch is not compiled on this platform" } });
PROPERTY({ "P02",
           "bytes are non-trivial if they hold an ill-formed part; unit sequences if they hold an unpaired surrogate or a value that is no scalar value",
           inAllGroups({
               { "bytes", 50000, 1000000, p02Bytes({ true, false, true, 24 }) },
               { "bytes-nonscalar", 30000, 500000, p02Bytes({ true, true, true, 24 }) },
               { "pull", 20000, 400000, p02Pull },
               { "long", 600, 20000, longArm(p02Bytes({ true, false, true, 24 })) },
               { "long-utf16", 600, 20000, longArm(p02Utf16) },
               { "long-utf32", 300, 10000, longArm(p02Utf32, 300, 300) },
               { "short-byte-strings", 65536, 65536, p02ShortBytes, true },
               { "utf16", 40000, 1000000, p02Utf16 },
               { "utf32", 40000, 1000000, p02Utf32 },
           }),
           simdSetup,
           simdEnabled,
           { "overlong forms, encoded surrogates and values above U+10FFFF (structurally complete) may be decoded as they stand or ignored, but all routes must agree",
             "the single-character iterator decoders have no end to check: their input is NUL-terminated, and bytes F8..FF are only checked for where reading stops",
             "from_utf8(bytes, size) takes no length: its input is NUL-terminated" } });
PROPERTY({ "P03",
           "a case is non-trivial if it covers one ASCII run length with all alignments and tails, or is a byte string of at least one vector",
           inAllGroups({
               { "ascii-runs", 261, 261, p03Convert, true },
               { "random", 60000, 1500000, p03Random },
               { "long", 2000, 60000, longArm(p03Random) },
           }),
           simdSetup,
           simdEnabled,
           {} });
