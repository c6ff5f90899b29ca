// P15-P19 normalization.
#include "gen.h"

#include <libunicode/normalization.h>

#include <memory>

using namespace pbt;
using namespace gen;
using unicode::Normalization_Form;

static Normalization_Form const Forms[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
static char const* const FormName[] = { "NFC", "NFD", "NFKC", "NFKD" };

// {{{ characters
static bool isHangulSyl(uint32_t c) { return c >= 0xAC00 && c < 0xAC00 + 11172; }
static bool composesAsFirst(uint32_t c)
{
    static auto const s = [] {
        ref::Bits b(ref::MaxCp);
        for (auto const& [p, x]: ref::primaryComposites())
            b[p.first] = true;
        return b;
    }();
    return s[c] || (c >= 0x1100 && c < 0x1113) || (isHangulSyl(c) && (c - 0xAC00) % 28 == 0);
}
static bool composesAsSecond(uint32_t c) { return ref::normProps().qc[0][c] == 'M'; }
static Pool const& pool()
{
    static Pool const p = Pool::by(
        [](uint32_t c) {
            U32 d, k;
            ref::decompose(c, false, d);
            ref::decompose(c, true, k);
            unsigned key = ref::ccc(c) == 0 ? 0 : ref::ccc(c) < 200 ? 1 : ref::ccc(c) < 220 ? 2 : ref::ccc(c) < 230 ? 3 : ref::ccc(c) == 230 ? 4 : 5;
            key = key * 4 + (d.size() == 1 && d[0] == c ? 0u : d.size() == 1 ? 1u : d.size() == 2 ? 2u : 3u);
            key = key * 3 + (k == d ? 0u : k.size() == 1 ? 1u : 2u);
            key = key * 2 + (ref::ccc(d[0]) != 0 && ref::ccc(c) == 0);
            key = key * 2 + (ref::ccc(k[0]) != 0 && ref::ccc(c) == 0);
            key = key * 2 + composesAsFirst(c);
            key = key * 2 + composesAsSecond(c);
            key = key * 2 + (composesAsSecond(k[0]) && k[0] != c);
            key = key * 2 + ref::normProps().fullExcl[c];
            key = key * 2 + isHangulSyl(c);
            return key;
        },
        { 'a', 0x301, 0x327, 0x31B, 0x323, 0x302, 'e', 0x1E69, 0xE9, 0x1100, 0x1161, 0x11A7, 0x11A8, 0x11C2, 0xAC00, 0xAC01, 0x345, 0x344, 0xF73, 0xF71, 0xF72, 0x9C7, 0x9BE, 0x1D15F,
          0x212B, 0x2126, 0xFF9E, 0xFF76, 0x3099, 0x304B, 0x2F800, 0x340, 0x1112, 0x1175, 0x11C3, 0x1176, 0x1113, 0xD7A3, 0xD788, 0x94D, 0x93C, 0x915, 0x958, 0xFB01, 0x1E9B, 0x307 });
    return p;
}
// a starter with the marks that may compose with it, blocked or not
static std::vector<std::pair<uint32_t, uint32_t>> const& pairs()
{
    static auto const v = [] {
        std::vector<std::pair<uint32_t, uint32_t>> r;
        for (auto const& [cp, d]: ref::unicodeData().decomp) // excluded ones too
            if (d.first.empty() && d.second.size() == 2)
                r.push_back({ d.second[0], d.second[1] });
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }();
    return v;
}
static std::vector<char32_t> const& marks() // every mark with a combining class
{
    static auto const v = [] {
        std::vector<char32_t> r;
        for (uint32_t c = 0; c < ref::MaxCp; ++c)
            if (ref::ccc(c))
                r.push_back(c);
        return r;
    }();
    return v;
}
static std::vector<char32_t> const& markPerClass()
{
    static auto const v = [] {
        std::map<unsigned, char32_t> m;
        for (auto c: marks())
            m.emplace(ref::ccc(c), c);
        std::vector<char32_t> r;
        for (auto const& [k, c]: m)
            r.push_back(c);
        return r;
    }();
    return v;
}
static U32 normText(Case& c, size_t pieces)
{
    auto const& p = pool();
    if (c.chance(1, 4))
        return text(c, p, 40);
    U32 s;
    for (auto k = 1 + c.draw(pieces); k > 0; --k)
        switch (c.draw(9))
        {
            case 0:
            case 1: {
                auto const& pr = c.pick(pairs());
                s += static_cast<char32_t>(pr.first);
                for (auto j = c.draw(3); j > 0; --j)
                    s += c.pick(marks());
                s += static_cast<char32_t>(pr.second);
                break;
            }
            case 2:
                for (auto j = 1 + c.draw(6); j > 0; --j)
                    s += c.pick(marks());
                break;
            case 3: {
                s += static_cast<char32_t>(c.range(0x10FE, 0x1114));
                s += static_cast<char32_t>(c.range(0x115F, 0x1177));
                if (c.chance(1, 2))
                    s += static_cast<char32_t>(c.range(0x11A6, 0x11C4));
                break;
            }
            case 4: {
                s += static_cast<char32_t>(c.chance(1, 2) ? 0xAC00 + 28 * c.draw(399) : c.range(0xABFE, 0xD7A5));
                if (c.chance(2, 3))
                    s += static_cast<char32_t>(c.range(0x11A6, 0x11C4));
                break;
            }
            default: s += p.draw(c);
        }
    stretch(c, s);
    return s;
}
static bool scalars(U32V s)
{
    for (auto x: s)
        if (isSurrogate(x))
            return false;
    return true;
}
static bool nontrivialText(U32V s)
{
    return s.size() > 1 && ref::norm(s, 1) != s;
}
// }}}

// {{{ P15
static void sameNorm(Case& c, U32V s, int f)
{
    Exact<char32_t> copy(s);
    auto const want = ref::norm(s, f);
    auto const got = unicode::normalize(copy.view(), Forms[f]);
    if (got != want)
        c.fail(std::string(FormName[f]) + " of " + hexStr(s) + " is " + hexStr(got) + ", UAX #15 says " + hexStr(want));
}
static U32 convenience(U32V s, int f)
{
    switch (f)
    {
        case 0: return unicode::to_nfc(s);
        case 1: return unicode::to_nfd(s);
        case 2: return unicode::to_nfkc(s);
        default: return unicode::to_nfkd(s);
    }
}
static std::string convenience(std::string_view s, int f)
{
    switch (f)
    {
        case 0: return unicode::to_nfc(s);
        case 1: return unicode::to_nfd(s);
        case 2: return unicode::to_nfkc(s);
        default: return unicode::to_nfkd(s);
    }
}
static void p15Texts(Case& c)
{
    auto const s = normText(c, 7);
    c.show("text " + hexStr(s));
    if (nontrivialText(s))
        c.nontrivial(hashOf(s));
    for (int f = 0; f < 4; ++f)
    {
        sameNorm(c, s, f);
        auto const want = ref::norm(s, f);
        if (convenience(U32V(s), f) != want)
            c.fail(std::string("to_") + FormName[f] + " of " + hexStr(s) + " is " + hexStr(convenience(U32V(s), f)) + " instead of " + hexStr(want));
        if (scalars(s))
        {
            auto const u8 = ref::utf8(s);
            Exact<char> copy { std::string_view(u8) };
            auto const want8 = ref::utf8(want);
            if (auto const got = unicode::normalize(copy.view(), Forms[f]); got != want8)
                c.fail(std::string("UTF-8 ") + FormName[f] + " of " + hexStr(s) + " is " + hexBytes(got) + " instead of " + hexBytes(want8));
            if (convenience(copy.view(), f) != want8)
                c.fail(std::string("UTF-8 to_") + FormName[f] + " of " + hexStr(s) + " differs from " + hexBytes(want8));
        }
    }
}
constexpr uint64_t Chunk = 0x200;
static void p15Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    uint64_t n = 0;
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
        for (int f = 0; f < 4; ++f)
        {
            sameNorm(c, U32(1, cp), f);
            sameNorm(c, U32 { U'a', 0x323, cp, 0x301 }, f);
            n += 2;
        }
    c.evals(n);
    c.nontrivial(k);
}
// every pair with a canonical composition (or excluded from it), with one mark of every class between,
// before and behind
static void p15Pairs(Case& c)
{
    auto const k = c.index(pairs().size());
    auto const a = static_cast<char32_t>(pairs()[k].first), b = static_cast<char32_t>(pairs()[k].second);
    uint64_t n = 0;
    auto all = [&](U32V s) {
        for (int f = 0; f < 4; ++f, ++n)
            sameNorm(c, s, f);
    };
    all(U32 { a, b });
    all(U32 { b, a });
    all(U32 { b, a, b });
    all(U32 { a, b, b });
    all(U32 { a, a, b });
    all(U32 { a, U'x', b });
    for (auto m: markPerClass())
    {
        all(U32 { a, m, b });
        all(U32 { a, b, m });
        all(U32 { m, a, b });
        all(U32 { a, m, m, b });
    }
    auto const m1 = c.pick(marks()), m2 = c.pick(marks());
    all(U32 { a, m1, m2, b });
    all(U32 { a, m1, b, m2 });
    c.evals(n);
    c.nontrivial(k);
}
static void p15Hangul(Case& c) // every L/LV around the limits with every V/T around the limits
{
    auto const k = c.index(0x1118 - 0x10FA);
    auto const l = static_cast<char32_t>(0x10FA + k);
    uint64_t n = 0;
    for (char32_t v = 0x1158; v <= 0x117C; ++v)
        for (char32_t t = 0x11A2; t <= 0x11C8; ++t)
        {
            for (int f: { 0, 2 })
            {
                sameNorm(c, U32 { l, v, t }, f);
                ++n;
            }
            if (ref::composePair(l, v))
            {
                auto const lv = static_cast<char32_t>(*ref::composePair(l, v));
                sameNorm(c, U32 { lv, t }, 0);
                sameNorm(c, U32 { lv, t, t }, 0);
                sameNorm(c, U32 { lv, t }, 1);
                if (auto const lvt = ref::composePair(lv, t))
                    sameNorm(c, U32 { static_cast<char32_t>(*lvt), t }, 0), sameNorm(c, U32 { static_cast<char32_t>(*lvt), v }, 2);
                n += 5;
            }
        }
    c.evals(n);
    c.nontrivial(k);
}
static uint64_t nTuples(unsigned n)
{
    uint64_t r = 1;
    while (n--)
        r *= pool().groups.size();
    return r;
}
template <size_t N>
static void p15Tuples(Case& c)
{
    auto const& g = pool().groups;
    auto k = c.index(nTuples(N));
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    for (int f = 0; f < 4; ++f)
        sameNorm(c, s, f);
}
// }}}

// {{{ P16
static void p16Laws(Case& c)
{
    auto const s = normText(c, 6);
    c.show("text " + hexStr(s));
    if (nontrivialText(s))
        c.nontrivial(hashOf(s));
    U32 n[4];
    for (int f = 0; f < 4; ++f)
        n[f] = unicode::normalize(U32V(s), Forms[f]);
    auto law = [&](int via, int to, U32 const& want, char const* what) {
        auto const got = unicode::normalize(U32V(n[via]), Forms[to]);
        if (got != want)
            c.fail(std::string(what) + ": " + FormName[to] + " of " + FormName[via] + " of " + hexStr(s) + " is " + hexStr(got) + " instead of " + hexStr(want));
    };
    for (int f = 0; f < 4; ++f)
        law(f, f, n[f], "not idempotent");
    law(0, 1, n[1], "through NFC");
    law(1, 0, n[0], "through NFD");
    law(0, 2, n[2], "through NFC");
    law(1, 2, n[2], "through NFD");
    law(0, 3, n[3], "through NFC");
    law(1, 3, n[3], "through NFD");
    law(2, 3, n[3], "through NFKC");
    law(3, 2, n[2], "through NFKD");
    law(2, 0, n[2], "NFKC text is NFC text");
    law(3, 1, n[3], "NFKD text is NFD text");
    for (int f: { 0, 1 })
        if (!unicode::is_canonically_equivalent(U32V(s), U32V(n[f])) || !unicode::is_canonically_equivalent(U32V(n[f]), U32V(s)))
            c.fail(hexStr(s) + " is not canonically equivalent to its " + FormName[f] + " " + hexStr(n[f]));
    for (int f = 0; f < 4; ++f)
        if (!unicode::is_compatibility_equivalent(U32V(s), U32V(n[f])) || !unicode::is_compatibility_equivalent(U32V(n[f]), U32V(s)))
            c.fail(hexStr(s) + " is not compatibility equivalent to its " + FormName[f] + " " + hexStr(n[f]));
}
// A text and one made from it by rewriting that may or may not preserve equivalence.
static U32 variantOf(Case& c, U32V s)
{
    U32 r;
    for (auto ch: s)
    {
        switch (c.draw(6))
        {
            case 0: {
                U32 d;
                ref::decompose(ch, false, d);
                r += d;
                break;
            }
            case 1:
                if (c.chance(1, 3))
                {
                    ref::decompose(ch, true, r);
                    break;
                }
                [[fallthrough]];
            default: r += ch;
        }
    }
    if (r.size() > 1)
        for (auto k = c.draw(3); k > 0; --k) // swap neighbours
        {
            auto const i = c.draw(r.size() - 1);
            if (ref::ccc(r[i]) && ref::ccc(r[i + 1]) && (c.chance(1, 3) || ref::ccc(r[i]) != ref::ccc(r[i + 1])))
                std::swap(r[i], r[i + 1]);
        }
    if (c.chance(1, 5) && !r.empty())
        r[c.draw(r.size())] = pool().draw(c);
    if (c.chance(1, 8))
        r = ref::norm(r, static_cast<int>(c.draw(4)));
    return r;
}
static void p16Equivalence(Case& c)
{
    auto const a = normText(c, 4);
    auto const b = variantOf(c, a);
    auto const d = variantOf(c, b);
    c.show("texts " + hexStr(a) + " " + hexStr(b) + " " + hexStr(d));
    auto eq = [&](U32V x, U32V y, bool compat) {
        auto const want = ref::nfd(x, compat) == ref::nfd(y, compat);
        Exact<char32_t> ex(x), ey(y);
        auto const got = compat ? unicode::is_compatibility_equivalent(ex.view(), ey.view()) : unicode::is_canonically_equivalent(ex.view(), ey.view());
        if (got != want)
            c.fail(std::string(compat ? "compatibility" : "canonical") + " equivalence of " + hexStr(x) + " and " + hexStr(y) + " is " + (got ? "true" : "false"));
        if (scalars(x) && scalars(y))
        {
            auto const x8 = ref::utf8(x), y8 = ref::utf8(y);
            auto const g8 = compat ? unicode::is_compatibility_equivalent(std::string_view(x8), std::string_view(y8)) : unicode::is_canonically_equivalent(std::string_view(x8), std::string_view(y8));
            if (g8 != want)
                c.fail(std::string(compat ? "compatibility" : "canonical") + " equivalence of the UTF-8 texts " + hexStr(x) + " and " + hexStr(y) + " is " + (g8 ? "true" : "false"));
        }
        return got;
    };
    for (bool compat: { false, true })
    {
        auto const ab = eq(a, b, compat), bd = eq(b, d, compat), ad = eq(a, d, compat);
        if (!eq(a, a, compat) || eq(b, a, compat) != ab || (ab && bd && !ad))
            c.fail("not an equivalence relation on " + hexStr(a) + " " + hexStr(b) + " " + hexStr(d));
        c.label(std::string(compat ? "compatibility-" : "canonical-") + (ab ? "equivalent" : "different"));
        if (a != b && ab)
            c.nontrivial(hashOf(a) * 31 + hashOf(b));
    }
    if (unicode::is_canonically_equivalent(U32V(a), U32V(b)) && !unicode::is_compatibility_equivalent(U32V(a), U32V(b)))
        c.fail("canonically but not compatibility equivalent: " + hexStr(a) + " " + hexStr(b));
}
// }}}

// {{{ P17
static char const* qcName(unicode::Quick_Check_Result q)
{
    return q == unicode::Quick_Check_Result::Yes ? "Yes" : q == unicode::Quick_Check_Result::No ? "No" : "Maybe";
}
static void checkQuick(Case& c, U32V s)
{
    using Q = unicode::Quick_Check_Result;
    for (int f = 0; f < 4; ++f)
    {
        Exact<char32_t> copy(s);
        bool const truth = ref::norm(s, f) == s;
        auto const q = unicode::quick_check(copy.view(), Forms[f]);
        if ((q == Q::Yes && !truth) || (q == Q::No && truth) || (q == Q::Maybe && f % 2 == 1))
            c.fail(std::string(FormName[f]) + " quick check of " + hexStr(s) + " is " + qcName(q) + ", but it is " + (truth ? "" : "not ") + "normalized");
        auto const conv = f == 0 ? unicode::is_nfc(copy.view()) : f == 1 ? unicode::is_nfd(copy.view()) : f == 2 ? unicode::is_nfkc(copy.view()) : unicode::is_nfkd(copy.view());
        auto const is = unicode::is_normalized(copy.view(), Forms[f]);
        if (is != truth || conv != truth)
            c.fail(std::string("is_normalized ") + FormName[f] + " of " + hexStr(s) + " is " + (is ? "true" : "false") + ", is_" + FormName[f] + " " + (conv ? "true" : "false"));
        if (is != (unicode::normalize(copy.view(), Forms[f]) == s))
            c.fail(std::string("is_normalized ") + FormName[f] + " of " + hexStr(s) + " contradicts normalize()");
        c.label(std::string(FormName[f]) + "-" + qcName(q) + (truth ? "-normalized" : "-not"));
        if (scalars(s))
        {
            auto const u8 = ref::utf8(s);
            Exact<char> e8 { std::string_view(u8) };
            auto const c8 = f == 0 ? unicode::is_nfc(e8.view()) : f == 1 ? unicode::is_nfd(e8.view()) : f == 2 ? unicode::is_nfkc(e8.view()) : unicode::is_nfkd(e8.view());
            if (unicode::quick_check(e8.view(), Forms[f]) != q || unicode::is_normalized(e8.view(), Forms[f]) != is || c8 != is)
                c.fail(std::string(FormName[f]) + " check of the UTF-8 text " + hexStr(s) + " differs from that of the UTF-32 text");
        }
    }
}
static void p17Texts(Case& c)
{
    auto s = normText(c, 5);
    if (c.chance(2, 3)) // normalized, or nearly
    {
        s = ref::norm(s, static_cast<int>(c.draw(4)));
        if (c.chance(1, 3) && !s.empty())
            s.insert(c.draw(s.size() + 1), 1, c.chance(1, 2) ? c.pick(marks()) : pool().draw(c));
        if (c.chance(1, 4) && s.size() > 1)
        {
            auto const i = c.draw(s.size() - 1);
            std::swap(s[i], s[i + 1]);
        }
    }
    c.show("text " + hexStr(s));
    if (s.size() > 1 && (nontrivialText(s) || ref::norm(s, 0) != s || std::any_of(s.begin(), s.end(), [](char32_t x) { return ref::ccc(x) != 0; })))
        c.nontrivial(hashOf(s));
    checkQuick(c, s);
}
static void p17Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        auto const& qc = ref::normProps().qc;
        auto letter3 = [](auto v) {
            using T = decltype(v);
            return v == T::Yes ? 'Y' : v == T::No ? 'N' : 'M';
        };
        char const got[4] = { letter3(unicode::nfc_quick_check(cp)), unicode::nfd_quick_check(cp) ? 'Y' : 'N', letter3(unicode::nfkc_quick_check(cp)), unicode::nfkd_quick_check(cp) ? 'Y' : 'N' };
        for (size_t f = 0; f < 4; ++f)
            if (got[f] != qc[f][cp])
                c.fail(std::string(FormName[f]) + " quick check value of " + hexStr(U32(1, cp)) + " is " + got[f] + ", DerivedNormalizationProps says " + qc[f][cp]);
        checkQuick(c, U32(1, cp));
        checkQuick(c, U32 { U'a', 0x323, cp });
    }
    c.evals(Chunk * 12);
    c.nontrivial(k);
}
// }}}

// {{{ P18
static U32 stream(Case& c, unicode::normalizer& n, U32V s)
{
    U32 out;
    size_t lag = 0;
    for (auto cp: s)
    {
        auto const v = n.feed(cp);
        out.append(v);
        lag = std::max(lag, v.size());
    }
    out.append(n.flush());
    (void) c;
    return out;
}
static void p18Codepoints(Case& c)
{
    auto const f = static_cast<int>(c.draw(4));
    auto const a = normText(c, 6), b = normText(c, 4), junk = normText(c, 2);
    c.show(std::string(FormName[f]) + " stream " + hexStr(a) + " then " + hexStr(b));
    if (nontrivialText(a))
        c.nontrivial(hashOf(a) * 4 + static_cast<unsigned>(f));
    unicode::normalizer n(Forms[f]);
    auto check = [&](U32V s, char const* when) {
        auto const got = stream(c, n, s), want = ref::norm(s, f);
        if (got != want)
            c.fail(std::string("streaming ") + FormName[f] + " of " + hexStr(s) + when + " gives " + hexStr(got) + ", the whole text normalizes to " + hexStr(want));
        if (got != unicode::normalize(s, Forms[f]))
            c.fail(std::string("streaming ") + FormName[f] + " of " + hexStr(s) + when + " differs from normalize()");
    };
    check(a, "");
    if (!n.flush().empty())
        c.fail("a second flush gives more output after " + hexStr(a));
    check(b, " after flush()");
    for (auto cp: junk)
        (void) n.feed(cp);
    n.reset();
    if (!n.flush().empty())
        c.fail("flush after reset gives output");
    for (auto cp: junk)
        (void) n.feed(cp);
    n.reset();
    check(a, " after reset()");
    // intermediate output is final: it is a prefix of the result
    U32 out;
    auto const want = ref::norm(a, f);
    for (auto cp: a)
    {
        out.append(n.feed(cp));
        if (want.compare(0, out.size(), out) != 0)
            c.fail(std::string("streaming ") + FormName[f] + " of " + hexStr(a) + " emitted " + hexStr(out) + ", no prefix of " + hexStr(want));
    }
}
// what ill-formed bytes have to become: one U+FFFD for each ill-formed part
static U32 decoded(std::string_view s)
{
    U32 r;
    for (auto const& u: ref::units(s))
        r += u.ok ? static_cast<char32_t>(u.value) : U'\uFFFD';
    return r;
}
static void p18Bytes(Case& c)
{
    auto const f = static_cast<int>(c.draw(4));
    auto gen1 = [&](size_t pieces) {
        std::string s;
        for (auto ch: normText(c, pieces))
        {
            if (isSurrogate(ch))
                ch = U'a';
            ref::encodeUtf8(ch, s);
            if (c.chance(1, 12))
                illFormed(c, s);
        }
        // sequences that decode to something no encoder produces are not part of the property
        std::string t;
        for (auto const& u: ref::units(s))
            if (!u.ok || (u.value < ref::MaxCp && !isSurrogate(u.value) && ref::utf8(U32(1, static_cast<char32_t>(u.value))).size() == u.end - u.begin))
                t += s.substr(u.begin, u.end - u.begin);
        for (auto const& u: ref::units(t))
            if (u.ok && (u.value >= ref::MaxCp || isSurrogate(u.value) || ref::utf8(U32(1, static_cast<char32_t>(u.value))).size() != u.end - u.begin))
                return std::string("x");
        return t;
    };
    auto const a = gen1(5), b = gen1(3);
    c.show(std::string(FormName[f]) + " bytes " + hexBytes(a) + " then " + hexBytes(b));
    bool ill = false;
    for (auto const& u: ref::units(a))
        ill = ill || !u.ok;
    if (ill)
        c.label("with-ill-formed");
    if (a.size() > 2)
        c.nontrivial(hashOf(a) * 4 + static_cast<unsigned>(f));
    unicode::utf8_normalizer n(Forms[f]);
    auto run = [&](std::string const& s) {
        std::string out;
        size_t i = 0;
        while (i < s.size())
        {
            auto const k = c.chance(1, 3) ? 1 : 1 + c.draw(s.size() - i);
            Exact<char> chunk { std::string_view(s).substr(i, k) };
            out += n.feed(chunk.view());
            i += k;
            if (c.chance(1, 10))
                out += n.feed(std::string_view());
        }
        out += n.flush();
        return out;
    };
    auto check = [&](std::string const& s, char const* when) {
        auto const got = run(s);
        auto const want = ref::utf8(ref::norm(decoded(s), f));
        if (got != want)
            c.fail(std::string("streaming UTF-8 ") + FormName[f] + " of " + hexBytes(s) + when + " gives " + hexBytes(got) + ", expected " + hexBytes(want));
    };
    check(a, "");
    check(b, " after flush()");
    (void) n.feed(a);
    n.reset();
    check(b, " after reset()");
}
template <size_t N>
static void p18Tuples(Case& c)
{
    auto const& g = pool().groups;
    auto k = c.index(nTuples(N));
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    for (int f = 0; f < 4; ++f)
    {
        unicode::normalizer n(Forms[f]);
        auto const got = stream(c, n, s), want = ref::norm(s, f);
        if (got != want)
            c.fail(std::string("streaming ") + FormName[f] + " of " + hexStr(s) + " gives " + hexStr(got) + ", the whole text normalizes to " + hexStr(want));
    }
}
static void p18Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    unicode::normalizer n[4] = { unicode::normalizer(Forms[0]), unicode::normalizer(Forms[1]), unicode::normalizer(Forms[2]), unicode::normalizer(Forms[3]) };
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
        for (int f = 0; f < 4; ++f)
            for (auto const& s: { U32 { U'a', 0x345, cp, 0x301 }, U32 { 0x915, 0x301, cp } })
            {
                auto const got = stream(c, n[f], s), want = ref::norm(s, f);
                if (got != want)
                    c.fail(std::string("streaming ") + FormName[f] + " of " + hexStr(s) + " gives " + hexStr(got) + ", the whole text normalizes to " + hexStr(want));
            }
    c.evals(Chunk * 8);
    c.nontrivial(k);
}
// }}}

// {{{ P19
static std::string decompTag(uint32_t cp)
{
    auto const& d = ref::unicodeData().decomp;
    if (isHangulSyl(cp))
        return "canonical";
    auto const i = d.find(cp);
    if (i == d.end())
        return "none";
    return i->second.first.empty() ? "canonical" : i->second.first;
}
static std::string typeTag(unicode::Decomposition_Type t)
{
    using D = unicode::Decomposition_Type;
    switch (t)
    {
        case D::None: return "none";
        case D::Canonical: return "canonical";
        case D::Compat: return "<compat>";
        case D::Circle: return "<circle>";
        case D::Final: return "<final>";
        case D::Font: return "<font>";
        case D::Fraction: return "<fraction>";
        case D::Initial: return "<initial>";
        case D::Isolated: return "<isolated>";
        case D::Medial: return "<medial>";
        case D::Narrow: return "<narrow>";
        case D::Nobreak: return "<noBreak>";
        case D::Small: return "<small>";
        case D::Square: return "<square>";
        case D::Sub: return "<sub>";
        case D::Super: return "<super>";
        case D::Vertical: return "<vertical>";
        case D::Wide: return "<wide>";
    }
    return "?";
}
static std::string strip(std::string s)
{
    if (!s.empty() && s.front() == '<')
        s = s.substr(1, s.size() - 2);
    return s;
}
static void p19Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        auto const where = hexStr(U32(1, cp));
        if (unicode::canonical_combining_class(cp) != ref::ccc(cp))
            c.fail("combining class of " + where + " is " + std::to_string(unicode::canonical_combining_class(cp)) + ", the UCD says " + std::to_string(ref::ccc(cp)));
        // one-level mappings, algorithmic for Hangul
        U32 canon, compat;
        auto const& d = ref::unicodeData().decomp;
        if (isHangulSyl(cp))
        {
            ref::decompose(cp, false, canon);
            compat = canon;
        }
        else if (auto const i = d.find(cp); i != d.end())
        {
            compat.assign(i->second.second.begin(), i->second.second.end());
            if (i->second.first.empty())
                canon = compat;
        }
        auto const gotC = unicode::canonical_decomposition(cp), gotK = unicode::compatibility_decomposition(cp);
        if (U32(gotC.begin(), gotC.end()) != canon)
            c.fail("canonical decomposition of " + where + " is " + hexStr(U32(gotC.begin(), gotC.end())) + ", the UCD says " + hexStr(canon));
        if (U32(gotK.begin(), gotK.end()) != compat)
            c.fail("compatibility decomposition of " + where + " is " + hexStr(U32(gotK.begin(), gotK.end())) + ", the UCD says " + hexStr(compat));
        if (strip(typeTag(unicode::decomposition_type(cp))) != strip(decompTag(cp)))
            c.fail("decomposition type of " + where + " is " + typeTag(unicode::decomposition_type(cp)) + ", the UCD says " + decompTag(cp));
        if (unicode::is_composition_exclusion(cp) != ref::compositionExclusions()[cp] || unicode::is_full_composition_exclusion(cp) != ref::normProps().fullExcl[cp])
            c.fail("composition exclusion of " + where + " is " + std::to_string(unicode::is_composition_exclusion(cp)) + "/" + std::to_string(unicode::is_full_composition_exclusion(cp)));
        // Hangul
        auto in = [&](char32_t lo, char32_t hi) { return cp >= lo && cp <= hi; };
        if (unicode::is_hangul_syllable(cp) != in(0xAC00, 0xD7A3) || unicode::is_hangul_l_jamo(cp) != in(0x1100, 0x1112) || unicode::is_hangul_v_jamo(cp) != in(0x1161, 0x1175)
            || unicode::is_hangul_t_jamo(cp) != in(0x11A8, 0x11C2))
            c.fail("Hangul classification of " + where);
        char32_t out[4] = { 0xEEEE, 0xEEEE, 0xEEEE, 0xEEEE };
        auto const n = unicode::hangul_decompose(cp, out);
        U32 want;
        if (isHangulSyl(cp))
            ref::decompose(cp, false, want);
        if (U32(out, n) != want || out[n] != 0xEEEE)
            c.fail("hangul_decompose of " + where + " writes " + hexStr(U32(out, 4)) + " and returns " + std::to_string(n));
        if (isHangulSyl(cp) && unicode::hangul_compose(out[0], out[1], n == 3 ? out[2] : 0) != cp)
            c.fail("the jamo of " + where + " compose to something else");
    }
    c.evals(Chunk);
    c.nontrivial(k);
}
static void p19Compose(Case& c)
{
    auto jamo = [&](char32_t lo, char32_t hi) -> char32_t {
        switch (c.draw(6))
        {
            case 0: return static_cast<char32_t>(c.range(0x1100, 0x11FF));
            case 1: return pool().draw(c);
            case 2: return c.chance(1, 2) ? 0 : static_cast<char32_t>(c.draw(0x100000000ull));
            default: return static_cast<char32_t>(c.range(lo - 3, hi + 3));
        }
    };
    auto const l = jamo(0x1100, 0x1112), v = jamo(0x1161, 0x1175);
    auto const t = c.chance(1, 4) ? char32_t {} : jamo(0x11A8, 0x11C2);
    c.show("hangul_compose of " + hexStr(U32 { l, v, t }));
    char32_t want = 0;
    if (l >= 0x1100 && l <= 0x1112 && v >= 0x1161 && v <= 0x1175 && (t == 0 || (t >= 0x11A8 && t <= 0x11C2)))
        want = 0xAC00 + ((l - 0x1100) * 21 + (v - 0x1161)) * 28 + (t ? t - 0x11A7 : 0);
    auto const got = unicode::hangul_compose(l, v, t);
    if (want)
        c.nontrivial(want);
    if (got != want)
        c.fail("hangul_compose of " + hexStr(U32 { l, v, t }) + " is " + hexStr(U32(1, got)) + " instead of " + hexStr(U32(1, want)));
}
// }}}

PROPERTY({ "P15",
           "a text is non-trivial if it has two or more characters and its NFD differs from it; exhaustive arms count codepoint blocks, composition pairs or class tuples",
           {
               { "texts", 120000, 3000000, p15Texts },
               { "long", 1200, 40000, longArm(p15Texts, 2500, 6000) },
               { "composition-pairs", pairs().size(), pairs().size(), p15Pairs, true },
               { "hangul", 0x1118 - 0x10FA, 0x1118 - 0x10FA, p15Hangul, true },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p15Every, true },
               { "class-tuples-2", nTuples(2), nTuples(2), p15Tuples<2>, true },
               { "class-tuples-3", nTuples(3), nTuples(3), p15Tuples<3>, true },
           },
           {},
           {},
           {} });
PROPERTY({ "P16",
           "a text is non-trivial if it has two or more characters and its NFD differs from it; a pair if its two texts differ and are equivalent",
           {
               { "laws", 80000, 2000000, p16Laws },
               { "long", 600, 20000, longArm(p16Laws, 2500, 6000) },
               { "long-equivalence", 600, 20000, longArm(p16Equivalence, 2500, 6000) },
               { "equivalence", 120000, 3000000, p16Equivalence },
           },
           {},
           {},
           {} });
PROPERTY({ "P17",
           "a text is non-trivial if it has two or more characters and contains a combining mark or is not in some form",
           {
               { "texts", 120000, 3000000, p17Texts },
               { "long", 1200, 40000, longArm(p17Texts, 2500, 6000) },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p17Every, true },
           },
           {},
           {},
           {} });
PROPERTY({ "P18",
           "a stream is non-trivial if it has two or more characters and its NFD differs from it (codepoints) or three or more bytes (bytes)",
           {
               { "codepoints", 120000, 3000000, p18Codepoints },
               { "bytes", 120000, 3000000, p18Bytes },
               { "long", 1000, 30000, longArm(p18Codepoints, 2500, 6000) },
               { "long-bytes", 1000, 30000, longArm(p18Bytes, 2500, 6000) },
               { "class-tuples-2", nTuples(2), nTuples(2), p18Tuples<2>, true },
               { "class-tuples-3", nTuples(3), nTuples(3), p18Tuples<3>, true },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p18Every, true },
           },
           {},
           {},
           {} });
PROPERTY({ "P19",
           "a case is non-trivial if it checks a block of codepoints, or composes a syllable",
           {
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p19Every, true },
               { "hangul-compose", 150000, 3000000, p19Compose },
           },
           {},
           {},
           {} });
