// P20 case mapping, P21 caseless comparison.
#include "gen.h"

#include <libunicode/case_mapping.h>

using namespace pbt;
using namespace gen;

static constexpr uint64_t Chunk = 256;
using V = std::vector<uint32_t>;

// {{{ characters
static Pool const& pool()
{
    static Pool const p = Pool::by(
        [](uint32_t c) {
            auto const u = ref::fullUpper(c), l = ref::fullLower(c), t = ref::fullTitle(c), f = ref::fullFold(c);
            unsigned key = ref::isCased(c) + 2u * ref::isCaseIgnorable(c);
            auto kind = [&](V const& v, uint32_t simple) { return v.size() > 1 ? 2u + (simple != c) : v[0] != c; };
            key = key * 4 + kind(u, ref::simpleUpper(c));
            key = key * 4 + kind(l, ref::simpleLower(c));
            key = key * 4 + kind(t, ref::simpleTitle(c));
            key = key * 4 + kind(f, ref::simpleFold(c));
            key = key * 2 + (t != u);
            key = key * 2 + (f != l);
            key = key * 20 + static_cast<unsigned>(ref::W_(c));
            return key;
        },
        { 'a', 'A', ' ', '\'', '.', 'z', '0', 0xDF, 0x130, 0x131, 0x1C5, 0x1C4, 0x1C6, 0x3A3, 0x3C2, 0x3C3, 0xFB03, 0x149, 0x1F80, 0x1F88, 0x1FB3, 0x1E9E, 0x13A0, 0xAB70, 0x10D0, 0x1C90, 0x345,
          0x301, 0x2019, 0xAD, 0x10400, 0x118A0, 0x24D0, 0x2160, 0x17F, 0x212A, 0x587, 0x390, 0x3B0, '_', 0x3042, 0x5D0, '"' });
    return p;
}
static std::vector<U32> const& foldClasses() // strings of characters with equal full folding
{
    static auto const v = [] {
        std::map<U32, U32> m;
        for (uint32_t c = 0; c < ref::MaxCp; ++c)
        {
            auto const f = ref::fullFold(c);
            if (f.size() > 1 || f[0] != c)
            {
                U32 k;
                for (auto x: f)
                    k += static_cast<char32_t>(x);
                if (m[k].empty() && k.size() == 1)
                    m[k] += k;
                m[k] += static_cast<char32_t>(c);
            }
        }
        std::vector<U32> r;
        for (auto& [k, s]: m)
            r.push_back(s);
        return r;
    }();
    return v;
}
static std::map<char32_t, size_t> const& classOf()
{
    static auto const m = [] {
        std::map<char32_t, size_t> r;
        for (size_t i = 0; i < foldClasses().size(); ++i)
            for (auto x: foldClasses()[i])
                r[x] = i;
        return r;
    }();
    return m;
}
static U32 caseText(Case& c, size_t n)
{
    if (c.chance(1, 2))
        return text(c, pool(), n);
    U32 s; // words
    for (auto k = 1 + c.draw(5); k > 0; --k)
    {
        for (auto j = 1 + c.draw(6); j > 0; --j)
            s += c.chance(2, 3) ? c.pick(c.pick(foldClasses())) : pool().draw(c);
        static const char32_t seps[] = { ' ', '\'', '.', '-', ':', 0x2019, 0x301, '_', '7', 0xA, 0xAD, '"' };
        s += seps[c.draw(sizeof seps / sizeof *seps)];
    }
    stretch(c, s);
    return s;
}
static U32 scalarsOnly(U32 s)
{
    std::erase_if(s, [](char32_t x) { return isSurrogate(x); });
    return s;
}
static std::string show(V const& v) { return hexStr(U32(v.begin(), v.end())); }
// }}}

// {{{ P20
static void p20Every(Case& c)
{
    auto const b = static_cast<uint32_t>(c.index(ref::MaxCp / Chunk) * Chunk);
    c.show("codepoints from " + hexStr(U32(1, static_cast<char32_t>(b))));
    c.nontrivial(b);
    c.evals(Chunk * 8);
    for (char32_t cp = b; cp < b + Chunk; ++cp)
    {
        auto const where = hexStr(U32(1, cp));
        auto one = [&](char const* what, char32_t got, uint32_t want) {
            if (got != want)
                c.fail(std::string(what) + " of " + where + " is " + hexStr(U32(1, got)) + ", the UCD says " + show({ want }));
        };
        auto full = [&](char const* what, unicode::case_mapping_result const& got, V const& want) {
            V g;
            for (auto x: got.view())
                g.push_back(x);
            V const w = want.size() == 1 && want[0] == cp ? V {} : want;
            if (g != w || got.is_identity() != w.empty() || got.length != w.size())
                c.fail(std::string(what) + " of " + where + " is " + show(g) + ", the UCD says " + show(w) + " (<>: itself)");
        };
        one("simple_uppercase", unicode::simple_uppercase(cp), ref::simpleUpper(cp));
        one("simple_lowercase", unicode::simple_lowercase(cp), ref::simpleLower(cp));
        one("simple_titlecase", unicode::simple_titlecase(cp), ref::simpleTitle(cp));
        one("simple_casefold", unicode::simple_casefold(cp), ref::simpleFold(cp));
        full("full_uppercase", unicode::full_uppercase(cp), ref::fullUpper(cp));
        full("full_lowercase", unicode::full_lowercase(cp), ref::fullLower(cp));
        full("full_titlecase", unicode::full_titlecase(cp), ref::fullTitle(cp));
        full("full_casefold", unicode::full_casefold(cp), ref::fullFold(cp));
    }
}
static void checkStrings(Case& c, U32 const& s)
{
    Exact<char32_t> e { U32V(s) };
    auto eq = [&](char const* what, U32 const& got, U32 const& want) {
        if (got != want)
            c.fail(std::string(what) + " of " + hexStr(s) + " is " + hexStr(got) + ", expected " + hexStr(want));
    };
    U32 const u = ref::upper(s), l = ref::lower(s), t = ref::title(s), f = ref::fold(s);
    eq("to_uppercase", unicode::to_uppercase(e.view()), u);
    eq("to_lowercase", unicode::to_lowercase(e.view()), l);
    eq("to_titlecase", unicode::to_titlecase(e.view()), t);
    eq("casefold", unicode::casefold(e.view()), f);
    if (scalarsOnly(s) != s)
        return;
    auto const b = ref::utf8(s);
    Exact<char> x { std::string_view(b) };
    auto eq8 = [&](char const* what, std::string const& got, U32 const& want) {
        if (got != ref::utf8(want))
            c.fail(std::string(what) + " of UTF-8 " + hexStr(s) + " is " + hexBytes(got) + ", expected " + hexStr(want));
    };
    eq8("to_uppercase", unicode::to_uppercase(x.view()), u);
    eq8("to_lowercase", unicode::to_lowercase(x.view()), l);
    eq8("to_titlecase", unicode::to_titlecase(x.view()), t);
    eq8("casefold", unicode::casefold(x.view()), f);
}
static void p20Strings(Case& c)
{
    auto const s = caseText(c, 40);
    c.show("text " + hexStr(s));
    U32 const t = ref::title(s);
    if (s.size() > 1 && (t != s || ref::upper(s) != s))
        c.nontrivial(hashOf(s));
    if (t.size() != s.size())
        c.label("titlecase-changes-length");
    if (t == s)
        c.label("already-titlecase");
    checkStrings(c, s);
}
template <size_t N>
static uint64_t nTuples()
{
    uint64_t n = 1;
    for (size_t i = 0; i < N; ++i)
        n *= pool().groups.size();
    return n;
}
template <size_t N>
static void p20Tuples(Case& c)
{
    auto const& g = pool().groups;
    auto k = c.index(nTuples<N>());
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    checkStrings(c, s);
}
// }}}

// {{{ P21
static int sign(int x) { return (x > 0) - (x < 0); }
template <typename S>
static int refCompare(S const& a, S const& b) // codepoint / byte order of the foldings, a prefix comes first
{
    using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<typename S::value_type, char>, char, uint32_t>>;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i)
        if (a[i] != b[i])
            return static_cast<U>(a[i]) < static_cast<U>(b[i]) ? -1 : 1;
    return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static U32 variantOf(Case& c, U32 const& s) // caseless-equal or slightly different
{
    U32 r;
    auto const kind = c.draw(4);
    for (auto x: s)
    {
        auto const i = classOf().find(x);
        if (kind != 3 && i != classOf().end() && c.chance(1, 2))
            r += c.pick(foldClasses()[i->second]);
        else if (kind == 1 && c.chance(1, 4))
        {
            for (auto y: ref::fullFold(x)) // expanded
                r += static_cast<char32_t>(y);
        }
        else if (kind == 2 && c.chance(1, 12))
            r += pool().draw(c);
        else
            r += x;
    }
    if (kind == 3)
        switch (c.draw(4))
        {
            case 0: r = ref::upper(s); break;
            case 1: r = ref::lower(s); break;
            case 2: r = s + pool().draw(c); break;
            default: r = s.substr(0, s.size() - (s.empty() ? 0 : 1)); break;
        }
    return r;
}
static int checkPair(Case& c, U32 const& a, U32 const& b)
{
    auto const fa = ref::fold(a), fb = ref::fold(b);
    int const want = refCompare(fa, fb);
    auto const got = unicode::casefold_compare(U32V(a), U32V(b));
    auto const where = hexStr(a) + " with " + hexStr(b);
    if (sign(got) != want)
        c.fail("casefold_compare of " + where + " is " + std::to_string(got) + ", the foldings compare " + std::to_string(want));
    if (unicode::casefold_equals(U32V(a), U32V(b)) != (want == 0))
        c.fail("casefold_equals of " + where + " is " + (want ? "true" : "false"));
    if (sign(unicode::casefold_compare(U32V(b), U32V(a))) != -want)
        c.fail("casefold_compare of " + where + " is not antisymmetric");
    if (scalarsOnly(a) == a && scalarsOnly(b) == b)
    {
        auto const ba = ref::utf8(a), bb = ref::utf8(b);
        Exact<char> xa { std::string_view(ba) }, xb { std::string_view(bb) };
        int const want8 = refCompare(ref::utf8(fa), ref::utf8(fb));
        auto const g8 = unicode::casefold_compare(xa.view(), xb.view());
        if (sign(g8) != want8)
            c.fail("casefold_compare of UTF-8 " + where + " is " + std::to_string(g8) + ", the foldings compare " + std::to_string(want8));
        if (unicode::casefold_equals(xa.view(), xb.view()) != (want8 == 0))
            c.fail("casefold_equals of UTF-8 " + where + " is " + (want8 ? "true" : "false"));
    }
    return sign(got);
}
static void p21Compare(Case& c)
{
    auto const a = caseText(c, 20);
    auto const b = c.chance(4, 5) ? variantOf(c, a) : caseText(c, 20);
    auto const d = c.chance(4, 5) ? variantOf(c, b) : caseText(c, 20);
    c.show("texts " + hexStr(a) + " " + hexStr(b) + " " + hexStr(d));
    auto const ab = checkPair(c, a, b), bd = checkPair(c, b, d), ad = checkPair(c, a, d);
    if (a != b && ab == 0 && !a.empty())
    {
        c.label("equal-but-different");
        c.nontrivial(hashOf(b, hashOf(a)));
    }
    else if (ab != 0 && !a.empty() && !b.empty())
        c.nontrivial(hashOf(b, hashOf(a)));
    if (ab <= 0 && bd <= 0 && ad > 0)
        c.fail("casefold_compare is not transitive on " + hexStr(a) + " " + hexStr(b) + " " + hexStr(d));
    if (ab == 0 && bd == 0 && ad != 0)
        c.fail("caseless equality is not transitive on " + hexStr(a) + " " + hexStr(b) + " " + hexStr(d));
    auto const f = unicode::casefold(U32V(a));
    if (unicode::casefold(U32V(f)) != f)
        c.fail("casefold is not idempotent on " + hexStr(a));
    if (!unicode::casefold_equals(U32V(a), U32V(f)) || checkPair(c, a, a) != 0)
        c.fail(hexStr(a) + " does not equal its folding or itself");
}
static void p21Every(Case& c)
{
    auto const b = static_cast<uint32_t>(c.index(ref::MaxCp / Chunk) * Chunk);
    c.show("codepoints from " + hexStr(U32(1, static_cast<char32_t>(b))));
    c.nontrivial(b);
    c.evals(Chunk * 6);
    for (char32_t cp = b; cp < b + Chunk; ++cp)
    {
        auto const where = hexStr(U32(1, cp));
        V const self { cp };
        auto is = [&](char const* what, bool got, bool want) {
            if (got != want)
                c.fail(std::string(what) + " of " + where + " is " + (got ? "true" : "false"));
        };
        is("changes_when_uppercased", unicode::changes_when_uppercased(cp), ref::simpleUpper(cp) != cp || ref::fullUpper(cp) != self);
        is("changes_when_lowercased", unicode::changes_when_lowercased(cp), ref::simpleLower(cp) != cp || ref::fullLower(cp) != self);
        is("changes_when_titlecased", unicode::changes_when_titlecased(cp), ref::simpleTitle(cp) != cp || ref::fullTitle(cp) != self);
        is("changes_when_casefolded", unicode::changes_when_casefolded(cp), ref::simpleFold(cp) != cp || ref::fullFold(cp) != self);
        is("is_cased", unicode::is_cased(cp), ref::isCased(cp));
        is("is_case_ignorable", unicode::is_case_ignorable(cp), ref::isCaseIgnorable(cp));
        auto const s = U32(1, cp);
        auto const f = unicode::casefold(U32V(s));
        if (unicode::casefold(U32V(f)) != f)
            c.fail("casefold is not idempotent on " + where);
        if (f != s)
            checkPair(c, s, f);
    }
}
static void p21Classes(Case& c) // all members of a class are equal, and unequal to their neighbour classes
{
    auto const i = c.index(foldClasses().size());
    auto const& k = foldClasses()[i];
    c.show("caseless-equal characters " + hexStr(k));
    c.nontrivial(i);
    for (auto x: k)
        for (auto y: k)
            if (checkPair(c, U32(1, x), U32(1, y)) != 0)
                c.fail("caseless-equal characters compare unequal: " + hexStr(U32 { x, y }));
    auto const& o = foldClasses()[(i + 1) % foldClasses().size()];
    for (auto x: k)
        if (checkPair(c, U32(1, x), U32(1, o[0])) == 0)
            c.fail("different characters compare equal: " + hexStr(U32 { x, o[0] }));
}
// }}}

PROPERTY({ "P20",
           "a text is non-trivial if it has two or more characters and titlecasing or uppercasing changes it; exhaustive arms count codepoint blocks or class tuples",
           {
               { "strings", 150000, 4000000, p20Strings },
               { "long", 1500, 50000, longArm(p20Strings) },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p20Every, true },
               { "class-tuples-2", nTuples<2>(), nTuples<2>(), p20Tuples<2>, true },
               { "class-tuples-3", 0, nTuples<3>(), p20Tuples<3>, true },
           },
           {},
           {},
           {} });
PROPERTY({ "P21",
           "a pair of texts is non-trivial if neither is empty and the two are different but caseless-equal, or order by their foldings",
           {
               { "compare", 150000, 4000000, p21Compare },
               { "long", 1500, 50000, longArm(p21Compare) },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p21Every, true },
               { "fold-classes", foldClasses().size(), foldClasses().size(), p21Classes, true },
           },
           {},
           {},
           {} });
