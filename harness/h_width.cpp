// P10 width of a codepoint, P11 width of clusters and strings.
#include "clusters.h"

#include <libunicode/width.h>

using namespace pbt;
using namespace gen;

// {{{ P10
constexpr uint64_t Chunk = 0x400;
static void p10Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        auto const got = unicode::width(cp);
        auto const want = ref::width(cp);
        if (got != want)
            c.fail("width(" + hexStr(U32(1, cp)) + ") is " + std::to_string(got) + ", the rule says " + std::to_string(want) + " (gc " + ref::gc().at(cp) + ", eaw " + ref::eaw().at(cp) + ")");
        if (got > 2)
            c.fail("width is " + std::to_string(got));
        // a single character is as wide on its own, as a cluster and incrementally
        unicode::grapheme_cluster_width_accumulator a;
        a.push(cp);
        if (a.width() != want || unicode::grapheme_cluster_width(std::u32string_view(&cp, 1)) != want)
            c.fail("cluster of the single character " + hexStr(U32(1, cp)) + " measures differently from width() = " + std::to_string(want));
    }
    c.evals(Chunk * 3 - 1);
    c.nontrivial(k);
}
static void p10Above(Case& c)
{
    auto const cp = static_cast<char32_t>(c.chance(1, 4) ? 0x110000 + c.draw(0x2000) : c.range(0x110000, 0xFFFFFFFFull));
    c.show("value " + hexStr(U32(1, cp)));
    auto const a = unicode::width(cp);
    if (a > 2)
        c.fail("width(" + hexStr(U32(1, cp)) + ") is " + std::to_string(a));
    if (unicode::width(cp) != a)
        c.fail("width(" + hexStr(U32(1, cp)) + ") changes between calls");
    c.nontrivial(cp);
}
// }}}

// {{{ P11
static Pool const& pool() { return clusterPool(); }
static bool interesting(U32V s)
{
    for (auto c: s)
        if (ref::width(c) != 1 || ref::isEmojiVariationBase(c))
            return s.size() > 1;
    return false;
}
static void checkSequence(Case& c, U32V s)
{
    Exact<char32_t> copy(s);
    auto const want = ref::clusterWidth(s);
    auto const got = unicode::grapheme_cluster_width(copy.view());
    if (got != want)
        c.fail("grapheme_cluster_width(" + hexStr(s) + ") is " + std::to_string(got) + ", the reference says " + std::to_string(want));
}
static void p11Sequences(Case& c)
{
    auto const s = sequence(c);
    c.show("sequence " + hexStr(s));
    if (interesting(s))
        c.nontrivial(hashOf(s));
    c.label("width." + std::to_string(std::min<unsigned>(ref::clusterWidth(s), 9)));
    checkSequence(c, s);
    // incremental: every prefix, and again after reset() of the used accumulator
    unicode::grapheme_cluster_width_accumulator acc;
    for (int round = 0; round < 2; ++round)
    {
        if (acc.width() != 0)
            c.fail("an empty accumulator is " + std::to_string(acc.width()) + " wide (round " + std::to_string(round) + ")");
        std::vector<unsigned> prefixes;
        (void) ref::clusterWidth(s, &prefixes);
        for (size_t i = 0; i < s.size(); ++i)
        {
            acc.push(s[i]);
            auto const want = prefixes[i];
            if (s.size() < 100 && want != ref::clusterWidth(U32V(s).substr(0, i + 1)))
                c.fail("the reference model contradicts itself on " + hexStr(U32V(s).substr(0, i + 1)));
            if (acc.width() != want)
                c.fail("after pushing " + hexStr(U32V(s).substr(0, i + 1)) + (round ? " (after reset)" : "") + " the accumulator says " + std::to_string(acc.width()) + ", the reference "
                       + std::to_string(want));
        }
        acc.reset();
    }
    // reset in the middle forgets everything before it
    if (!s.empty())
    {
        auto const cut = c.draw(s.size() + 1);
        unicode::grapheme_cluster_width_accumulator b;
        for (size_t i = 0; i < cut; ++i)
            b.push(s[i]);
        b.reset();
        for (size_t i = cut; i < s.size(); ++i)
            b.push(s[i]);
        auto const want = ref::clusterWidth(U32V(s).substr(cut));
        if (b.width() != want)
            c.fail("reset() after " + std::to_string(cut) + " of " + hexStr(s) + ": measures " + std::to_string(b.width()) + " instead of " + std::to_string(want));
    }
}
static void p11Clusters(Case& c) // real clusters only
{
    auto const s = sequence(c);
    c.show("text " + hexStr(s));
    size_t b = 0;
    unsigned sum = 0;
    for (auto e: ref::graphemeEnds(s))
    {
        checkSequence(c, U32V(s).substr(b, e - b));
        sum += ref::clusterWidth(U32V(s).substr(b, e - b));
        b = e;
    }
    if (interesting(s))
        c.nontrivial(hashOf(s));
    bool scalar = true;
    for (auto x: s)
        scalar = scalar && !isSurrogate(x);
    if (!scalar)
        return;
    auto const u8 = ref::utf8(s);
    Exact<char> copy { std::string_view(u8) };
    auto const got = unicode::grapheme_cluster_width(copy.view());
    if (got != sum)
        c.fail("width of the UTF-8 text " + hexStr(s) + " is " + std::to_string(got) + ", its clusters add up to " + std::to_string(sum));
}
static void p11Pairs(Case& c) // every codepoint in the contexts the rules look at
{
    auto const k = c.index(ref::MaxCp / Chunk);
    static const U32 ctx[] = { U"\u0915\u094D", U"\u2764", U"a", U"\U0001F468\u200D", U"\U0001F1E6", U"\u4E00", U"\u23F0", U"\u0915\u094D\u200D", U"\u0915" };
    static const U32 tail[] = { U"\uFE0F", U"\uFE0E", U"\u093E", U"\U0001F3FB", U"\u200D\u2764", U"\u094D\u0915" };
    uint64_t n = 0;
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        U32 const x(1, cp);
        for (auto const& y: ctx)
            checkSequence(c, y + x), ++n;
        for (auto const& y: tail)
            checkSequence(c, x + y), ++n;
    }
    c.evals(n);
    c.nontrivial(k);
}
static uint64_t nTuples(unsigned n)
{
    uint64_t r = 1;
    while (n--)
        r *= pool().groups.size();
    return r;
}
template <size_t N>
static void p11Tuples(Case& c)
{
    auto const& g = pool().groups;
    auto k = c.index(nTuples(N));
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("sequence " + hexStr(s));
    c.nontrivial(hashOf(s));
    checkSequence(c, s);
}
// }}}

PROPERTY({ "P10",
           "a case is non-trivial if it checks a block of codepoints, or a value above U+10FFFF",
           { { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p10Every, true }, { "above-10FFFF", 20000, 500000, p10Above } },
           {},
           {},
           {} });
PROPERTY({ "P11",
           "a sequence is non-trivial if it has two or more codepoints, one of them zero-width, wide or an emoji-variation base",
           {
               { "sequences", 250000, 6000000, p11Sequences },
               { "clusters", 150000, 4000000, p11Clusters },
               { "long", 1000, 30000, longArm(p11Sequences) },
               { "long-clusters", 1000, 30000, longArm(p11Clusters) },
               { "class-tuples-2", nTuples(2), nTuples(2), p11Tuples<2>, true },
               { "class-tuples-3", nTuples(3), nTuples(3), p11Tuples<3>, true },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p11Pairs, true },
           },
           {},
           {},
           { "the reference is a transcription of wcwidth 0.8's wcswidth over the library's documented per-codepoint widths" } });
