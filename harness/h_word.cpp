// P06: word segmentation.
#include "gen.h"

#include <libunicode/word_segmenter.h>

using namespace pbt;
using namespace gen;

static uint32_t classOf(uint32_t c)
{
    return static_cast<uint32_t>(ref::W_(c)) * 2 + ref::P_(c);
}
static Pool const& pool()
{
    static Pool const p = Pool::by(classOf, { 'a', ' ', '1', '.', ',', '\'', '"', '_', 0x05D0, 0x200D, 0x1F1E6, 0xAD, 0x308, 0x30A2, '\r', '\n', 0x85, ':', 0x1F468, 0x2019, 0x3000,
                                              0x2028, 0x00B7, 0x200B, 0x2060 });
    return p;
}

static void checkWords(Case& c, U32V text)
{
    auto const want = ref::wordEnds(text);
    Exact<char32_t> copy(text);
    auto const t = copy.view();
    {
        std::vector<size_t> got;
        size_t pos = 0;
        unicode::word_segmenter seg(t);
        for (size_t guard = 0;; ++guard)
        {
            auto const w = *seg;
            if (w.empty() && !t.empty())
                c.fail("empty word at " + std::to_string(pos) + " of " + hexStr(text));
            if (w.data() != t.data() + pos)
                c.fail("words leave a gap at " + std::to_string(pos) + " of " + hexStr(text));
            if (seg.size() != w.size() || seg.empty() != w.empty())
                c.fail("size()/empty() disagree with the word at " + std::to_string(pos) + " of " + hexStr(text));
            pos += w.size();
            if (!w.empty())
                got.push_back(pos);
            if (!seg.codepointsAvailable())
                break;
            if (guard > t.size())
                c.fail("does not terminate on " + hexStr(text));
            ++seg;
        }
        if (got != want)
            c.fail("word_segmenter on " + hexStr(text) + ": word ends " + list(got) + ", UAX #29 says " + list(want));
    }
    if (t.empty())
        return;
    // Stepping, re-initialised at each word start as word_segmenter itself does.
    {
        std::vector<size_t> got;
        unicode::word_segmenter_state st {};
        unicode::word_process_init(t[0], st);
        for (size_t i = 1; i < t.size(); ++i)
            if (unicode::word_process_breakable(t[i], t.data() + i + 1, t.size() - i - 1, st))
            {
                got.push_back(i);
                unicode::word_process_init(t[i], st);
            }
        got.push_back(t.size());
        if (got != want)
            c.fail("word_process_breakable (re-initialised at each word) on " + hexStr(text) + ": word ends " + list(got) + ", UAX #29 says " + list(want));
    }
}
static void stepThrough(Case& c, U32V text)
{
    if (text.empty())
        return;
    auto const want = ref::wordEnds(text);
    Exact<char32_t> copy(text);
    auto const t = copy.view();
    std::vector<size_t> got;
    unicode::word_segmenter_state st {};
    unicode::word_process_init(t[0], st);
    for (size_t i = 1; i < t.size(); ++i)
        if (unicode::word_process_breakable(t[i], t.data() + i + 1, t.size() - i - 1, st))
            got.push_back(i);
    got.push_back(t.size());
    if (got != want)
        c.fail("word_process_breakable (stepping through) on " + hexStr(text) + ": word ends " + list(got) + ", UAX #29 says " + list(want));
}

static bool interesting(U32V s)
{
    size_t n = 0;
    for (auto c: s)
        n += ref::W_(c) != ref::W::Other || ref::P_(c);
    return n >= 2;
}
static void randomStrings(Case& c)
{
    auto const s = text(c, pool(), 40);
    c.show("text " + hexStr(s));
    if (interesting(s))
        c.nontrivial(hashOf(s));
    checkWords(c, s);
    stepThrough(c, s);
}

// Letters, digits and quotes with ignorable characters strewn in: the lookahead rules.
static void structured(Case& c)
{
    static auto const byClass = [] {
        std::map<ref::W, std::vector<char32_t>> m;
        for (uint32_t x = 0; x < ref::MaxCp; ++x)
            if (ref::W_(x) != ref::W::Other)
                m[ref::W_(x)].push_back(x);
        return m;
    }();
    using W = ref::W;
    static const W main[] = { W::ALetter, W::Hebrew, W::Numeric, W::Katakana, W::ExtendNumLet, W::RI, W::WSegSpace, W::SQ, W::DQ, W::MidNumLet, W::MidLetter, W::MidNum, W::CR, W::LF, W::Newline };
    static const W ign[] = { W::Extend, W::Format, W::ZWJ };
    auto one = [&](W w) {
        auto const& v = byClass.at(w);
        return v[c.draw(v.size())];
    };
    U32 s;
    auto const n = 1 + c.draw(14);
    auto const focus = c.draw(5);
    for (size_t i = 0; i < n; ++i)
    {
        W w = W::ALetter;
        switch (c.chance(1, 5) ? 4 : focus)
        {
            case 0: { static const W k[] = { W::ALetter, W::Hebrew, W::MidLetter, W::MidNumLet, W::SQ, W::DQ }; w = k[c.draw(6)]; break; }
            case 1: { static const W k[] = { W::Numeric, W::MidNum, W::MidNumLet, W::SQ, W::ALetter, W::Numeric }; w = k[c.draw(6)]; break; }
            case 2: { static const W k[] = { W::Hebrew, W::DQ, W::SQ, W::Hebrew }; w = k[c.draw(4)]; break; }
            case 3: { static const W k[] = { W::RI, W::RI, W::RI, W::WSegSpace, W::WSegSpace, W::Katakana, W::ExtendNumLet }; w = k[c.draw(7)]; break; }
            default: w = main[c.draw(15)]; break;
        }
        s += one(w);
        for (auto k = c.draw(4); k > 1; --k)
            s += one(ign[c.draw(3)]);
        if (c.chance(1, 12))
        {
            s += U'\u200D';
            s += 0x1F600;
        }
    }
    stretch(c, s);
    c.show("text " + hexStr(s));
    if (interesting(s))
        c.nontrivial(hashOf(s));
    checkWords(c, s);
    stepThrough(c, s);
}
static uint64_t nTuples(unsigned n)
{
    uint64_t r = 1;
    for (unsigned i = 0; i < n; ++i)
        r *= pool().groups.size();
    return r;
}
template <size_t N>
static void tuples(Case& c)
{
    auto const& g = pool().groups;
    auto k = c.index(nTuples(N));
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    checkWords(c, s);
    stepThrough(c, s);
}
constexpr uint64_t CpChunk = 0x200;
static void everyCodepoint(Case& c)
{
    auto const k = c.index(ref::MaxCp / CpChunk);
    auto const& g = pool().groups;
    uint64_t n = 0;
    for (uint32_t cp = static_cast<uint32_t>(k * CpChunk); cp < (k + 1) * CpChunk; ++cp)
        for (auto const& grp: g)
        {
            char32_t const y = grp[(cp * 7919u + grp.size() / 2) % grp.size()];
            char32_t const t[4] = { y, cp, y, cp };
            U32V const text(t, 4);
            unicode::word_segmenter_state st {};
            unicode::word_process_init(t[0], st);
            for (size_t i = 1; i < 4; ++i)
            {
                ++n;
                auto const got = unicode::word_process_breakable(t[i], t + i + 1, 3 - i, st);
                auto const want = ref::wordBreakBefore(text, i);
                if (got != want)
                    c.fail("break before index " + std::to_string(i) + " of " + hexStr(text) + ": got " + std::to_string(got) + ", UAX #29 says " + std::to_string(want));
                if (got)
                    unicode::word_process_init(t[i], st);
            }
        }
    c.evals(n);
    c.nontrivial(k);
}

PROPERTY({ "P06",
           "a string is non-trivial if it has two or more characters with a word-break class (class tuples: every string); counted by content hash",
           {
               { "strings", 400000, 6000000, randomStrings },
               { "structured", 600000, 9000000, structured },
               { "long", 1000, 40000, longArm(randomStrings) },
               { "long-structured", 1500, 60000, longArm(structured) },
               { "class-tuples-3", nTuples(3), nTuples(3), tuples<3>, true },
               { "class-tuples-4", 0, nTuples(4), tuples<4>, true },
               { "every-codepoint", ref::MaxCp / CpChunk, ref::MaxCp / CpChunk, everyCodepoint, true },
           },
           {},
           {},
           {} });
