// P04, P05: grapheme cluster segmentation.
#include "gen.h"

#include <libunicode/grapheme_segmenter.h>
#include <libunicode/utf8_grapheme_segmenter.h>

using namespace pbt;
using namespace gen;

static uint32_t classOf(uint32_t c)
{
    return (static_cast<uint32_t>(ref::G_(c)) * 4 + static_cast<uint32_t>(ref::I_(c))) * 2 + ref::P_(c);
}
static Pool const& pool()
{
    static Pool const p = Pool::by(classOf, { 'a', 0x200D, 0x1F1E6, 0x1F468, 0x308, 0x94D, 0x915, 0x600, 0xA9, 0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0x903,
                                              '\r', '\n', 0xFE0F, 0x1F3FB, 0xE0061, 0x200C, 0x1F1FF, 0xFF9E, 0xCCA, 0x111C2 });
    return p;
}

static bool interesting(U32V s)
{
    for (auto c: s)
        if (classOf(c) != classOf('a') && ref::G_(c) != ref::G::Control)
            return true;
    return false;
}

// P04: every view of the segmenter against the reference boundaries.
static void checkSegmentation(Case& c, U32V text)
{
    auto const want = ref::graphemeEnds(text);
    Exact<char32_t> copy(text);
    auto const t = copy.view();

    {
        std::vector<size_t> got;
        size_t pos = 0;
        unicode::grapheme_segmenter seg(t);
        for (size_t guard = 0;; ++guard)
        {
            auto const cl = *seg;
            if (cl.empty() && !t.empty())
                c.fail("empty cluster at " + std::to_string(pos) + " of " + hexStr(text));
            if (cl.data() != t.data() + pos)
                c.fail("clusters leave a gap at " + std::to_string(pos) + " of " + hexStr(text));
            pos += cl.size();
            if (!cl.empty())
                got.push_back(pos);
            if (!seg.codepointsAvailable())
                break;
            if (guard > t.size())
                c.fail("does not terminate on " + hexStr(text));
            ++seg;
        }
        if (got != want)
            c.fail("grapheme_segmenter on " + hexStr(text) + ": cluster ends " + list(got) + ", UAX #29 says " + list(want));
    }
    if (t.empty())
        return;
    for (bool reinit: { false, true })
    {
        std::vector<size_t> got;
        unicode::grapheme_segmenter_state st {};
        unicode::grapheme_process_init(t[0], st);
        for (size_t i = 1; i < t.size(); ++i)
            if (unicode::grapheme_process_breakable(t[i], st))
            {
                got.push_back(i);
                if (reinit)
                    unicode::grapheme_process_init(t[i], st);
            }
        got.push_back(t.size());
        if (got != want)
            c.fail(std::string("grapheme_process_breakable (") + (reinit ? "re-initialised at each cluster" : "stepping through")
                   + ") on " + hexStr(text) + ": cluster ends " + list(got) + ", UAX #29 says " + list(want));
    }
    // a used state, initialised again, forgets what it has seen
    {
        unicode::grapheme_segmenter_state st {};
        unicode::grapheme_process_init(t[t.size() - 1], st);
        for (auto x: t)
            (void) unicode::grapheme_process_breakable(x, st);
        unicode::grapheme_process_init(t[0], st);
        auto next = want.begin();
        for (size_t i = 1; i < t.size(); ++i)
        {
            auto const b = unicode::grapheme_process_breakable(t[i], st);
            bool const boundary = *next == i;
            if (boundary)
                ++next;
            if (b != boundary)
                c.fail("re-used state: wrong answer before index " + std::to_string(i) + " of " + hexStr(text));
        }
    }
}

static void randomStrings(Case& c)
{
    auto const s = text(c, pool(), 40);
    c.show("text " + hexStr(s));
    if (interesting(s))
        c.nontrivial(hashOf(s));
    c.label(s.size() > 20 ? "length.>20" : s.size() > 8 ? "length.9-20" : "length.0-8");
    checkSegmentation(c, s);
}

// All class tuples, each position with a random member of its class (or a hot one).
template <size_t N>
static void tuples(Case& c)
{
    auto const& g = pool().groups;
    uint64_t total = 1;
    for (size_t i = 0; i < N; ++i)
        total *= g.size();
    auto k = c.index(total);
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    checkSegmentation(c, s);
}
static uint64_t power(uint64_t n)
{
    uint64_t r = 1;
    while (n--)
        r *= 24; // upper bound checked at start-up below
    return r;
}
static uint64_t nTuples(unsigned n)
{
    uint64_t r = 1;
    for (unsigned i = 0; i < n; ++i)
        r *= pool().groups.size();
    (void) power;
    return r;
}

// Structured clusters: the three stateful rules, concatenated.
static void structured(Case& c)
{
    auto const& p = pool();
    static std::vector<char32_t> const extends = [] {
        std::vector<char32_t> v;
        for (uint32_t x = 0; x < ref::MaxCp; ++x)
            if (ref::G_(x) == ref::G::Extend)
                v.push_back(x);
        return v;
    }();
    static auto const of = [](auto pred) {
        std::vector<char32_t> v;
        for (uint32_t x = 0; x < ref::MaxCp; ++x)
            if (pred(x))
                v.push_back(x);
        return v;
    };
    static auto const picts = of([](uint32_t x) { return ref::P_(x); });
    static auto const consonants = of([](uint32_t x) { return ref::I_(x) == ref::I::Consonant; });
    static auto const linkers = of([](uint32_t x) { return ref::I_(x) == ref::I::Linker; });
    static auto const inExt = of([](uint32_t x) { return ref::I_(x) == ref::I::Extend; });
    static auto const prepends = of([](uint32_t x) { return ref::G_(x) == ref::G::Prepend; });
    U32 s;
    auto const n = 1 + c.draw(4);
    for (size_t i = 0; i < n; ++i)
        switch (c.draw(6))
        {
            case 0: s += p.draw(c); break;
            case 1: // (pict Extend* ZWJ?)+ pict, with the ZWJ count varying
            {
                auto const m = 1 + c.draw(4);
                for (size_t j = 0; j < m; ++j)
                {
                    s += c.pick(picts);
                    for (auto k = c.draw(3); k > 0; --k)
                        s += c.pick(extends);
                    auto const z = c.draw(8);
                    s.append(z == 7 ? 2 : z == 6 ? 0 : 1, U'\u200D');
                    if (c.chance(1, 6))
                        s += c.pick(extends);
                }
                s += c.pick(picts);
                break;
            }
            case 2: // conjuncts
            {
                auto const m = 1 + c.draw(4);
                for (size_t j = 0; j < m; ++j)
                {
                    s += c.pick(consonants);
                    for (auto k = c.draw(4); k > 0; --k)
                        s += c.chance(1, 2) ? c.pick(linkers) : c.chance(1, 5) ? c.pick(extends) : c.pick(inExt);
                }
                s += c.pick(consonants);
                break;
            }
            case 3: // regional indicators, after anything
            {
                if (c.chance(1, 3))
                    s += c.pick(prepends);
                for (auto k = c.draw(7); k > 0; --k)
                {
                    s += static_cast<char32_t>(c.range(0x1F1E6, 0x1F1FF));
                    if (c.chance(1, 8))
                        s += c.pick(extends);
                }
                break;
            }
            case 4: // jamo
                for (auto k = c.draw(6); k > 0; --k)
                {
                    static const char32_t j[] = { 0x1100, 0x115F, 0xA960, 0x1161, 0x11A7, 0xD7B0, 0x11A8, 0xD7CB, 0xAC00, 0xAC01, 0xD788, 0xD7A3 };
                    s += j[c.draw(12)];
                }
                break;
            default: s += c.pick(prepends); break;
        }
    stretch(c, s);
    c.show("text " + hexStr(s));
    if (interesting(s))
        c.nontrivial(hashOf(s));
    checkSegmentation(c, s);
}

// Every codepoint next to one member of every class, in both orders.
constexpr uint64_t CpChunk = 0x200;
static void everyCodepoint(Case& c)
{
    auto const k = c.index(ref::MaxCp / CpChunk);
    auto const& g = pool().groups;
    uint64_t n = 0;
    unicode::grapheme_segmenter_state st {};
    for (uint32_t cp = static_cast<uint32_t>(k * CpChunk); cp < (k + 1) * CpChunk; ++cp)
        for (auto const& grp: g)
        {
            char32_t const y = grp[(cp * 7919u + grp.size() / 2) % grp.size()];
            char32_t const pair[3] = { cp, y, cp };
            unicode::grapheme_process_init(pair[0], st);
            for (size_t i = 1; i < 3; ++i)
            {
                auto const got = unicode::grapheme_process_breakable(pair[i], st);
                auto const want = ref::graphemeBreakBefore(U32V(pair, 3), i);
                ++n;
                if (got != want)
                    c.fail("break before index " + std::to_string(i) + " of " + hexStr(U32V(pair, 3)) + ": got " + std::to_string(got) + ", UAX #29 says "
                           + std::to_string(want));
            }
        }
    c.evals(n);
    c.nontrivial(k);
}

// {{{ P05
struct Emitted
{
    U32 flat;
    std::vector<size_t> ends;
};
static Emitted iterate(Case& c, std::string_view bytes, std::string const& what)
{
    Emitted e;
    Exact<char> copy(bytes);
    unicode::utf8_grapheme_segmenter seg(copy.view());
    size_t guard = 0;
    auto const end = seg.end();
    for (auto it = seg.begin(); it != end; ++it)
    {
        if (++guard > bytes.size())
            c.fail("more clusters than bytes: " + what);
        if ((*it).empty())
            c.fail("empty cluster after " + hexStr(e.flat) + ": " + what);
        if (it.value() != *it)
            c.fail("value() and operator* differ: " + what);
        e.flat += *it;
        e.ends.push_back(e.flat.size());
    }
    // the post-increment form visits the same clusters
    Emitted f;
    guard = 0;
    for (auto it = seg.begin(); !(it == end);)
    {
        if (++guard > bytes.size())
            c.fail("more clusters than bytes (post-increment): " + what);
        auto const old = it++;
        f.flat += old.value();
        f.ends.push_back(f.flat.size());
    }
    if (f.flat != e.flat || f.ends != e.ends)
        c.fail("post-increment visits other clusters: " + what);
    return e;
}

// Can `out` be explained: every well-formed character once and in order, each ill-formed gap as
// one or more U+FFFD (at most one per byte)?
static bool explains(std::string_view bytes, U32V out)
{
    auto const us = ref::units(bytes);
    std::set<size_t> at { 0 };
    size_t i = 0;
    auto illLike = [](ref::Unit const& u) { return !u.ok; };
    auto nonScalarUnit = [](ref::Unit const& u) {
        auto const n = u.end - u.begin;
        auto const overlong = (n == 2 && u.value < 0x80) || (n == 3 && u.value < 0x800) || (n == 4 && u.value < 0x10000);
        return overlong || isSurrogate(u.value) || u.value > 0x10FFFF;
    };
    while (i < us.size())
    {
        std::set<size_t> next;
        if (illLike(us[i]))
        {
            size_t j = i;
            while (j < us.size() && illLike(us[j]))
                ++j;
            auto const maxN = us[j - 1].end - us[i].begin;
            for (auto p: at)
                for (size_t k = 1; k <= maxN && p + k <= out.size() && out[p + k - 1] == 0xFFFD; ++k)
                    next.insert(p + k);
            i = j;
        }
        else
        {
            for (auto p: at)
            {
                if (p < out.size() && out[p] == us[i].value)
                    next.insert(p + 1);
                if (nonScalarUnit(us[i]))
                    for (size_t k = 1; k <= us[i].end - us[i].begin && p + k <= out.size() && out[p + k - 1] == 0xFFFD; ++k)
                        next.insert(p + k);
            }
            ++i;
        }
        at = next;
        if (at.empty())
            return false;
    }
    return at.count(out.size()) != 0;
}

static void checkUtf8(Case& c, std::string const& b)
{
    auto const what = "bytes " + hexBytes(b);
    auto const e = iterate(c, b, what);
    auto const us = ref::units(b);
    bool wellFormed = true;
    U32 decoded;
    for (auto const& u: us)
    {
        wellFormed = wellFormed && u.ok;
        decoded += static_cast<char32_t>(u.value);
    }
    if (wellFormed && e.flat != decoded && ref::utf8(decoded) == b)
        c.fail(what + ": clusters concatenate to " + hexStr(e.flat) + " instead of " + hexStr(decoded));
    if (!explains(b, e.flat))
        c.fail(what + ": clusters concatenate to " + hexStr(e.flat) + ", which does not keep the well-formed characters with U+FFFD for each ill-formed part");
    auto const want = ref::graphemeEnds(e.flat);
    if (e.ends != want)
        c.fail(what + ": decoded " + hexStr(e.flat) + " has cluster ends " + list(e.ends) + ", UAX #29 says " + list(want));
}
static std::function<void(Case&)> utf8Arm(BytesOptions o)
{
    return [o](Case& c) {
        auto const b = bytes(c, [](Case& k) { return pool().draw(k); }, o);
        c.show("bytes " + hexBytes(b));
        auto const us = ref::units(b);
        bool ill = false, multi = false;
        for (auto const& u: us)
        {
            ill = ill || !u.ok;
            multi = multi || u.end - u.begin > 1;
        }
        if (ill || multi)
            c.nontrivial(hashOf(b));
        c.label(ill ? "ill-formed" : "well-formed");
        checkUtf8(c, b);
    };
}
// All byte strings of up to three bytes over the interesting byte values, then well-formed text.
static void shortBytes(Case& c)
{
    static const uint8_t v[] = { 'a', 0x0D, 0x7F, 0x80, 0x9B, 0xBF, 0xC2, 0xCC, 0xDF, 0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF8, 0xFF };
    auto k = c.index(16 * 16 * 16 * 16);
    std::string b;
    for (int i = 0; i < 4; ++i)
    {
        b += static_cast<char>(v[k % 16]);
        k /= 16;
    }
    c.show("bytes " + hexBytes(b));
    c.nontrivial(hashOf(b));
    for (size_t n = 0; n <= 4; ++n)
        checkUtf8(c, b.substr(0, n));
    checkUtf8(c, b + "z");
    checkUtf8(c, b + "\xCC\x88");
    c.evals(6);
}
// }}}

static std::string const unitsRule = "a string is non-trivial if it has a character that is not an ordinary letter or control (class tuples: every string); counted by content hash";

PROPERTY({ "P04",
           unitsRule,
           {
               { "strings", 150000, 3000000, randomStrings },
               { "structured", 120000, 3000000, structured },
               { "long", 1000, 40000, longArm(randomStrings) },
               { "long-structured", 1500, 60000, longArm(structured) },
               { "class-tuples-3", nTuples(3), nTuples(3), tuples<3>, true },
               { "class-tuples-4", 0, nTuples(4), tuples<4>, true },
               { "every-codepoint", ref::MaxCp / CpChunk, ref::MaxCp / CpChunk, everyCodepoint, true },
           },
           {},
           {},
           { "surrogate code points in UTF-32 text are treated as UAX #29 treats them (class Control)" } });

PROPERTY({ "P05",
           "bytes are non-trivial if they hold a multi-byte character or an ill-formed part",
           {
               { "well-formed", 80000, 1500000, utf8Arm({ false, false, true, 40 }) },
               { "long", 2000, 60000, longArm(utf8Arm({ true, false, true, 24 })) },
               { "ill-formed", 120000, 2500000, utf8Arm({ true, false, true, 24 }) },
               { "ill-formed-nonscalar", 30000, 500000, utf8Arm({ true, true, true, 24 }) },
               { "short-byte-strings", 65536, 65536, shortBytes, true },
           },
           {},
           {},
           { "overlong forms, encoded surrogates and values above U+10FFFF (structurally complete) may be decoded as they stand or replaced" } });
