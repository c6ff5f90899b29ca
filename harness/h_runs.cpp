// P07 script runs, P08 emoji/text runs, P09 their refinement.
#include "gen.h"

#include <libunicode/emoji_segmenter.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd_ostream.h>

#include <sstream>

using namespace pbt;
using namespace gen;
using unicode::out;

// {{{ scripts
struct ScriptPool
{
    std::vector<std::vector<std::vector<char32_t>>> byScript; // script -> class -> members
    std::vector<std::vector<char32_t>> neutral;               // Common/Inherited without extensions
    std::vector<std::vector<char32_t>> withExt;               // classes with extensions
};
static ScriptPool const& scripts()
{
    static ScriptPool const p = [] {
        ScriptPool r;
        std::map<std::pair<int, int>, std::vector<char32_t>> cls;
        for (uint32_t c = 0; c < ref::MaxCp; ++c)
            cls[{ ref::script().v[c], ref::scx().idx[c] }].push_back(c);
        std::map<std::string, std::vector<std::vector<char32_t>>> by;
        for (auto const& [k, v]: cls)
        {
            auto const set = ref::scriptsFor(v[0]);
            if (k.second)
                r.withExt.push_back(v);
            bool specific = false;
            for (auto const& s: set)
                if (ref::specificScript(s))
                {
                    by[s].push_back(v);
                    specific = true;
                }
            if (!specific)
                r.neutral.push_back(v);
        }
        for (auto& [k, v]: by)
            r.byScript.push_back(v);
        return r;
    }();
    return p;
}
static char32_t any(Case& c, std::vector<std::vector<char32_t>> const& cls)
{
    auto const& g = cls[c.draw(cls.size())];
    return g[c.draw(g.size())];
}
// A text that stays with a script for a while, uses shared-script marks and neutral characters.
static U32 scriptText(Case& c, size_t maxLen)
{
    auto const& p = scripts();
    auto const n = c.size(maxLen);
    U32 s;
    auto cur = c.draw(p.byScript.size());
    while (s.size() < n)
        switch (c.draw(10))
        {
            case 0: s += static_cast<char32_t>('a' + c.draw(26)); break;
            case 1:
            case 2: s += any(c, p.neutral); break;
            case 3: cur = c.draw(p.byScript.size()); [[fallthrough]];
            case 4:
            case 5: s += any(c, p.byScript[cur]); break;
            case 6:
            case 7: s += any(c, p.withExt); break;
            case 8: { // a script that shares a character with the last one
                auto const x = any(c, p.withExt);
                s += x;
                s += any(c, p.byScript[cur]);
                break;
            }
            default: {
                static const char32_t hot[] = { ' ', 0x300, 0x640, 0x964, 0x3001, 0x30FC, 0x200D, 0x600, 0x1CD0, 0x951, 0x485, 0x3099, 0xFE0F, 0x1F600, 0x60C, 0xA9F8 };
                s += hot[c.draw(16)];
            }
        }
    stretch(c, s);
    return s;
}
static std::string nameOf(unicode::Script s)
{
    std::ostringstream o;
    o << s;
    return o.str();
}
static void checkScripts(Case& c, U32V text)
{
    auto const model = ref::scriptRuns(text);
    Exact<char32_t> copy(text);
    for (int form = 0; form < 2; ++form)
    {
        std::vector<size_t> ends;
        std::vector<std::string> names;
        unicode::script_segmenter seg(copy.view().data(), copy.view().size());
        for (size_t guard = 0; guard <= text.size() + 1; ++guard)
        {
            if (form == 0)
            {
                auto const r = seg.consume();
                if (!r)
                    break;
                ends.push_back(r->size);
                names.push_back(nameOf(r->script));
            }
            else
            {
                size_t n = 0;
                unicode::Script s {};
                if (!seg.consume(out(n), out(s)))
                    break;
                ends.push_back(n);
                names.push_back(nameOf(s));
            }
        }
        if (ends != model.ends)
            c.fail("script runs of " + hexStr(text) + " end at " + list(ends) + " " + list(names) + ", expected " + list(model.ends));
        for (size_t i = 0; i < names.size(); ++i)
            if (!model.allowed[i].count(names[i]))
                c.fail("script run " + std::to_string(i) + " of " + hexStr(text) + " is reported as " + names[i] + ", its characters share "
                       + list(std::vector<std::string>(model.allowed[i].begin(), model.allowed[i].end())));
        if (seg.consume())
            c.fail("a run is reported after the end of " + hexStr(text));
    }
}
static void p07Strings(Case& c)
{
    auto const s = scriptText(c, 40);
    c.show("text " + hexStr(s));
    std::set<int> specific;
    for (auto x: s)
        if (ref::script().at(x) != "Common" || ref::scx().idx[x])
            specific.insert(ref::script().v[x] * 256 + ref::scx().idx[x]);
    if (specific.size() >= 2)
        c.nontrivial(hashOf(s));
    c.label("runs." + std::to_string(std::min<size_t>(ref::scriptRuns(s).ends.size(), 8)));
    checkScripts(c, s);
    if (s.find(U'\0') == s.npos) // the NUL-terminated form
    {
        auto t = s;
        unicode::script_segmenter a(t.c_str());
        unicode::script_segmenter b { U32V(s) };
        for (size_t guard = 0; guard <= s.size(); ++guard)
        {
            auto const x = a.consume();
            auto const y = b.consume();
            if (x.has_value() != y.has_value() || (x && (x->size != y->size || x->script != y->script)))
                c.fail("NUL-terminated and view constructors differ on " + hexStr(s));
            if (!x)
                break;
        }
    }
}
constexpr uint64_t CpChunk = 0x200;
static void p07Pairs(Case& c)
{
    auto const k = c.index(ref::MaxCp / CpChunk);
    auto const& p = scripts();
    uint64_t n = 0;
    for (uint32_t cp = static_cast<uint32_t>(k * CpChunk); cp < (k + 1) * CpChunk; ++cp)
    {
        U32 s(1, cp);
        checkScripts(c, s);
        for (int j = 0; j < 3; ++j)
        {
            auto const& cls = p.byScript[(cp * 31 + static_cast<uint32_t>(j) * 17) % p.byScript.size()];
            auto const& g = cls[cp % cls.size()];
            checkScripts(c, U32 { g[cp % g.size()], cp, U'x' });
            checkScripts(c, U32 { cp, g[cp % g.size()], cp });
            n += 2;
        }
    }
    c.evals(n);
    c.nontrivial(k);
}
// every pair of (script, extensions) classes
static std::vector<std::vector<char32_t>> const& scriptClasses()
{
    static std::vector<std::vector<char32_t>> const v = [] {
        std::vector<std::vector<char32_t>> r = scripts().neutral;
        std::set<char32_t> seen;
        for (auto const& s: scripts().byScript)
            for (auto const& g: s)
                if (seen.insert(g[0]).second)
                    r.push_back(g);
        return r;
    }();
    return v;
}
static void p07ClassPairs(Case& c)
{
    auto const& cls = scriptClasses();
    auto const i = c.index(cls.size());
    auto const& a = cls[i];
    uint64_t n = 0;
    for (auto const& b: cls)
        for (auto const third: { char32_t(0), char32_t(0x300), b[c.draw(b.size())], cls[c.draw(cls.size())][0] })
        {
            U32 s { a[c.draw(a.size())], b[c.draw(b.size())] };
            if (third)
                s += third;
            if (c.chance(1, 4))
                s += a[0];
            ++n;
            c.show("text " + hexStr(s));
            checkScripts(c, s);
        }
    c.evals(n);
    c.nontrivial(i);
}
// }}}

// {{{ emoji
static Pool const& emojiPool()
{
    static Pool const p = Pool::by([](uint32_t c) { return static_cast<int>(ref::esc(c)) * 2 + (ref::isEmojiVariationBase(c) ? 1 : 0); },
                                   { 'a', 0xFE0F, 0xFE0E, 0x200D, 0x20E3, 0x20E0, '1', 0x1F3F4, 0xE0061, 0xE007F, 0x1F468, 0x1F3FB, 0x1F1E6, 0x2764, 0x1F600, '#', 0xA9, 0x261D,
                                     0x1F3FF, 0x23F0, 0x26F9 });
    return p;
}
static std::vector<ref::EmojiRun> libEmojiRuns(Case& c, U32V text)
{
    Exact<char32_t> copy(text);
    auto const t = copy.view();
    unicode::emoji_segmenter seg(t.data(), t.size());
    std::vector<ref::EmojiRun> r;
    size_t n = 0, prev = 0;
    unicode::PresentationStyle ps {};
    for (size_t guard = 0;; ++guard)
    {
        if (guard > t.size() + 1)
            c.fail("emoji_segmenter does not terminate on " + hexStr(text));
        if (!seg.consume(out(n), out(ps)))
            break;
        bool const e = ps == unicode::PresentationStyle::Emoji;
        r.push_back({ e, n });
        if (seg.isEmoji() != e || seg.isText() == e)
            c.fail("isEmoji()/isText() disagree with the reported style at offset " + std::to_string(n) + " of " + hexStr(text));
        if (n > prev && n <= t.size() && (seg.substr() != t.substr(prev, n - prev) || *seg != seg.substr()))
            c.fail("substr() is not the run ending at " + std::to_string(n) + " of " + hexStr(text));
        if (seg.currentCursorBegin() != prev || seg.currentCursorEnd() != n)
            c.fail("cursor is not the run ending at " + std::to_string(n) + " of " + hexStr(text));
        prev = n;
    }
    return r;
}
static std::string showRuns(std::vector<ref::EmojiRun> const& v)
{
    std::vector<std::string> s;
    for (auto const& r: v)
        s.push_back(std::to_string(r.end) + (r.emoji ? "E" : "t"));
    return list(s);
}
static void checkEmoji(Case& c, U32V text)
{
    auto const got = libEmojiRuns(c, text);
    auto const want = ref::emojiRuns(text);
    if (got != want)
        c.fail("emoji runs of " + hexStr(text) + ": " + showRuns(got) + ", expected " + showRuns(want));
}
static U32 emojiText(Case& c, size_t maxLen)
{
    auto const& p = emojiPool();
    static auto const with = [](ref::E e) {
        std::vector<char32_t> v;
        for (uint32_t x = 0; x < ref::MaxCp; ++x)
            if (ref::esc(x) == e)
                v.push_back(x);
        return v;
    };
    static auto const emo = with(ref::E::EmojiEmoji), txt = with(ref::E::EmojiText), base = with(ref::E::ModBase), keycap = with(ref::E::KeyCapBase), tags = with(ref::E::TagSeq);
    auto element = [&](U32& s) {
        switch (c.draw(6))
        {
            case 0: s += c.pick(emo); break;
            case 1: s += c.pick(txt); break;
            case 2:
                s += c.pick(base);
                s += static_cast<char32_t>(c.range(0x1F3FB, 0x1F3FF));
                break;
            case 3:
                s += c.pick(txt);
                s += 0xFE0F;
                break;
            case 4: s += c.pick(base); break;
            default: s += p.draw(c); break;
        }
    };
    if (c.chance(1, 3))
        return text(c, p, maxLen);
    U32 s;
    auto const n = 1 + c.draw(5);
    for (size_t i = 0; i < n; ++i)
        switch (c.draw(8))
        {
            case 0: s += p.draw(c); break;
            case 1: { // ZWJ sequence, sometimes cut off or doubled
                element(s);
                for (auto k = 1 + c.draw(3); k > 0; --k)
                {
                    s += 0x200D;
                    if (c.chance(1, 10))
                        s += 0x200D;
                    element(s);
                }
                if (c.chance(1, 5))
                    s += 0x200D;
                break;
            }
            case 2: { // tag sequence
                s += 0x1F3F4;
                for (auto k = c.draw(7); k > 0; --k)
                    s += c.pick(tags);
                if (!c.chance(1, 4))
                    s += 0xE007F;
                break;
            }
            case 3: // keycap
                s += c.pick(keycap);
                if (!c.chance(1, 4))
                    s += 0xFE0F;
                if (!c.chance(1, 4))
                    s += 0x20E3;
                break;
            case 4: // flags
                for (auto k = c.draw(6); k > 0; --k)
                    s += static_cast<char32_t>(c.range(0x1F1E6, 0x1F1FF));
                break;
            case 5: // variation
                element(s);
                s += c.chance(1, 2) ? 0xFE0E : 0xFE0F;
                break;
            case 6:
                element(s);
                s += 0x20E0;
                break;
            default: s += static_cast<char32_t>('a' + c.draw(26)); break;
        }
    stretch(c, s);
    return s;
}
static void p08Strings(Case& c)
{
    auto const s = emojiText(c, 40);
    c.show("text " + hexStr(s));
    bool e = false;
    for (auto x: s)
        e = e || ref::esc(x) != ref::E::Invalid;
    if (e)
        c.nontrivial(hashOf(s));
    auto const w = ref::emojiRuns(s);
    c.label("runs." + std::to_string(std::min<size_t>(w.size(), 8)));
    checkEmoji(c, s);
}
static void p08Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / CpChunk);
    uint64_t n = 0;
    static const char32_t ctx[] = { 'a', 0xFE0F, 0xFE0E, 0x200D, 0x20E3, 0x20E0, 0x1F3FB, 0x1F468, 0x1F1E6, 0xE007F, 0x2764, 0x1F3F4 };
    for (uint32_t cp = static_cast<uint32_t>(k * CpChunk); cp < (k + 1) * CpChunk; ++cp)
    {
        checkEmoji(c, U32 { cp });
        for (auto x: ctx)
        {
            checkEmoji(c, U32 { cp, x, cp });
            n += 1;
        }
        checkEmoji(c, U32 { 0x1F468, 0x200D, cp, 0xFE0F, 0x200D, cp });
        checkEmoji(c, U32 { 0x1F3F4, cp, 0xE007F });
    }
    c.evals(n);
    c.nontrivial(k);
}
static uint64_t emojiTuples(unsigned n)
{
    uint64_t r = 1;
    while (n--)
        r *= emojiPool().groups.size();
    return r;
}
template <size_t N>
static void p08Tuples(Case& c)
{
    auto const& g = emojiPool().groups;
    auto k = c.index(emojiTuples(N));
    U32 s;
    for (size_t i = 0; i < N; ++i)
    {
        auto const& grp = g[k % g.size()];
        s += grp[c.draw(grp.size())];
        k /= g.size();
    }
    c.show("text " + hexStr(s));
    c.nontrivial(hashOf(s));
    checkEmoji(c, s);
}
// }}}

// {{{ P09
static void p09(Case& c)
{
    U32 s;
    switch (c.draw(3))
    {
        case 0: s = scriptText(c, 40); break;
        case 1: s = emojiText(c, 40); break;
        default:
            for (auto k = 1 + c.draw(4); k > 0; --k)
                if (s.size() < 100000)
                s += c.chance(1, 2) ? emojiText(c, 8) : scriptText(c, 8);
    }
    c.show("text " + hexStr(s));
    // expected: refinement of what the two segmenters themselves report
    Exact<char32_t> copy(U32V { s });
    auto const t = copy.view();
    std::vector<std::pair<size_t, unicode::Script>> sr;
    {
        unicode::script_segmenter seg(t.data(), t.size());
        while (auto r = seg.consume())
        {
            sr.push_back({ r->size, r->script });
            if (sr.size() > s.size())
                c.fail("script segmenter does not terminate");
        }
    }
    auto const er = libEmojiRuns(c, s);
    struct R
    {
        size_t b, e;
        unicode::Script sc;
        bool emoji;
    };
    std::vector<R> want;
    {
        size_t i = 0, j = 0, pos = 0;
        while (pos < s.size() && i < sr.size() && j < er.size())
        {
            auto const e = std::min(sr[i].first, er[j].end);
            want.push_back({ pos, e, sr[i].second, er[j].emoji });
            pos = e;
            if (sr[i].first == e)
                ++i;
            if (er[j].end == e)
                ++j;
        }
        if (pos != s.size())
            c.fail("script or emoji runs do not cover " + hexStr(s));
    }
    unicode::run_segmenter seg(t.data(), t.size());
    unicode::run_segmenter seg2 { t };
    size_t i = 0;
    unicode::run_segmenter::range r {}, r2 {};
    for (;; ++i)
    {
        bool const more = seg.consume(out(r));
        if (more != seg2.consume(out(r2)) || (more && r != r2))
            c.fail("the two constructors differ on " + hexStr(s));
        if (!more)
            break;
        if (i >= want.size())
            c.fail("run segmenter reports more than " + std::to_string(want.size()) + " runs on " + hexStr(s));
        auto const e = std::get<1>(r.properties) == unicode::PresentationStyle::Emoji;
        if (r.start != want[i].b || r.end != want[i].e || std::get<0>(r.properties) != want[i].sc || e != want[i].emoji)
        {
            std::ostringstream o;
            o << "run " << i << " of " << hexStr(s) << " is " << r << ", expected (" << want[i].b << ".." << want[i].e << ", " << want[i].sc << ", " << (want[i].emoji ? "Emoji" : "Text") << ")";
            c.fail(o.str());
        }
        bool const last = i + 1 == want.size();
        if (seg.finished() != last)
            c.fail("finished() is wrong after run " + std::to_string(i) + " of " + hexStr(s));
    }
    if (i != want.size())
        c.fail("run segmenter reports " + std::to_string(i) + " of " + std::to_string(want.size()) + " runs on " + hexStr(s));
    if (seg.consume(out(r)))
        c.fail("a run after the end of " + hexStr(s));
    if (want.size() >= 2)
        c.nontrivial(hashOf(s));
    c.label(sr.size() > 1 && er.size() > 1 ? "both-split" : sr.size() > 1 ? "script-splits" : er.size() > 1 ? "emoji-splits" : "one-run");
    // and the script/emoji runs are themselves right
    checkScripts(c, s);
    checkEmoji(c, s);
}
// A segmenter of the user's own: a run is a maximal stretch with the same bits of the codepoint.
// With Empty, it reports some boundaries twice: an empty run (of no meaning) before the real one.
template <unsigned Shift, unsigned Bits, unsigned Empty = 0>
class BitSegmenter
{
  public:
    using property_type = unsigned;
    BitSegmenter() = default;
    BitSegmenter(char32_t const* text, size_t size): text_ { text }, size_ { size } {}
    static unsigned of(char32_t c) { return (static_cast<uint32_t>(c) >> Shift) & ((1u << Bits) - 1); }
    bool consume(out<size_t> end, out<unsigned> property)
    {
        if (at_ == size_)
            return false;
        auto const p = of(text_[at_]);
        if (empty_ < Empty && (at_ + p) % 2 == 0)
        {
            ++empty_;
            *end = at_;
            *property = p + 1000;
            return true;
        }
        empty_ = 0;
        while (at_ < size_ && of(text_[at_]) == p)
            ++at_;
        *end = at_;
        *property = p;
        return true;
    }

  private:
    char32_t const* text_ = nullptr;
    size_t size_ = 0;
    size_t at_ = 0;
    unsigned empty_ = 0;
};
template <typename... Seg>
static void customRuns(Case& c, U32V s)
{
    Exact<char32_t> copy(s);
    auto const t = copy.view();
    auto key = [](char32_t x) { return std::tuple<decltype(Seg::of(x))...>(Seg::of(x)...); };
    using Run = unicode::basic_run_segmenter<Seg...>;
    Run seg(t.data(), t.size());
    typename Run::range r {};
    size_t at = 0;
    while (seg.consume(out(r)))
    {
        if (at >= s.size())
            c.fail("custom segmenters: a run after the end of " + hexStr(s));
        auto e = at + 1;
        while (e < s.size() && key(s[e]) == key(s[at]))
            ++e;
        if (r.start != at || r.end != e || r.properties != key(s[at]))
        {
            std::ostringstream o;
            o << "run segmenter over " << sizeof...(Seg) << " segmenters reports (" << r.start << ".." << r.end << ") at " << at << " of " << hexStr(s) << ", the run ends at " << e;
            c.fail(o.str());
        }
        at = e;
        if (seg.finished() != (at == s.size()))
            c.fail("custom segmenters: finished() is wrong at " + std::to_string(at) + " of " + hexStr(s));
    }
    if (at != s.size() || !seg.finished())
        c.fail("custom segmenters: the runs end at " + std::to_string(at) + " of " + hexStr(s));
}
static void p09Custom(Case& c)
{
    U32 s;
    auto const sticky = 1 + c.draw(4); // how rarely a property changes
    uint32_t v = 0;
    for (auto n = c.size(40); n > 0; --n)
    {
        if (c.chance(1, sticky))
            v ^= 1u << c.draw(6);
        s += static_cast<char32_t>(v);
    }
    stretch(c, s);
    c.show("text " + hexStr(s));
    using A = BitSegmenter<0, 2>;
    using B = BitSegmenter<2, 2>;
    using D = BitSegmenter<4, 2>;
    customRuns<A>(c, s);
    customRuns<A, B>(c, s);
    customRuns<B, D, A>(c, s);
    customRuns<D, B, A, BitSegmenter<1, 3>>(c, s);
    using E = BitSegmenter<0, 2, 1>;
    using F = BitSegmenter<2, 2, 3>;
    customRuns<E>(c, s);
    customRuns<B, E>(c, s);
    customRuns<F, D, E>(c, s);
    std::set<char32_t> const k(s.begin(), s.end());
    c.label("distinct." + std::to_string(std::min<size_t>(k.size(), 8)));
    if (k.size() >= 2)
        c.nontrivial(hashOf(s));
}
// }}}

PROPERTY({ "P07",
           "a text is non-trivial if it has two characters of different (script, extension) classes, one at least not plain Common",
           {
               { "strings", 80000, 2500000, p07Strings },
               { "long", 800, 20000, longArm(p07Strings) },
               { "class-pairs", scriptClasses().size(), scriptClasses().size(), p07ClassPairs, true },
               { "every-codepoint", ref::MaxCp / CpChunk, ref::MaxCp / CpChunk, p07Pairs, true },
           },
           {},
           {},
           { "which of several shared scripts is reported is left to the library" } });
PROPERTY({ "P08",
           "a text is non-trivial if it has a character with an emoji segmentation category",
           {
               { "strings", 200000, 5000000, p08Strings },
               { "long", 2000, 60000, longArm(p08Strings) },
               { "category-tuples-3", emojiTuples(3), emojiTuples(3), p08Tuples<3>, true },
               { "category-tuples-4", 0, emojiTuples(4), p08Tuples<4>, true },
               { "every-codepoint", ref::MaxCp / CpChunk, ref::MaxCp / CpChunk, p08Every, true },
           },
           {},
           {},
           { "the grammar is the one of emoji_presentation_scanner.rl (Google's UTS #51 presentation scanner)" } });
PROPERTY({ "P09", "a text is non-trivial if it has at least two runs", { { "strings", 150000, 4000000, p09 }, { "long", 1000, 30000, longArm(p09) }, { "custom", 300000, 10000000, p09Custom }, { "custom-long", 1500, 40000, longArm(p09Custom) } }, {}, {}, {} });
