// P32 segmenters, decoders, accumulators and normalizers are values: a copy continues on its own.
#include "clusters.h"
#include "ops.h"

#include <deque>
#include <memory>

using namespace pbt;
using namespace gen;

namespace
{
// What all objects of one history work on.
struct World
{
    U32 const text;       // segmented
    std::string const u8; // segmented, scanned
    unsigned const option;
};
// One recorded action on an object.
struct Action
{
    unsigned kind; // meaning is up to the object
    uint64_t value;
};
using Obs = std::string; // what the object answered

std::string num(uint64_t v) { return std::to_string(v); }

// {{{ the objects under test; each offers kinds(), act(World, Action), and optionally view()
template <typename Seg>
struct CodepointSegmenter
{
    Seg seg;
    explicit CodepointSegmenter(World const& w): seg(w.text.data(), w.text.data() + w.text.size()) {}
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        if (a.kind == 1)
            ++seg;
        auto const v = *seg;
        return num(static_cast<size_t>(v.data() - w.text.data())) + "+" + num(v.size()) + (seg.codepointsAvailable() ? "" : " end");
    }
};
struct Scripts
{
    unicode::script_segmenter seg;
    explicit Scripts(World const& w): seg(w.text.data(), w.text.size()) {}
    static constexpr unsigned kinds = 1;
    Obs act(World const&, Action)
    {
        auto const r = seg.consume();
        return r ? num(r->size) + ":" + num(static_cast<uint64_t>(r->script)) : "end";
    }
};
struct Emoji
{
    unicode::emoji_segmenter seg;
    explicit Emoji(World const& w): seg(w.text.data(), w.text.size()) {}
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        size_t end = 0;
        unicode::PresentationStyle style {};
        std::string r;
        if (a.kind == 0)
            r = seg.consume(unicode::out(end), unicode::out(style)) ? num(end) + ":" + num(static_cast<uint64_t>(style)) : "end";
        auto const s = seg.substr();
        r += " " + (s.empty() ? "" : num(static_cast<size_t>(s.data() - w.text.data())) + "+" + num(s.size()));
        return r + (seg.isEmoji() ? "E" : "T");
    }
};
struct Runs
{
    // not assignable by design: assignment is replacing
    std::unique_ptr<unicode::run_segmenter> seg;
    explicit Runs(World const& w): seg(std::make_unique<unicode::run_segmenter>(U32V(w.text))) {}
    Runs(Runs const& o): seg(std::make_unique<unicode::run_segmenter>(*o.seg)) {}
    Runs(Runs&& o): seg(std::make_unique<unicode::run_segmenter>(std::move(*o.seg))) {}
    Runs& operator=(Runs const& o)
    {
        seg = std::make_unique<unicode::run_segmenter>(*o.seg);
        return *this;
    }
    Runs& operator=(Runs&& o)
    {
        seg = std::make_unique<unicode::run_segmenter>(std::move(*o.seg));
        return *this;
    }
    static constexpr unsigned kinds = 1;
    Obs act(World const&, Action)
    {
        unicode::run_segmenter::range r {};
        if (!seg->consume(unicode::out(r)))
            return "end";
        std::ostringstream os;
        os << r << (seg->finished() ? " finished" : "");
        return os.str();
    }
};
struct Utf8Iterator
{
    unicode::utf8_grapheme_segmenter::iterator it;
    explicit Utf8Iterator(World const& w): it(unicode::utf8_grapheme_segmenter(w.u8).begin()) {}
    static constexpr unsigned kinds = 3;
    Obs act(World const& w, Action a)
    {
        auto const end = unicode::utf8_grapheme_segmenter(w.u8).end();
        std::string r;
        if (a.kind && it != end)
        {
            if (a.kind == 1)
                ++it;
            else
            {
                auto const before = it++;
                r = hexStr(*before) + (before == it ? "=" : "");
            }
        }
        return r + (it == end ? "end" : hexStr(*it) + hexStr(it.value()));
    }
};
struct GraphemeSteps
{
    unicode::grapheme_segmenter_state st {};
    explicit GraphemeSteps(World const& w) { unicode::grapheme_process_init(w.text.empty() ? U' ' : w.text[0], st); }
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        auto const x = w.text.empty() ? U'a' : w.text[a.value % w.text.size()];
        if (a.kind == 1 && a.value % 7 == 0)
        {
            unicode::grapheme_process_init(x, st);
            return "init";
        }
        return unicode::grapheme_process_breakable(x, st) ? "break" : "join";
    }
};
struct WordSteps
{
    unicode::word_segmenter_state st {};
    explicit WordSteps(World const& w) { unicode::word_process_init(w.text.empty() ? U' ' : w.text[0], st); }
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        auto const at = w.text.empty() ? 0 : a.value % w.text.size();
        auto const x = w.text.empty() ? U'a' : w.text[at];
        if (a.kind == 1 && a.value % 7 == 0)
        {
            unicode::word_process_init(x, st);
            return "init";
        }
        auto const n = w.text.size() > at ? w.text.size() - at - 1 : 0;
        return unicode::word_process_breakable(x, w.text.data() + std::min(at + 1, w.text.size()), n, st) ? "break" : "join";
    }
};
struct Decoder
{
    unicode::utf8_decoder_state st {};
    explicit Decoder(World const&) {}
    static constexpr unsigned kinds = 1;
    Obs act(World const& w, Action a) { return num(unicode::from_utf8i(st, w.u8.empty() ? uint8_t { 0x41 } : static_cast<uint8_t>(w.u8[a.value % w.u8.size()]))); }
};
struct Accumulator
{
    unicode::grapheme_cluster_width_accumulator acc;
    explicit Accumulator(World const&) {}
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        if (a.kind == 1 && a.value % 5 == 0)
            acc.reset();
        else
            acc.push(w.text.empty() ? U'a' : w.text[a.value % w.text.size()]);
        return num(acc.width());
    }
};
struct Scanner
{
    unicode::scan_state st {};
    size_t at = 0;
    explicit Scanner(World const&) {}
    static constexpr unsigned kinds = 2;
    Obs act(World const& w, Action a)
    {
        auto const n = std::min<size_t>(1 + a.value % 40, w.u8.size() - at);
        ops::Digest d;
        ops::RecordingReceiver rec(d);
        auto const part = std::string_view(w.u8).substr(at, n);
        auto const limit = a.kind == 1 ? a.value % 9 : 500;
        auto const r = unicode::scan_text(st, part, limit, rec);
        // resume behind what was consumed; skip a byte that stopped the scan for good
        auto const used = static_cast<size_t>(st.next - part.data());
        auto const consumed = st.next >= part.data() && used <= n ? used : n;
        at = std::min(w.u8.size(), at + (consumed ? consumed : 1));
        return num(r.count) + " " + num(d.h) + " at " + num(at);
    }
};
struct Normalizer
{
    unicode::normalizer n;
    U32V last;
    explicit Normalizer(World const& w): n(ops::form(w.option)) {}
    Normalizer(Normalizer const& o): n(o.n) {}
    Normalizer(Normalizer&& o) noexcept: n(std::move(o.n)) {}
    Normalizer& operator=(Normalizer const& o)
    {
        last = {};
        n = o.n;
        return *this;
    }
    Normalizer& operator=(Normalizer&& o) noexcept
    {
        last = {};
        n = std::move(o.n);
        return *this;
    }
    static constexpr unsigned kinds = 3;
    Obs act(World const& w, Action a)
    {
        last = {};
        if (a.kind == 2 && a.value % 5 == 0)
            n.reset();
        else if (a.kind == 2 && a.value % 5 == 1)
            last = n.flush();
        else
            last = n.feed(w.text.empty() ? U'a' : w.text[a.value % w.text.size()]);
        return hexStr(last);
    }
    Obs held() const { return hexStr(last); }
};
struct Utf8Normalizer
{
    unicode::utf8_normalizer n;
    std::string_view last;
    explicit Utf8Normalizer(World const& w): n(ops::form(w.option)) {}
    Utf8Normalizer(Utf8Normalizer const& o): n(o.n) {}
    Utf8Normalizer(Utf8Normalizer&& o) noexcept: n(std::move(o.n)) {}
    Utf8Normalizer& operator=(Utf8Normalizer const& o)
    {
        last = {};
        n = o.n;
        return *this;
    }
    Utf8Normalizer& operator=(Utf8Normalizer&& o) noexcept
    {
        last = {};
        n = std::move(o.n);
        return *this;
    }
    static constexpr unsigned kinds = 3;
    Obs act(World const& w, Action a)
    {
        last = {};
        if (a.kind == 2 && a.value % 5 == 0)
            n.reset();
        else if (a.kind == 2 && a.value % 5 == 1)
            last = n.flush();
        else
        {
            auto const at = w.u8.empty() ? 0 : a.value % w.u8.size();
            last = n.feed(std::string_view(w.u8).substr(at, 1 + a.value % 11));
        }
        return hexBytes(last);
    }
    Obs held() const { return hexBytes(last); }
};
// }}}

template <typename Object>
void history(Case& c, World const& w, char const* name)
{
    struct Slot
    {
        std::unique_ptr<Object> object; // on the heap, so that a copy's pointer into a dead original is an ASan report
        std::vector<Action> past;
        Obs held {};
        bool holding = false;
    };
    std::string story = std::string(name) + " over " + hexStr(w.text) + " / " + hexBytes(w.u8) + " option " + num(w.option) + ":";
    std::vector<Slot> slots;
    slots.push_back({ std::make_unique<Object>(w), {} });
    size_t copies = 0, steps = 0;
    auto const say = [&](std::string const& s) {
        story += "\n  " + s;
        c.show(story);
    };
    say("new #0");
    // what the returned views of the other objects show must not change
    auto const heldViews = [&](size_t except) {
        if constexpr (requires(Object const& o) { o.held(); })
            for (size_t i = 0; i < slots.size(); ++i)
                if (i != except && slots[i].holding && slots[i].object->held() != slots[i].held)
                    c.fail("the text returned by #" + num(i) + " changed from " + slots[i].held + " to " + slots[i].object->held() + " by using #" + num(except));
    };
    for (auto n = 4 + c.draw(24); n--;)
    {
        auto const i = c.draw(slots.size());
        switch (c.draw(8))
        {
            case 0: // copy
                if (slots.size() < 5)
                {
                    say("#" + num(slots.size()) + " = copy of #" + num(i));
                    Slot s { std::make_unique<Object>(*slots[i].object), slots[i].past };
                    slots.push_back(std::move(s));
                    ++copies;
                    heldViews(slots.size() - 1);
                }
                break;
            case 1: { // copy assignment, also to itself
                auto const k = c.draw(slots.size());
                say("#" + num(i) + " = #" + num(k));
                *slots[i].object = *slots[k].object;
                slots[i].past = std::vector<Action>(slots[k].past);
                slots[i].holding = false;
                if (i != k)
                    ++copies;
                heldViews(i);
                break;
            }
            case 2: // move to another place
                say("#" + num(i) + " moved");
                {
                    auto fresh = std::make_unique<Object>(std::move(*slots[i].object));
                    slots[i].object = std::move(fresh);
                    slots[i].holding = false;
                }
                heldViews(i);
                break;
            case 3: // a temporary copy that dies, or swapping
                if (c.chance(1, 2))
                {
                    auto const k = c.draw(slots.size());
                    say("swap #" + num(i) + " #" + num(k));
                    if (i != k)
                    {
                        Object t(std::move(*slots[i].object));
                        *slots[i].object = std::move(*slots[k].object);
                        *slots[k].object = std::move(t);
                        std::swap(slots[i].past, slots[k].past);
                        slots[i].holding = slots[k].holding = false;
                    }
                }
                else if (slots.size() > 1)
                {
                    say("#" + num(i) + " dies");
                    slots.erase(slots.begin() + static_cast<long>(i));
                }
                break;
            case 4: // begin anew beside the others
                if (slots.size() < 5)
                {
                    say("new #" + num(slots.size()));
                    slots.push_back({ std::make_unique<Object>(w), {} });
                }
                break;
            default: {
                Action const a { static_cast<unsigned>(c.draw(Object::kinds)), c.draw(400) };
                say("#" + num(i) + ": action " + num(a.kind) + "/" + num(a.value));
                auto const got = slots[i].object->act(w, a);
                heldViews(i);
                slots[i].past.push_back(a);
                slots[i].held = got;
                slots[i].holding = true;
                ++steps;
                // the same history on one object of its own
                auto const lone = std::make_unique<Object>(w);
                Obs want;
                for (auto const& p: slots[i].past)
                    want = lone->act(w, p);
                if (got != want)
                    c.fail("#" + num(i) + " answers " + got + ", an object of its own with the same history answers " + want);
            }
        }
    }
    if (copies && steps > 2 && w.text.size() > 1)
        c.nontrivial(hashStr(story));
    c.evals(steps);
    c.label(std::string("object.") + name);
}

void p32(Case& c)
{
    static Pool const latin = Pool::by([](uint32_t v) { return std::tuple { ref::ccc(v), ref::W_(v), ref::G_(v) }; }, { U'a', 0x301, 0xF73, 0x1161, 0x11A8, 0xAC00, 0x1F1E6, 0x200D });
    auto t = c.chance(1, 2) ? text(c, latin, 14) : sequence(c, 8);
    std::string u8;
    for (auto const x: t)
    {
        ref::encodeUtf8(isSurrogate(x) ? char32_t { 0xFFFD } : x, u8);
        if (c.chance(1, 10))
            illFormed(c, u8);
    }
    World const w { t, u8, static_cast<unsigned>(c.draw(4)) };
    switch (c.draw(12))
    {
        case 0: history<CodepointSegmenter<unicode::grapheme_segmenter>>(c, w, "grapheme_segmenter"); break;
        case 1: history<CodepointSegmenter<unicode::word_segmenter>>(c, w, "word_segmenter"); break;
        case 2: history<Scripts>(c, w, "script_segmenter"); break;
        case 3: history<Emoji>(c, w, "emoji_segmenter"); break;
        case 4: history<Runs>(c, w, "run_segmenter"); break;
        case 5: history<Utf8Iterator>(c, w, "utf8_grapheme_segmenter::iterator"); break;
        case 6: history<GraphemeSteps>(c, w, "grapheme_segmenter_state"); break;
        case 7: history<WordSteps>(c, w, "word_segmenter_state"); break;
        case 8: c.chance(1, 2) ? history<Decoder>(c, w, "utf8_decoder_state") : history<Accumulator>(c, w, "grapheme_cluster_width_accumulator"); break;
        case 9: history<Scanner>(c, w, "scan_state"); break;
        case 10: history<Normalizer>(c, w, "normalizer"); break;
        default: history<Utf8Normalizer>(c, w, "utf8_normalizer"); break;
    }
}
} // namespace

PROPERTY({ "P32",
           "a history is non-trivial if it copies or assigns an object, asks more than two answers and the text has two or more characters",
           {
               { "histories", 400000, 4000000, p32 },
               { "long", 2000, 20000, longArm(p32, 400, 2000) },
           },
           {},
           {},
           { "a moved-from object is only destroyed or assigned to" } });

// P36 comparing, testing and printing objects tells what they are
namespace
{
template <typename Seg>
void compareSegmenters(Case& c, char const* name)
{
    static Pool const latin = Pool::by([](uint32_t v) { return std::tuple { ref::W_(v), ref::G_(v) }; }, { U'a', 0x301, 0xAC00, 0x1F1E6, 0x200D });
    auto const t1 = c.chance(1, 2) ? text(c, latin, 10) : sequence(c, 6);
    auto const same = c.chance(2, 3);
    auto const t2 = same ? t1 : c.chance(1, 2) ? text(c, latin, 10) : t1; // maybe the same characters elsewhere
    Exact<char32_t> e1 { U32V(t1) }, e2 { U32V(t2) };
    auto const v1 = e1.view();
    auto const v2 = same ? v1 : e2.view();
    // all positions of a segmenter over a text
    auto const all = [&](U32V v) {
        std::vector<Seg> r;
        Seg x = c.chance(1, 2) ? Seg(v) : Seg(v.data(), v.data() + v.size());
        r.push_back(x);
        for (size_t i = 0; i <= v.size() && x.codepointsAvailable(); ++i)
        {
            ++x;
            r.push_back(x);
        }
        return r;
    };
    auto const a = all(v1);
    auto const b = all(v2);
    auto const text1 = hexStr(v1);
    auto const what = std::string(name) + " over " + text1 + (same ? "" : " and another over " + hexStr(v2));
    c.show(what);
    Seg const none;
    if (none.codepointsAvailable() || static_cast<bool>(none) || !(*none).empty() || !(none == none))
        c.fail(std::string("a default-constructed ") + name + " is not an empty one at its end");
    {
        Seg past = none;
        ++past;
        if (past.codepointsAvailable() || !(*past).empty())
            c.fail(std::string("incrementing a default-constructed ") + name + " gives something");
    }
    for (size_t i = 0; i < a.size(); ++i)
    {
        auto const more = i + 1 < a.size();
        if (static_cast<bool>(a[i]) != more || a[i].codepointsAvailable() != more)
            c.fail(what + ": at position " + num(i) + " of " + num(a.size()) + " the truth test or codepointsAvailable() is wrong");
        if ((a[i] == none) == more || (none == a[i]) == more || (a[i] != none) != more)
            c.fail(what + ": at position " + num(i) + " the comparison with a default-constructed one does not tell whether more text follows");
        for (size_t k = 0; k < b.size(); ++k)
        {
            auto const bothLast = !more && k + 1 == b.size();
            auto const want = bothLast || (v1.data() == v2.data() && i == k);
            if ((a[i] == b[k]) != want || (b[k] == a[i]) != want || (a[i] != b[k]) == want)
                c.fail(what + ": position " + num(i) + " of " + num(a.size()) + " and position " + num(k) + " of " + num(b.size()) + (want ? " are not equal" : " are equal"));
        }
        if constexpr (std::is_same_v<Seg, unicode::word_segmenter>)
        {
            if (a[i].size() != (*a[i]).size() || a[i].empty() != (*a[i]).empty())
                c.fail(what + ": size() or empty() disagree with the segment at position " + num(i));
        }
    }
    if (a.size() > 2)
        c.nontrivial(hashOf(text1));
    c.evals(a.size() * b.size());
    c.label(std::string("compare.") + name);
}
void compareUtf8Iterators(Case& c)
{
    static Pool const any = Pool::by([](uint32_t v) { return ref::G_(v); }, { U'a', 0x301, 0xAC00, 0x1F1E6, 0x200D });
    auto const raw = bytes(c, [](Case& k) { return any.draw(k); }, { c.chance(1, 2), false, true, 10 });
    Exact<char> e { std::string_view(raw) };
    unicode::utf8_grapheme_segmenter const seg { e.view() };
    auto const what = "utf8_grapheme_segmenter over " + hexBytes(raw);
    c.show(what);
    std::vector<unicode::utf8_grapheme_segmenter::iterator> all;
    auto const end = seg.end();
    for (auto it = seg.begin(); it != end && all.size() <= raw.size(); ++it)
        all.push_back(it);
    if (all.size() > raw.size())
        c.fail(what + ": the end is never reached");
    all.push_back(end);
    if ((seg.begin() == seg.end()) != raw.empty())
        c.fail(what + ": begin() == end() does not tell whether the text is empty");
    for (size_t i = 0; i < all.size(); ++i)
        for (size_t k = 0; k < all.size(); ++k)
            if ((all[i] == all[k]) != (i == k) || (all[i] != all[k]) == (i == k))
                c.fail(what + ": clusters " + num(i) + " and " + num(k) + (i == k ? " are not equal" : " are equal"));
    for (size_t i = 0; i + 1 < all.size(); ++i)
    {
        std::ostringstream os;
        os << all[i];
        std::string want = "\"";
        for (auto const x: all[i].value())
            ref::encodeUtf8(x, want);
        want += "\"";
        if (os.str() != want)
            c.fail(what + ": cluster " + num(i) + " prints as " + hexBytes(os.str()) + " instead of " + hexBytes(want));
    }
    if (all.size() > 2)
        c.nontrivial(hashOf(raw));
    c.evals(all.size() * all.size());
    c.label("compare.utf8 iterator");
}
void compareRanges(Case& c)
{
    using Range = unicode::run_segmenter::range;
    auto const one = [&] {
        Range r {};
        r.start = c.chance(1, 8) ? static_cast<size_t>(c.draw(~0ull)) : static_cast<size_t>(c.draw(4));
        r.end = c.chance(1, 8) ? static_cast<size_t>(c.draw(~0ull)) : static_cast<size_t>(c.draw(4));
        r.properties = { static_cast<unicode::Script>(c.draw(c.chance(1, 2) ? 3 : 160)), c.chance(1, 2) ? unicode::PresentationStyle::Emoji : unicode::PresentationStyle::Text };
        return r;
    };
    auto const a = one();
    auto b = a;
    if (auto const k = c.draw(6); k == 5)
        b = one();
    else
    {
        auto const o = one();
        if (k == 1)
            b.start = o.start;
        else if (k == 2)
            b.end = o.end;
        else if (k == 3)
            std::get<0>(b.properties) = std::get<0>(o.properties);
        else if (k == 4)
            std::get<1>(b.properties) = std::get<1>(o.properties);
    }
    auto const text = [](Range const& r) {
        std::ostringstream os, want;
        os << r;
        want << '(' << r.start << ".." << r.end << ", " << std::get<0>(r.properties) << ", " << std::get<1>(r.properties) << ')';
        return std::pair { os.str(), want.str() };
    };
    auto const [pa, wa] = text(a);
    auto const [pb, wb] = text(b);
    c.show("ranges " + wa + " and " + wb);
    if (pa != wa)
        c.fail("a run prints as " + pa + " instead of " + wa);
    auto const want = a.start == b.start && a.end == b.end && std::get<0>(a.properties) == std::get<0>(b.properties) && std::get<1>(a.properties) == std::get<1>(b.properties);
    if ((a == b) != want || (b == a) != want || (a != b) == want)
        c.fail("the runs " + wa + " and " + wb + (want ? " are not equal" : " are equal"));
    c.nontrivial(hashOf(wa + wb));
    c.label("compare.run range");
}
void compareEmpty(Case& c)
{
    static Pool const any = Pool::by([](uint32_t v) { return std::tuple { ref::G_(v), ref::W_(v) }; }, { U'a', 0x301, 0xAC00, 0x1F1E6, 0x200D, 0x1F600 });
    auto const t = c.chance(1, 2) ? text(c, any, 12) : sequence(c, 6);
    auto const n = c.chance(1, 4) ? 0 : t.size();
    U32V const v(t.data(), n); // the empty text of a buffer that is not empty
    c.show("segmenters over " + hexStr(v));
    {
        unicode::emoji_segmenter none;
        size_t at = 77;
        unicode::PresentationStyle ps = unicode::PresentationStyle::Emoji;
        if (none.size() != 0 || none.consume(unicode::out(at), unicode::out(ps)) || !none.substr().empty() || !(*none).empty() || none.isEmoji() == none.isText())
            c.fail("a default-constructed emoji_segmenter is not an empty one");
        unicode::script_segmenter s0;
        if (s0.consume())
            c.fail("a default-constructed script_segmenter gives a run");
    }
    // the same text given as a view or as pointer and length, and by assignment into an object that was used before
    unicode::emoji_segmenter a { v }, b { v.data(), v.size() }, d;
    d = unicode::emoji_segmenter { v };
    unicode::script_segmenter x { v }, y { v.data(), v.size() };
    std::optional<unicode::script_segmenter> z;
    if (v.find(U'\0') == U32V::npos)
    {
        auto const terminated = U32(v) + U'\0';
        z.emplace(terminated.c_str());
        for (unicode::script_segmenter w { v };;)
        {
            auto const r = z->consume();
            auto const q = w.consume();
            if (r.has_value() != q.has_value() || (r && (r->script != q->script || r->size != q->size)))
                c.fail("script_segmenter over " + hexStr(v) + " differs for NUL-terminated text");
            if (!q)
                break;
        }
    }
    if (a.buffer() != v.data() || a.size() != v.size() || b.buffer() != v.data() || b.size() != v.size())
        c.fail("emoji_segmenter over " + hexStr(v) + " does not say which text it works on");
    for (size_t k = 0; k <= v.size() + 1; ++k)
    {
        size_t ea = 0, eb = 0, ed = 0;
        unicode::PresentationStyle pa {}, pb {}, pd {};
        auto const begin = a.currentCursorEnd();
        auto const ra = a.consume(unicode::out(ea), unicode::out(pa));
        auto const rb = b.consume(unicode::out(eb), unicode::out(pb));
        auto const rd = d.consume(unicode::out(ed), unicode::out(pd));
        if (ra != rb || ra != rd || ea != eb || ea != ed || pa != pb || pa != pd)
            c.fail("emoji_segmenter over " + hexStr(v) + ": run " + num(k) + " depends on how the segmenter was constructed");
        auto const p = x.consume();
        auto const q = y.consume();
        if (p.has_value() != q.has_value() || (p && (p->script != q->script || p->size != q->size)))
            c.fail("script_segmenter over " + hexStr(v) + ": run " + num(k) + " depends on how the segmenter was constructed");
        if (!ra)
        {
            if (k == 0 && !v.empty())
                c.fail("emoji_segmenter over " + hexStr(v) + " gives no run");
            continue;
        }
        if (a.currentCursorBegin() != begin || a.currentCursorEnd() != ea || a.substr() != v.substr(begin, ea - begin) || *a != a.substr() || a.substr().data() != v.data() + begin
            || a.isEmoji() != (pa == unicode::PresentationStyle::Emoji) || a.isText() == a.isEmoji())
            c.fail("emoji_segmenter over " + hexStr(v) + ": after run " + num(k) + " its accessors disagree with what consume() gave");
    }
    unicode::run_segmenter r1 { v }, r2 { v.data(), v.size() };
    for (size_t k = 0; k <= v.size() + 1; ++k)
    {
        unicode::run_segmenter::range g {}, h {};
        auto const f = r1.finished();
        auto const m = r1.consume(unicode::out(g));
        auto const o = r2.consume(unicode::out(h));
        if (m != o || g != h || r1.finished() != r2.finished() || m == f)
            c.fail("run_segmenter over " + hexStr(v) + ": run " + num(k) + " depends on how it was constructed, or finished() lies");
    }
    if (v.size() > 2)
        c.nontrivial(hashOf(hexStr(v)));
    c.label("compare.constructors");
}
void p36(Case& c)
{
    switch (c.draw(5))
    {
        case 0: compareSegmenters<unicode::grapheme_segmenter>(c, "grapheme_segmenter"); break;
        case 1: compareSegmenters<unicode::word_segmenter>(c, "word_segmenter"); break;
        case 2: compareUtf8Iterators(c); break;
        case 3: compareRanges(c); break;
        default: compareEmpty(c);
    }
}
} // namespace

PROPERTY({ "P36",
           "a case is non-trivial if the text has three or more positions (ranges: always)",
           {
               { "objects", 600000, 6000000, p36 },
               { "long", 400, 10000, longArm(p36, 300, 600) },
           },
           {},
           {},
           { "only iterators over one text are compared for utf8_grapheme_segmenter; positions of grapheme and word segmenters over different texts are equal only if both are at their last segment" } });
