// P12, P13, P14 scan_text; the scanning half of P03.
#include "clusters.h"
#include "simdgroups.h"

#include <libunicode/scan.h>

#include <memory>

using namespace pbt;
using namespace gen;

// Drops structurally complete sequences that do not encode a scalar value: they have no modelled width.
static std::string scalarsOnly(std::string s)
{
    for (;;) // dropping one may complete another
    {
        std::string o;
        for (auto const& u: ref::units(s))
        {
            auto const n = u.end - u.begin;
            auto const least = n == 1 ? 0u : n == 2 ? 0x80u : n == 3 ? 0x800u : 0x10000u;
            if (!u.ok || (u.value >= least && u.value < ref::MaxCp && !isSurrogate(u.value)))
                o += s.substr(u.begin, n);
        }
        if (o == s)
            return o;
        s = o;
    }
}

// {{{ model: a byte string as a sequence of things that are scanned as a whole
enum class Kind
{
    Cluster,
    Invalid,
    Control,  // stops the scan
    Pending,  // incomplete at the end of the input
};
struct Item
{
    Kind kind;
    size_t begin, end;
    size_t need;      // the widest of its prefixes: what must be left for it to be taken
    size_t width;
    bool narrows;     // some prefix is wider than the whole, or than a longer prefix
};
static std::vector<Item> itemsOf(std::string_view s)
{
    std::vector<Item> r;
    auto const u = ref::units(s);
    size_t i = 0;
    auto isControl = [&](size_t k) {
        auto const b = static_cast<uint8_t>(s[u[k].begin]);
        return b < 0x20 || (b >= 0x80 && b <= 0x9F);
    };
    while (i < u.size())
    {
        if (isControl(i))
        {
            // any byte 80..9F that starts a unit is at a character boundary
            r.push_back({ Kind::Control, u[i].begin, u[i].begin + 1, 0, 0, false });
            ++i;
            continue;
        }
        if (!u[i].ok)
        {
            bool const incomplete = i + 1 == u.size() && ref::leadLength(static_cast<uint8_t>(s[u[i].begin])) > 1;
            r.push_back({ incomplete ? Kind::Pending : Kind::Invalid, u[i].begin, u[i].end, 1, 1, false });
            ++i;
            continue;
        }
        // the text up to the next control or invalid part, cut into grapheme clusters
        size_t j = i;
        U32 text;
        while (j < u.size() && u[j].ok && !isControl(j))
            text += static_cast<char32_t>(u[j++].value);
        std::vector<size_t> cuts = ref::graphemeEnds(text);
        // an ASCII character always starts a cluster for the scanner
        for (size_t k = 1; k < text.size(); ++k)
            if (text[k] < 0x80)
                cuts.push_back(k);
        std::sort(cuts.begin(), cuts.end());
        cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
        size_t b = 0;
        for (auto const e: cuts)
        {
            Item it { Kind::Cluster, u[i + b].begin, u[i + e - 1].end, 0, 0, false };
            if (text[b] == 0x7F)
                it.need = it.width = 1; // DEL counts as text
            else
            {
                std::vector<unsigned> prefixes;
                (void) ref::clusterWidth(U32V(text).substr(b, e - b), &prefixes);
                for (auto const w: prefixes)
                {
                    it.narrows = it.narrows || w < it.width;
                    it.width = w;
                    it.need = std::max<size_t>(it.need, w);
                }
            }
            r.push_back(it);
            b = e;
        }
        i = j;
    }
    return r;
}
struct Collector final: unicode::grapheme_cluster_receiver
{
    struct Piece
    {
        char what; // a, c, i
        std::string text;
        size_t columns;
    };
    std::vector<Piece> pieces;
    size_t invalid = 0;
    void receiveAsciiSequence(std::string_view s) noexcept override { pieces.push_back({ 'a', std::string(s), s.size() }); }
    void receiveGraphemeCluster(std::string_view s, size_t n) noexcept override { pieces.push_back({ 'c', std::string(s), n }); }
    void receiveInvalidGraphemeCluster() noexcept override
    {
        pieces.push_back({ 'i', "", 1 });
        ++invalid;
    }
    std::string all() const
    {
        std::string o;
        for (auto const& p: pieces)
            o += p.text;
        return o;
    }
};
constexpr size_t Unlimited = 100000000;

static bool isC0C1(char32_t c) { return c < 0x20 || (c >= 0x7F && c < 0xA0); }
static void withoutControls(U32& s)
{
    for (auto& x: s)
        if (isC0C1(x) || isSurrogate(x))
            x = U'x';
}
static U32 plainText(Case& c, size_t pieces)
{
    U32 s;
    for (auto k = 1 + c.draw(pieces); k > 0; --k)
        switch (c.draw(4))
        {
            case 0: {
                auto const n = c.chance(1, 6) ? c.draw(150) : c.draw(5);
                for (size_t j = 0; j < n; ++j)
                    s += static_cast<char32_t>(c.range(0x20, 0x7E));
                break;
            }
            case 1: s += c.pick(clusterPool().hot); break;
            default: s += shortSequence(c, 4);
        }
    stretch(c, s);
    withoutControls(s);
    return s;
}
static std::string itemText(std::vector<Item> const& v)
{
    std::string o;
    for (auto const& i: v)
        o += std::string(1, "cixp"[static_cast<int>(i.kind)]) + std::to_string(i.begin) + "-" + std::to_string(i.end) + ":" + std::to_string(i.width) + " ";
    return o;
}
// }}}

// {{{ P12
template <typename What>
static void wholeText(Case& c, std::string const& s, size_t stop, bool viaNull, What const& describe)
{
    // stop: offset of the control the scan has to stop at (or the size of the text)
    auto const items = itemsOf(std::string_view(s).substr(0, stop));
    size_t width = 0;
    for (auto const& i: items)
        width += i.width;
    Exact<char> copy { std::string_view(s) };
    auto const v = copy.view();
    unicode::scan_state state;
    Collector rec;
    auto const limit = c.chance(1, 2) ? Unlimited : std::max<size_t>(width + 2 * s.size(), 1);
    auto const r = viaNull ? unicode::scan_text(state, v, limit) : unicode::scan_text(state, v, limit, rec);
    if (r.start != v.data() || r.end != v.data() + stop || state.next != v.data() + stop)
        c.fail(describe() + ": scanned " + std::to_string(r.start - v.data()) + ".." + std::to_string(r.end - v.data()) + ", next " + std::to_string(state.next - v.data())
               + ", expected 0.." + std::to_string(stop) + " of " + hexBytes(s));
    if (r.count != width)
        c.fail(describe() + ": " + std::to_string(r.count) + " columns, the clusters of the text add up to " + std::to_string(width) + " " + hexBytes(s));
    if (viaNull)
        return;
    if (rec.invalid)
        c.fail(describe() + ": well-formed text reported as invalid " + hexBytes(s));
    if (rec.all() != s.substr(0, stop))
        c.fail(describe() + ": the receiver got " + hexBytes(rec.all()) + " of " + hexBytes(s.substr(0, stop)));
    size_t pos = 0, k = 0;
    for (auto const& p: rec.pieces)
    {
        if (p.what == 'a')
        {
            for (char ch: p.text)
                if (static_cast<uint8_t>(ch) >= 0x80)
                    c.fail(describe() + ": an ASCII sequence with the bytes " + hexBytes(p.text));
            pos += p.text.size();
            while (k < items.size() && items[k].end <= pos)
                ++k;
            continue;
        }
        while (k < items.size() && items[k].begin < pos)
            ++k;
        // a cluster: exactly one of the text's clusters, or what follows the ASCII base of one
        auto j = std::lower_bound(items.begin(), items.end(), pos + p.text.size(), [](Item const& i, size_t e) { return i.end < e; });
        if (j != items.end() && j->end != pos + p.text.size())
            j = items.end();
        bool const whole = j != items.end() && j->begin == pos;
        bool const tail = j != items.end() && j->begin + 1 == pos && static_cast<uint8_t>(s[j->begin]) < 0x80;
        if (!whole && !tail)
            c.fail(describe() + ": the receiver got " + hexBytes(p.text) + " as a cluster; clusters are " + itemText(items) + " in " + hexBytes(s));
        if (whole && p.columns != j->width)
            c.fail(describe() + ": the receiver was told " + std::to_string(p.columns) + " columns for " + hexBytes(p.text) + ", which is " + std::to_string(j->width) + " wide");
        pos += p.text.size();
    }
}
static void p12Texts(Case& c)
{
    auto const t = plainText(c, 8);
    auto const s = ref::utf8(t);
    c.show("text " + hexStr(t));
    size_t want = 0;
    for (auto const& i: itemsOf(s))
        want += i.width;
    // an independent route to the expected width: the grapheme clusters of the text
    if (want != ref::stringWidth(t))
        c.label("prepend-before-ascii-differs");
    if (t.size() > 1 && s.size() > t.size())
        c.nontrivial(hashOf(t));
    wholeText(c, s, s.size(), c.chance(1, 4), [&] { return "scan of " + hexStr(t); });
    Exact<char> copy { std::string_view(s) };
    unicode::scan_state st;
    auto const n = unicode::scan_text(st, copy.view(), Unlimited).count;
    if (n != ref::stringWidth(t))
        c.fail("scan of " + hexStr(t) + " counts " + std::to_string(n) + " columns, its grapheme clusters are " + std::to_string(ref::stringWidth(t)) + " wide");
}
static void p12Controls(Case& c)
{
    auto const t = plainText(c, 5);
    auto s = ref::utf8(t);
    auto const stop = s.size();
    s += c.chance(1, 2) ? static_cast<char>(c.draw(0x20)) : static_cast<char>(0x80 + c.draw(0x20));
    s += ref::utf8(plainText(c, 3));
    if (c.chance(1, 4))
        s += static_cast<char>(c.draw(0x20));
    c.show("bytes " + hexBytes(s) + " control at " + std::to_string(stop));
    if (t.size() > 1)
        c.nontrivial(hashOf(s));
    wholeText(c, s, stop, c.chance(1, 4), [] { return std::string("scan up to a control"); });
}
// DEL is text of one column that nothing joins, whatever stands around it
static void p12Del(Case& c)
{
    auto t = plainText(c, 5);
    for (auto k = 1 + c.draw(3); k > 0; --k)
        t.insert(c.draw(t.size() + 1), 1, char32_t(0x7F));
    auto const s = ref::utf8(t);
    c.show("text " + hexStr(t));
    if (s.size() > t.size())
        c.nontrivial(hashOf(t));
    wholeText(c, s, s.size(), c.chance(1, 4), [&] { return "scan of " + hexStr(t); });
}
constexpr uint64_t Chunk = 0x200;
static void p12Every(Case& c)
{
    auto const k = c.index(ref::MaxCp / Chunk);
    static U32 const before[] = { U"", U"a", U"\x7F", U"\u4E2D", U"\u0915\u094D", U"\u2764" };
    static U32 const after[] = { U"", U"b\u0301", U"\uFE0F" };
    uint64_t n = 0;
    for (auto cp = static_cast<char32_t>(k * Chunk); cp < (k + 1) * Chunk; ++cp)
    {
        if (isC0C1(cp) || isSurrogate(cp))
            continue;
        for (auto const& b: before)
            for (auto const& a: after)
            {
                auto const t = b + U32(1, cp) + a;
                auto const s = ref::utf8(t);
                wholeText(c, s, s.size(), false, [&] { return "scan of " + hexStr(t); });
                ++n;
            }
    }
    c.evals(n);
    c.nontrivial(k);
}
// }}}

// {{{ P13
static void p13Limits(Case& c)
{
    bool const wild = c.chance(1, 3); // with controls and ill-formed bytes
    std::string s;
    if (wild)
        s = bytes(c, [](Case& c) { return clusterPool().draw(c); }, { .ill = true, .nonscalar = false, .controls = true, .max = 14 }), s = scalarsOnly(s);
    else
        s = ref::utf8(plainText(c, 6));
    auto const items = itemsOf(s);
    size_t needMax = 1, width = 0, invalid = 0;
    for (auto const& i: items)
    {
        needMax = std::max(needMax, i.need);
        if (i.kind != Kind::Pending)
            width += i.width;
        invalid += i.kind == Kind::Invalid;
    }
    c.show("bytes " + hexBytes(s) + " items " + itemText(items));
    Exact<char> copy { std::string_view(s) };
    auto const v = copy.view();
    unicode::scan_state state;
    Collector rec;
    std::string delivered;
    size_t pos = 0, k = 0, total = 0, calls = 0, stopped = 0;
    bool force = false;
    std::string log;
    while (pos < s.size())
    {
        if (++calls > 4 * s.size() + 20)
            c.fail("no progress after " + std::to_string(calls) + " calls on " + hexBytes(s) + log);
        size_t const limit = force                                      ? needMax + c.draw(3)
                             : c.chance(1, 8)                           ? Unlimited
                             : longMode().max && c.chance(1, 2) ? c.draw(s.size() + 1)
                                                                        : c.draw(needMax + 4);
        bool const wide = limit >= needMax;
        log += " limit " + std::to_string(limit) + ":";
        auto const r = unicode::scan_text(state, v.substr(pos), limit, rec);
        // model
        size_t count = 0, end = pos, j = k;
        bool atControl = false, pending = false, full = false;
        while (j < items.size())
        {
            auto const& i = items[j];
            if (i.kind == Kind::Control)
            {
                atControl = true;
                break;
            }
            if (i.kind == Kind::Pending)
            {
                pending = true;
                break;
            }
            if (count + i.need > limit)
            {
                full = true;
                break;
            }
            count += i.width;
            end = i.end;
            ++j;
        }
        auto const next = pending ? s.size() : end;
        log += " count " + std::to_string(r.count) + " next " + std::to_string(state.next - v.data()) + ";";
        if (r.count > limit)
            c.fail("a limit of " + std::to_string(limit) + " columns gave " + std::to_string(r.count) + " on " + hexBytes(s) + log);
        if (static_cast<size_t>(state.next - v.data()) != next || r.count != count || r.start != v.data() + pos || static_cast<size_t>(r.end - v.data()) != end)
            c.fail("from " + std::to_string(pos) + " with limit " + std::to_string(limit) + ": " + std::to_string(r.start - v.data()) + ".." + std::to_string(r.end - v.data()) + " next "
                   + std::to_string(state.next - v.data()) + " count " + std::to_string(r.count) + ", expected " + std::to_string(pos) + ".." + std::to_string(end) + " next "
                   + std::to_string(next) + " count " + std::to_string(count) + " on " + hexBytes(s) + " items " + itemText(items) + log);
        stopped += full;
        total += r.count;
        delivered += s.substr(pos, end - pos);
        k = j;
        pos = next;
        if (atControl)
        {
            delivered += s[pos];
            ++pos;
            ++k;
            force = false;
        }
        else
        {
            if (wide && full && count == 0)
                c.fail("a limit wide enough for the next cluster made no progress on " + hexBytes(s) + log);
            force = full && count == 0;
        }
        if (c.chance(1, 2))
            state.next = nullptr; // both are ways to resume
    }
    if (stopped)
        c.nontrivial(hashOf(s));
    c.label(wild ? "with-ill-formed" : "well-formed");
    if (total != width)
        c.fail("the calls add up to " + std::to_string(total) + " columns, the text has " + std::to_string(width) + ": " + hexBytes(s) + log);
    if (rec.invalid != invalid)
        c.fail(std::to_string(rec.invalid) + " invalid notifications instead of " + std::to_string(invalid) + ": " + hexBytes(s) + log);
    if (!wild && rec.all() != s)
        c.fail("the receiver got " + hexBytes(rec.all()) + " in " + std::to_string(calls) + " calls, the text is " + hexBytes(s) + log);
}
// every small combination of text pieces and limit
static std::vector<std::string> const& pieces()
{
    static std::vector<std::string> const v = [] {
        std::vector<std::string> r;
        for (auto const& t: { U"a", U"1", U"\u0301", U"\x7F", U"\uFE0F", U"\uFE0E", U"\u4E2D", U"\u0903", U"\u2764", U"\u231A", U"\U0001F1E6", U"\u200D", U"\U0001F468", U"\u0915", U"\u094D", U"\U0001F3FB", U"\u200B" })
            r.push_back(ref::utf8(t));
        return r;
    }();
    return v;
}
template <size_t N>
static uint64_t nPieces()
{
    uint64_t n = 1;
    for (size_t i = 0; i < N; ++i)
        n *= pieces().size();
    return n;
}
template <size_t N>
static void p13Small(Case& c)
{
    auto k = c.index(nPieces<N>());
    std::string s;
    for (size_t i = 0; i < N; ++i)
    {
        s += pieces()[k % pieces().size()];
        k /= pieces().size();
    }
    auto const items = itemsOf(s);
    c.show("bytes " + hexBytes(s));
    c.nontrivial(hashOf(s));
    Exact<char> copy { std::string_view(s) };
    auto const v = copy.view();
    size_t total = 0;
    for (auto const& i: items)
        total += i.width;
    for (size_t limit = 0; limit <= 2 * N + 1; ++limit)
    {
        unicode::scan_state state;
        auto const r = unicode::scan_text(state, v, limit);
        size_t count = 0, end = 0;
        for (auto const& i: items)
        {
            if (count + i.need > limit)
                break;
            count += i.width;
            end = i.end;
        }
        if (r.count != count || r.end != v.data() + end || state.next != v.data() + end || r.start != v.data())
            c.fail("limit " + std::to_string(limit) + ": count " + std::to_string(r.count) + " end " + std::to_string(r.end - v.data()) + " next " + std::to_string(state.next - v.data())
                   + ", expected count " + std::to_string(count) + " end " + std::to_string(end) + " for " + hexBytes(s) + " items " + itemText(items));
        auto const rest = unicode::scan_text(state, v.substr(end), Unlimited);
        if (r.count + rest.count != total || state.next != v.data() + s.size())
            c.fail("limit " + std::to_string(limit) + " then the rest: " + std::to_string(r.count) + " + " + std::to_string(rest.count) + " columns instead of " + std::to_string(total) + " for "
                   + hexBytes(s));
    }
    c.evals(2 * N + 2);
}
// }}}

// {{{ P14
struct ScanOutcome
{
    size_t count = 0, invalid = 0;
    std::vector<size_t> stops;
};
// Scans the chunks the way a terminal does: skip the control it stopped at and go on.
// Without contiguous, every chunk is a heap block of its own, so reading outside it is an error.
// Every call has to hand its receiver the bytes it took that belong to well-formed characters
// (marked in text, if given), without those of a character that is not complete yet.
static ScanOutcome scanChunks(Case& c, std::string const& s, std::vector<size_t> const& cuts, bool contiguous, bool limits, std::string& log, std::vector<bool> const* text = nullptr)
{
    ScanOutcome o;
    unicode::scan_state state;
    Collector rec;
    Exact<char> all { std::string_view(s) };
    std::vector<std::unique_ptr<Exact<char>>> keep;
    size_t begin = 0;
    size_t seq = 0; // bytes pending from earlier chunks
    for (size_t ci = 0; ci <= cuts.size(); ++ci)
    {
        auto const end = ci < cuts.size() ? cuts[ci] : s.size();
        std::string_view chunk;
        if (contiguous)
            chunk = all.view().substr(begin, end - begin);
        else
        {
            keep.push_back(std::make_unique<Exact<char>>(std::string_view(s).substr(begin, end - begin)));
            chunk = keep.back()->view();
            if (c.chance(1, 2))
                state.next = nullptr;
        }
        auto const base = chunk.data();
        size_t guard = 0, lim = limits ? c.draw(6) : Unlimited;
        if (limits && longMode().max && c.chance(1, 2))
            lim = c.draw(s.size() + 1);
        log += " |";
        for (;;)
        {
            if (++guard > 6 * s.size() + 40)
                c.fail("no progress in the chunk at " + std::to_string(begin) + " of " + hexBytes(s) + log);
            auto const before = rec.pieces.size();
            auto const r = unicode::scan_text(state, chunk, lim, rec);
            log += " count " + std::to_string(r.count) + " next " + std::to_string(begin + static_cast<size_t>(state.next - base)) + ";";
            if (state.next < chunk.data() || state.next > chunk.data() + chunk.size())
                c.fail("resume position outside of the chunk at " + std::to_string(begin) + " of " + hexBytes(s) + log);
            if (r.start > r.end || r.end > state.next || r.start + (contiguous ? begin : seq) < chunk.data() - (contiguous ? 0 : 0))
                c.fail("range " + std::to_string(r.start - base) + ".." + std::to_string(r.end - base) + " next " + std::to_string(state.next - base) + " for the chunk at "
                       + std::to_string(begin) + " of " + hexBytes(s) + log);
            if (r.count > lim)
                c.fail("a limit of " + std::to_string(lim) + " columns gave " + std::to_string(r.count) + " on " + hexBytes(s) + log);
            o.count += r.count;
            seq = state.utf8.expectedLength ? state.utf8.currentLength : 0;
            if (contiguous && r.end != state.next - seq)
                c.fail("the range ends at " + std::to_string(r.end - all.view().data()) + ", not behind the last complete character at "
                       + std::to_string(state.next - seq - all.view().data()) + " of " + hexBytes(s) + log);
            if (text)
            {
                std::string want, given;
                auto const from = begin + static_cast<size_t>(chunk.data() - base), to = begin + static_cast<size_t>(state.next - base);
                for (auto i = from; i + seq < to; ++i)
                    if ((*text)[i])
                        want += s[i];
                for (auto i = before; i < rec.pieces.size(); ++i)
                    given += rec.pieces[i].text;
                if (given != want)
                    c.fail("of the bytes " + std::to_string(from) + ".." + std::to_string(to) + " the receiver got " + hexBytes(given) + " instead of " + hexBytes(want) + ": " + hexBytes(s) + log);
            }
            bool const progress = r.count > 0 || state.next != chunk.data();
            chunk.remove_prefix(static_cast<size_t>(state.next - chunk.data()));
            if (chunk.empty())
                break;
            auto const b = static_cast<uint8_t>(chunk.front());
            bool const control = state.utf8.expectedLength == 0 && (b < 0x20 || (b >= 0x80 && b <= 0x9F));
            if (control && (!progress || !limits || r.count < lim))
            {
                o.stops.push_back(begin + static_cast<size_t>(chunk.data() - base));
                log += " stop " + std::to_string(o.stops.back());
                chunk.remove_prefix(1);
                if (chunk.empty())
                    break;
                continue;
            }
            if (!limits)
                c.fail("scanning stopped at offset " + std::to_string(begin + static_cast<size_t>(chunk.data() - base)) + " without a control or a limit: " + hexBytes(s) + log);
            lim = progress ? c.draw(6) : lim + 1 + c.draw(3);
        }
        begin = end;
    }
    o.invalid = rec.invalid;
    return o;
}
static void compareChunks(Case& c, std::string const& s, std::vector<size_t> const& cuts, bool contiguous, bool limits)
{
    ScanOutcome want;
    bool narrowed = false;
    auto const items = itemsOf(s);
    std::vector<bool> text(s.size());
    for (auto const& i: items)
    {
        if (i.kind == Kind::Cluster)
            std::fill(text.begin() + static_cast<ptrdiff_t>(i.begin), text.begin() + static_cast<ptrdiff_t>(i.end), true);
        if (i.kind == Kind::Control)
            want.stops.push_back(i.begin);
        else if (i.kind != Kind::Pending)
        {
            want.count += i.width;
            want.invalid += i.kind == Kind::Invalid;
        }
        // columns already reported for an earlier chunk's part of a cluster cannot be taken back
        if (i.narrows)
            for (auto x: cuts)
                narrowed = narrowed || (x > i.begin && x < i.end);
    }
    std::string log;
    auto const got = scanChunks(c, s, cuts, contiguous, limits, log, &text);
    auto const where = hexBytes(s) + " cut at " + list(cuts) + (contiguous ? " (contiguous)" : "") + " items " + itemText(items) + log;
    if (narrowed)
        c.label("narrowed-across-chunks");
    if (narrowed ? got.count < want.count : got.count != want.count)
        c.fail(std::to_string(got.count) + " columns in chunks, " + std::to_string(want.count) + " expected: " + where);
    if (got.invalid != want.invalid)
        c.fail(std::to_string(got.invalid) + " invalid notifications in chunks, " + std::to_string(want.invalid) + " expected: " + where);
    if (got.stops != want.stops)
        c.fail("stopped at " + list(got.stops) + " in chunks, the controls are at " + list(want.stops) + ": " + where);
}
static std::string anyBytes(Case& c, size_t max)
{
    auto s = bytes(c, [](Case& c) { return c.chance(1, 12) ? static_cast<char32_t>(c.draw(0xA0)) : clusterPool().draw(c); }, { .ill = true, .nonscalar = false, .controls = true, .max = max });
    return scalarsOnly(s);
}
static std::vector<size_t> drawCuts(Case& c, size_t n)
{
    std::vector<size_t> cuts;
    if (c.chance(1, 8)) // byte by byte
    {
        for (size_t i = 1; i < n; ++i)
            cuts.push_back(i);
        return cuts;
    }
    for (auto k = 1 + c.draw(5); k > 0 && n; --k)
        cuts.push_back(c.draw(n + 1));
    std::sort(cuts.begin(), cuts.end());
    return cuts;
}
static void p14Chunks(Case& c)
{
    auto const s = anyBytes(c, 16);
    auto const cuts = drawCuts(c, s.size());
    bool const contiguous = c.chance(1, 3);
    c.show("bytes " + hexBytes(s) + " cuts " + list(cuts));
    bool inside = false, ill = false;
    for (auto const& i: itemsOf(s))
    {
        for (auto x: cuts)
            inside = inside || (x > i.begin && x < i.end);
        ill = ill || i.kind == Kind::Invalid;
    }
    if (inside)
        c.nontrivial(hashOf(s));
    if (ill)
        c.label("with-ill-formed");
    compareChunks(c, s, {}, false, false);
    compareChunks(c, s, cuts, contiguous, false);
}
static void p14Limits(Case& c)
{
    auto const s = anyBytes(c, 12);
    auto const cuts = drawCuts(c, s.size());
    c.show("bytes " + hexBytes(s) + " cuts " + list(cuts));
    if (!cuts.empty() && s.size() > 3)
        c.nontrivial(hashOf(s));
    compareChunks(c, s, cuts, c.chance(1, 3), true);
}
// every way to cut short texts in two and three
static void p14AllCuts(Case& c)
{
    auto s = anyBytes(c, 5);
    if (s.size() > 24)
        s.resize(24);
    c.show("bytes " + hexBytes(s));
    if (s.size() > 2)
        c.nontrivial(hashOf(s));
    uint64_t n = 0;
    for (size_t i = 0; i <= s.size(); ++i)
        for (size_t j = i; j <= s.size(); ++j)
        {
            compareChunks(c, s, { i, j }, (i + j) % 3 == 0, false);
            ++n;
        }
    c.evals(n);
}
// Structurally complete but non-scalar sequences have no modelled width: chunked equals unchunked.
static void p14NonScalar(Case& c)
{
    auto const s = bytes(c, [](Case& c) { return clusterPool().draw(c); }, { .ill = true, .nonscalar = true, .controls = true, .max = 12 });
    auto const cuts = drawCuts(c, s.size());
    c.show("bytes " + hexBytes(s) + " cuts " + list(cuts));
    for (auto const& i: itemsOf(s))
        if (i.narrows)
            return;
    if (!cuts.empty() && s.size() > 3)
        c.nontrivial(hashOf(s));
    std::string la, lb;
    auto const a = scanChunks(c, s, {}, false, false, la);
    auto const b = scanChunks(c, s, cuts, false, false, lb);
    if (a.count != b.count || a.invalid != b.invalid || a.stops != b.stops)
        c.fail("in chunks " + std::to_string(b.count) + " columns, " + std::to_string(b.invalid) + " invalid, stops " + list(b.stops) + "; at once " + std::to_string(a.count) + ", "
               + std::to_string(a.invalid) + ", " + list(a.stops) + ": " + hexBytes(s) + " cut at " + list(cuts) + lb);
}
// }}}

// {{{ P03: ASCII runs
static size_t asciiRun(std::string_view s, size_t limit)
{
    size_t n = 0;
    while (n < s.size() && n < limit && static_cast<uint8_t>(s[n]) >= 0x20 && static_cast<uint8_t>(s[n]) < 0x80)
        ++n;
    return n;
}
static void checkRun(Case& c, std::string const& s, size_t off, size_t limit)
{
    std::unique_ptr<char[]> buf(new char[off + s.size()]);
    memcpy(buf.get() + off, s.data(), s.size());
    std::string_view const v(buf.get() + off, s.size());
    unicode::scan_state state;
    Collector rec;
    auto const r = unicode::scan_text(state, v, limit, rec);
    auto const run = asciiRun(v, limit);
    auto const where = "length " + std::to_string(s.size()) + " offset " + std::to_string(off) + " limit " + std::to_string(limit) + " " + hexBytes(s);
    if (run == s.size() || run == limit || static_cast<uint8_t>(s[run]) < 0x20 || (static_cast<uint8_t>(s[run]) >= 0x80 && static_cast<uint8_t>(s[run]) < 0xA0))
    {
        // (at the limit, a zero-width continuation may still be taken; the tails here have none)
        if (r.count != run || r.end != v.data() + run || state.next != v.data() + run || rec.all() != s.substr(0, run))
            c.fail("ASCII run: count " + std::to_string(r.count) + " next " + std::to_string(state.next - v.data()) + ", a byte loop finds " + std::to_string(run) + ": " + where);
        return;
    }
    if (rec.all().substr(0, run) != s.substr(0, run))
        c.fail("ASCII run: receiver got " + hexBytes(rec.all()) + ": " + where);
    auto const items = itemsOf(s);
    size_t count = 0, end = 0;
    bool pending = false;
    for (auto const& i: items)
    {
        pending = i.kind == Kind::Pending;
        if (i.kind == Kind::Control || pending || count + i.need > limit)
            break;
        count += i.width;
        end = i.end;
    }
    if (r.count != count || r.end != v.data() + end || state.next != v.data() + (pending ? s.size() : end))
        c.fail("text behind an ASCII run: count " + std::to_string(r.count) + " end " + std::to_string(r.end - v.data()) + ", expected " + std::to_string(count) + ", " + std::to_string(end) + ": "
               + where);
}
static void p03Runs(Case& c)
{
    auto const len = c.index(281);
    static std::string const tails[] = { "", "\n", "\x1F", std::string(1, '\0'), "\x80", "\x9F", "\xC3\xA4", "\xE4\xB8\xAD", "\xFF", "\x7F\x01", " \x1B[m" };
    uint64_t n = 0;
    auto const salt = c.draw(95);
    for (auto const& tail: tails)
        for (size_t off: { size_t(0), size_t(1), static_cast<size_t>(c.draw(64)) })
        {
            std::string s;
            for (size_t i = 0; i < len; ++i)
                s += static_cast<char>(0x20 + (i * 37 + salt + len) % 96); // every value 20..7F
            s += tail;
            for (bool more: { false, true })
            {
                if (more)
                    s.append(70, 'q');
                for (size_t limit: { Unlimited, len, len ? len - 1 : 0, len + 1, static_cast<size_t>(c.draw(len + 2)) })
                {
                    checkRun(c, s, off, limit);
                    ++n;
                }
            }
        }
    c.evals(n);
    c.nontrivial(len);
}
// one special byte at every position of vectors of every length
static void p03Positions(Case& c)
{
    auto const k = c.index(200);
    uint64_t n = 0;
    static const uint8_t special[] = { 0x00, 0x01, 0x0A, 0x1B, 0x1F, 0x80, 0x9F, 0xFF, 0xC3, 0xF0, 0x7F, 0x20 };
    auto const total = k + 1 + c.draw(140);
    for (auto sp: special)
    {
        std::string s(total, 'A');
        s[k] = static_cast<char>(sp);
        checkRun(c, s, c.draw(64), Unlimited);
        checkRun(c, s, 0, c.draw(total + 2));
        n += 2;
    }
    c.evals(n);
    c.nontrivial(k);
}
static void p03ScanRandom(Case& c)
{
    // whole scans, any bytes: against the model, in every group
    auto const s = anyBytes(c, 14);
    c.show("bytes " + hexBytes(s));
    if (s.size() >= 16)
        c.nontrivial(hashOf(s));
    compareChunks(c, s, {}, false, false);
}
// }}}

PROPERTY({ "P12",
           "a text is non-trivial if it has two or more characters, one of them non-ASCII; exhaustive arms count blocks of codepoints",
           {
               { "texts", 150000, 4000000, p12Texts },
               { "control-stop", 80000, 2000000, p12Controls },
               { "del", 40000, 1000000, p12Del },
               { "long", 1500, 50000, longArm(p12Texts) },
               { "long-control-stop", 500, 20000, longArm(p12Controls) },
               { "every-codepoint", ref::MaxCp / Chunk, ref::MaxCp / Chunk, p12Every, true },
           },
           {},
           {},
           { "an ASCII character always starts a new cluster for scan_text, also behind a prepended mark (GB9b); the widths are the same",
             "DEL is scanned as text of one column" } });
PROPERTY({ "P13",
           "a case is non-trivial if a column limit stops the scan at least once",
           {
               { "limits", 200000, 5000000, p13Limits },
               { "long", 1500, 50000, longArm(p13Limits) },
               { "chunks", 60000, 1500000, p14Limits },
               { "long-chunks", 400, 15000, longArm(p14Limits) },
               { "small-3", nPieces<3>(), nPieces<3>(), p13Small<3>, true },
               { "small-4", 0, nPieces<4>(), p13Small<4>, true },
           },
           {},
           {},
           { "a cluster fits if the widest of its prefixes fits: VS15 may narrow a cluster after it was measured",
             "an ASCII character always starts a new cluster for scan_text" } });
PROPERTY({ "P14",
           "a byte string is non-trivial if a chunk boundary falls inside a character, cluster or ill-formed part (arm chunks), or it has several bytes and cuts",
           {
               { "chunks", 200000, 5000000, p14Chunks },
               { "chunks-and-limits", 120000, 3000000, p14Limits },
               { "long", 1000, 30000, longArm(p14Chunks) },
               { "long-limits", 500, 20000, longArm(p14Limits) },
               { "all-cuts", 8000, 200000, p14AllCuts },
               { "non-scalar", 50000, 1000000, p14NonScalar },
           },
           {},
           {},
           { "columns reported for a wide character cannot be taken back when a VS15 arrives in a later chunk: there only 'at least' is checked" } });
PROPERTY({ "P03",
           "a case is non-trivial if it covers one run length or one position of the special byte, or is a byte string of at least one vector",
           inAllGroups({
               { "scan-runs", 281, 281, p03Runs, true },
               { "scan-positions", 200, 200, p03Positions, true },
               { "scan-random", 60000, 1500000, p03ScanRandom },
               { "scan-long", 1000, 30000, longArm(p03ScanRandom) },
           }),
           simdSetup,
           simdEnabled,
           {} });
