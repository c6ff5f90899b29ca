// P42 no length of text is special: counts, positions and lengths are exact for texts of any size.
//
// Texts are periodic: a drawn motif over and over. What the library says about such a text (how many
// clusters, runs, columns, elements of output) grows by the same amount for every twelve repeats, once
// there are a few of them; so the answer for a huge text follows from the answers for two small ones.
// Texts of more than 2^31 or 2^32 elements are one small file mapped over and over.
#include "clusters.h"

#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

#include <array>
#include <fcntl.h>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

using namespace pbt;
using namespace gen;

// {{{ memory that is larger than it is
namespace
{
// A file of a few megabytes, mapped over and over.
class Repeated
{
  public:
    Repeated() = default;
    Repeated(Repeated const&) = delete;
    Repeated& operator=(Repeated const&) = delete;
    Repeated(char const* chunk, size_t chunkSize, size_t bytes) { map(chunk, chunkSize, bytes); }
    bool map(char const* chunk, size_t chunkSize, size_t bytes)
    {
        int fd = memfd_create("pbt", 0);
        if (fd < 0)
        {
            char path[] = "/tmp/pbt-XXXXXX";
            fd = mkstemp(path);
            unlink(path);
        }
        if (fd < 0 || ftruncate(fd, static_cast<off_t>(chunkSize)) != 0)
            return false;
        size_ = (bytes + chunkSize - 1) / chunkSize * chunkSize;
        void* p = mmap(nullptr, size_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            close(fd);
            return false;
        }
        base_ = static_cast<char*>(p);
        for (size_t o = 0; o < size_; o += chunkSize)
            if (mmap(base_ + o, chunkSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            {
                close(fd);
                return false;
            }
        close(fd);
        if (chunk)
            memcpy(base_, chunk, chunkSize);
        return true;
    }
    ~Repeated()
    {
        if (base_)
            munmap(base_, size_);
    }
    char* data() const { return base_; }

  private:
    char* base_ = nullptr;
    size_t size_ = 0;
};
// While this is on, large allocations are such memory, too. Their contents are of no use then, but their sizes are.
bool hugeOutput = false;
struct Given
{
    void* p;
    Repeated* m;
} given[64];
} // namespace

void* operator new(size_t n)
{
    if (hugeOutput && n >= (size_t { 256 } << 20))
        for (auto& g: given)
            if (!g.p)
            {
                hugeOutput = false;
                g.m = new Repeated;
                bool const ok = g.m->map(nullptr, size_t { 8 } << 20, n);
                hugeOutput = true;
                if (!ok)
                {
                    delete g.m;
                    throw std::bad_alloc();
                }
                return g.p = g.m->data();
            }
    if (void* p = malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept
{
    if (hugeOutput || given[0].p)
        for (auto& g: given)
            if (p && g.p == p)
            {
                g.p = nullptr;
                auto* m = g.m;
                g.m = nullptr;
                delete m;
                return;
            }
    free(p);
}
void operator delete(void* p, size_t) noexcept
{
    operator delete(p);
}
// }}}

namespace
{
using Answer = std::vector<uint64_t>;

// {{{ operations whose answers grow linearly with a periodic text
struct Text
{
    U32V t;
    std::string_view u;
    bool contents = true; // of the output can be looked at
};
template <typename S>
Answer output(Text const& x, S const& s)
{
    Answer a { s.size(), 0, 0 };
    if (x.contents)
        for (auto const ch: s)
        {
            auto const v = static_cast<uint64_t>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(ch) == 1, char, std::conditional_t<sizeof(ch) == 2, uint16_t, uint32_t>>>>(ch));
            a[1] += v;
            a[2] += v * v;
        }
    return a;
}
template <typename Seg>
Answer pieces(Seg seg, size_t max = ~size_t {})
{
    Answer a { 0, 0, 0 };
    for (;;)
    {
        auto const n = (*seg).size();
        ++a[0];
        a[1] += n;
        a[2] += n < 7 ? n : 7;
        if (!seg.codepointsAvailable() || a[0] >= max)
            return a;
        ++seg;
    }
}
template <typename Seg, typename Prop>
Answer runs(Seg seg, size_t max = ~size_t {})
{
    size_t end = 0, last = 0;
    Prop prop {};
    Answer a { 0, 0, 0, 0 };
    while (a[0] < max && seg.consume(unicode::out(end), unicode::out(prop)))
    {
        ++a[0];
        a[1] += end - last;
        a[2] += (static_cast<uint64_t>(prop) + 1) * (end - last);
        a[3] += static_cast<uint64_t>(prop) + 1;
        last = end;
    }
    a.push_back(last);
    return a;
}
Answer bothRuns(U32V t, size_t max = ~size_t {})
{
    unicode::run_segmenter seg(t);
    unicode::run_segmenter::range r {};
    Answer a { 0, 0, 0, 0 };
    size_t last = 0;
    while (a[0] < max && seg.consume(unicode::out(r)))
    {
        ++a[0];
        a[1] += r.end - r.start;
        a[2] += (static_cast<uint64_t>(std::get<0>(r.properties)) * 2 + static_cast<uint64_t>(std::get<1>(r.properties)) + 1) * (r.end - last);
        a[3] += r.start != last;
        last = r.end;
    }
    a.push_back(last);
    return a;
}
Answer utf8Graphemes(std::string_view u, size_t max = ~size_t {})
{
    Answer a { 0, 0 };
    unicode::utf8_grapheme_segmenter const seg(u);
    for (auto i = seg.begin(); i != seg.end() && a[0] < max; ++i)
    {
        ++a[0];
        a[1] += (*i).size();
    }
    return a;
}
struct Receiver final: unicode::grapheme_cluster_receiver
{
    Answer a { 0, 0, 0, 0, 0 };
    void receiveAsciiSequence(std::string_view s) noexcept override { a[0] += s.size(); }
    void receiveGraphemeCluster(std::string_view s, size_t n) noexcept override
    {
        ++a[1];
        a[2] += s.size();
        a[3] += n;
    }
    void receiveInvalidGraphemeCluster() noexcept override { ++a[4]; }
};
Answer scan(std::string_view u, size_t limit)
{
    unicode::scan_state st;
    Receiver r;
    auto const s = unicode::scan_text(st, u, limit, r);
    r.a.push_back(s.count);
    r.a.push_back(static_cast<uint64_t>(s.start - u.data()));
    r.a.push_back(static_cast<uint64_t>(s.end - u.data()));
    return r.a;
}
// An output iterator that counts.
template <typename T>
struct Counter
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    uint64_t n = 0, sum = 0;
    Counter& operator*() { return *this; }
    Counter& operator++() { return *this; }
    Counter& operator++(int) { return *this; }
    Counter& operator=(T v)
    {
        ++n;
        sum += static_cast<uint64_t>(v) & 0x1FFFFF;
        return *this;
    }
};
template <typename T, typename S>
Answer counted(std::basic_string_view<S> s)
{
    auto const c = unicode::convert_to<T>(s, Counter<T> {});
    return { c.n, c.sum };
}
unicode::Normalization_Form form(int n)
{
    static constexpr unicode::Normalization_Form forms[] = { unicode::Normalization_Form::NFC, unicode::Normalization_Form::NFD, unicode::Normalization_Form::NFKC, unicode::Normalization_Form::NFKD };
    return forms[n];
}
struct Op
{
    char const* name;
    bool bytes; // works on the UTF-8 text
    std::function<Answer(Text const&)> fn;
};
int sgn(int x) { return (x > 0) - (x < 0); }
std::vector<Op> const& all()
{
    static std::vector<Op> const v {
        { "graphemes", false, [](Text const& x) { return pieces(unicode::grapheme_segmenter(x.t)); } },
        { "words", false, [](Text const& x) { return pieces(unicode::word_segmenter(x.t)); } },
        { "scripts", false, [](Text const& x) { return runs<unicode::script_segmenter, unicode::Script>(unicode::script_segmenter(x.t.data(), x.t.size())); } },
        { "emoji", false, [](Text const& x) { return runs<unicode::emoji_segmenter, unicode::PresentationStyle>(unicode::emoji_segmenter(x.t.data(), x.t.size())); } },
        { "runs", false, [](Text const& x) { return bothRuns(x.t); } },
        { "utf8-graphemes", true, [](Text const& x) { return utf8Graphemes(x.u); } },
        { "scan", true, [](Text const& x) { return scan(x.u, ~size_t {} / 2); } },
        { "scan-plain", true, [](Text const& x) {
             unicode::scan_state st;
             auto const s = unicode::scan_text(st, x.u, ~size_t {} / 2);
             return Answer { s.count, static_cast<uint64_t>(s.end - x.u.data()), static_cast<uint64_t>(st.next - x.u.data()) };
         } },
        { "to-utf32", true, [](Text const& x) { return output(x, unicode::convert_to<char32_t>(x.u)); } },
        { "to-utf16", true, [](Text const& x) { return output(x, unicode::convert_to<char16_t>(x.u)); } },
        { "to-utf8", false, [](Text const& x) { return output(x, unicode::convert_to<char>(x.t)); } },
        { "utf32-to-utf16", false, [](Text const& x) { return output(x, unicode::convert_to<char16_t>(x.t)); } },
        { "to-utf32-counted", true, [](Text const& x) { return counted<char32_t>(x.u); } },
        { "to-utf16-counted", true, [](Text const& x) { return counted<char16_t>(x.u); } },
        { "to-utf8-counted", false, [](Text const& x) { return counted<char>(x.t); } },
        { "from_utf8", true, [](Text const& x) { return output(x, unicode::from_utf8(std::string(x.u))); } },
        { "to_utf8", false, [](Text const& x) { return output(x, unicode::to_utf8(x.t.data(), x.t.size())); } },
        { "upper", false, [](Text const& x) { return output(x, unicode::to_uppercase(x.t)); } },
        { "lower", false, [](Text const& x) { return output(x, unicode::to_lowercase(x.t)); } },
        { "title", false, [](Text const& x) { return output(x, unicode::to_titlecase(x.t)); } },
        { "casefold", false, [](Text const& x) { return output(x, unicode::casefold(x.t)); } },
        { "upper-utf8", true, [](Text const& x) { return output(x, unicode::to_uppercase(x.u)); } },
        { "lower-utf8", true, [](Text const& x) { return output(x, unicode::to_lowercase(x.u)); } },
        { "title-utf8", true, [](Text const& x) { return output(x, unicode::to_titlecase(x.u)); } },
        { "casefold-utf8", true, [](Text const& x) { return output(x, unicode::casefold(x.u)); } },
        { "caseless", false, [](Text const& x) {
             auto const less = x.t.substr(0, x.t.size() - 1);
             return Answer { static_cast<uint64_t>(sgn(unicode::casefold_compare(x.t, x.t)) + 1), static_cast<uint64_t>(sgn(unicode::casefold_compare(x.t, less)) + 1),
                             unicode::casefold_equals(x.t, x.t), unicode::casefold_equals(x.t, less) };
         } },
        { "nfc", false, [](Text const& x) { return output(x, unicode::normalize(x.t, form(0))); } },
        { "nfd", false, [](Text const& x) { return output(x, unicode::normalize(x.t, form(1))); } },
        { "nfkc", false, [](Text const& x) { return output(x, unicode::normalize(x.t, form(2))); } },
        { "nfkd", false, [](Text const& x) { return output(x, unicode::normalize(x.t, form(3))); } },
        { "nfc-utf8", true, [](Text const& x) { return output(x, unicode::normalize(x.u, form(0))); } },
        { "normalized", false, [](Text const& x) {
             Answer a;
             for (int f = 0; f < 4; ++f)
             {
                 a.push_back(unicode::is_normalized(x.t, form(f)));
                 a.push_back(static_cast<uint64_t>(unicode::quick_check(x.t, form(f))));
             }
             return a;
         } },
        { "nfc-check", false, [](Text const& x) { return Answer { static_cast<uint64_t>(unicode::quick_check(x.t, form(0))) }; } },
        { "equivalent", false, [](Text const& x) {
             auto const less = x.t.substr(0, x.t.size() - 1);
             return Answer { unicode::is_canonically_equivalent(x.t, x.t), unicode::is_compatibility_equivalent(x.t, x.t), unicode::is_canonically_equivalent(x.t, less) };
         } },
        { "normalizer", false, [](Text const& x) {
             unicode::normalizer n(form(0));
             uint64_t size = 0, sum = 0;
             auto const take = [&](auto const& s) {
                 size += s.size();
                 for (auto const ch: s)
                     sum += ch;
             };
             for (auto const ch: x.t)
                 take(n.feed(ch));
             take(n.flush());
             return Answer { size, sum };
         } },
        { "utf8-normalizer", true, [](Text const& x) {
             unicode::utf8_normalizer n(form(1));
             auto const a = n.feed(x.u);
             auto const b = n.flush();
             return Answer { a.size() + b.size() };
         } },
        { "width", false, [](Text const& x) { return Answer { unicode::grapheme_cluster_width(x.t) }; } },
        { "width-utf8", true, [](Text const& x) { return Answer { unicode::grapheme_cluster_width(x.u) }; } },
        { "c-count", false, [](Text const& x) { return Answer { static_cast<uint64_t>(u32_gc_count(reinterpret_cast<u32_char_t const*>(x.t.data()), x.t.size())) }; } },
        { "c-width", false, [](Text const& x) {
             return Answer { static_cast<uint64_t>(u32_gc_width(reinterpret_cast<u32_char_t const*>(x.t.data()), x.t.size(), GC_WIDTH_MODE_NON_MODIFIABLE)),
                             static_cast<uint64_t>(u32_gc_width(reinterpret_cast<u32_char_t const*>(x.t.data()), x.t.size(), GC_WIDTH_MODE_MODIFIABLE)) };
         } },
        { "c-count-utf8", true, [](Text const& x) { return Answer { static_cast<uint64_t>(u8_gc_count(x.u.data(), x.u.size())) }; } },
        { "c-width-utf8", true, [](Text const& x) { return Answer { static_cast<uint64_t>(u8_gc_width(x.u.data(), x.u.size(), GC_WIDTH_MODE_MODIFIABLE)) }; } },
        { "c-convert", false, [](Text const& x) {
             std::string dest(x.t.size() * 4, 'x');
             auto const n = u32u8_convert(reinterpret_cast<u32_char_t const*>(x.t.data()), x.t.size(), dest.data(), dest.size());
             dest.resize(n < 0 ? 0 : static_cast<size_t>(n));
             return output(x, dest);
         } },
    };
    return v;
}
Op const& byName(std::string_view name)
{
    for (auto const& o: all())
        if (o.name == name)
            return o;
    fprintf(stderr, "no operation %s\n", std::string(name).c_str());
    exit(2);
}
// }}}

constexpr size_t Period = 12; // any number of repeats that the answers may depend on, modulo

std::string encode(U32V t)
{
    std::string s;
    for (auto const x: t)
        ref::encodeUtf8(isSurrogate(x) ? char32_t { 0xFFFD } : x, s);
    return s;
}
template <typename S>
S repeat(S const& m, size_t n)
{
    S s;
    s.reserve(m.size() * n);
    while (n--)
        s += m;
    return s;
}
// The answer for a number of repeats, from the answers for a few.
Answer expected(Op const& op, U32 const& motif, std::string const& motif8, size_t reps, bool contents)
{
    auto const r0 = 2 * Period + reps % Period;
    auto const at = [&](size_t r) {
        auto const t = repeat(motif, r);
        auto const u = repeat(motif8, r);
        return op.fn({ t, u, contents });
    };
    auto const a = at(r0);
    auto const b = at(r0 + Period);
    Answer e;
    for (size_t i = 0; i < a.size(); ++i)
        e.push_back(a[i] + (b[i] - a[i]) * ((reps - r0) / Period));
    return e;
}
std::string list(Answer const& a)
{
    std::string s;
    for (auto const v: a)
        s += (s.empty() ? "" : " ") + std::to_string(v);
    return s;
}
Pool const& pool()
{
    static Pool const p = Pool::by([](uint32_t v) { return std::tuple { ref::ccc(v) != 0, ref::W_(v), ref::G_(v), ref::simpleUpper(v) != v, ref::width(v) }; },
                                   { U'a', U'A', 0xDF, 0x301, 0xAC00, 0x1100, 0x1F1E6, 0x200D, 0x1F468, 0xFE0F, 0x4E00, 0x3B1, 0x130, 0xFDFA, 0x1D15E, U' ' });
    return p;
}
U32 motif(Case& c)
{
    auto m = c.chance(1, 2) ? text(c, pool(), 5) : sequence(c, 3);
    if (m.size() > 24)
        m.resize(24);
    if (m.empty())
        m = U"a";
    return m;
}
// Lengths around powers of two, of the input or of the output.
void lengths(Case& c)
{
    auto const& op = all()[c.draw(all().size())];
    auto const m = motif(c);
    auto const m8 = encode(m);
    static constexpr std::array<size_t, 10> bits { 8, 16, 16, 16, 15, 17, 10, 12, 18, 20 };
    auto const threshold = size_t { 1 } << c.pick(bits);
    size_t unit = op.bytes ? m8.size() : m.size();
    if (c.chance(1, 2)) // what the answer counts reaches the threshold
    {
        auto const few = op.fn({ repeat(m, 24), repeat(m8, 24), true });
        auto const more = op.fn({ repeat(m, 36), repeat(m8, 36), true });
        auto const grown = more[c.draw(few.size()) % few.size()] - few[0];
        if (grown > 12 && grown < 1200)
            unit = grown / 12;
    }
    auto const reps = std::max<size_t>(threshold / unit, 40) + c.draw(12);
    c.show(std::string(op.name) + " of " + hexStr(m) + " repeated " + std::to_string(reps) + " times");
    c.label(std::string("op.") + op.name);
    if (reps > 100)
        c.nontrivial(hashOf(m) * 64 + static_cast<uint64_t>(&op - all().data()) + reps * 0x9E3779B97F4A7C15ull);
    auto const want = expected(op, m, m8, reps, true);
    auto const t = repeat(m, reps);
    auto const u = repeat(m8, reps);
    auto const got = op.fn({ t, u, true });
    if (got != want)
        c.fail(std::string(op.name) + " answers " + list(got) + " instead of " + list(want));
}
// The begin of a text is the begin of it, however much follows.
struct EarlyOp
{
    char const* name;
    std::function<Answer(Text const&, size_t)> fn;
};
std::vector<EarlyOp> const& early()
{
    static std::vector<EarlyOp> const v {
        { "graphemes", [](Text const& x, size_t k) { return pieces(unicode::grapheme_segmenter(x.t), k); } },
        { "words", [](Text const& x, size_t k) { return pieces(unicode::word_segmenter(x.t), k); } },
        { "scripts", [](Text const& x, size_t k) { return runs<unicode::script_segmenter, unicode::Script>(unicode::script_segmenter(x.t), k); } },
        { "emoji", [](Text const& x, size_t k) { return runs<unicode::emoji_segmenter, unicode::PresentationStyle>(unicode::emoji_segmenter(x.t), k); } },
        { "runs", [](Text const& x, size_t k) { return bothRuns(x.t, k); } },
        { "utf8-graphemes", [](Text const& x, size_t k) { return utf8Graphemes(x.u, k); } },
        { "scan", [](Text const& x, size_t k) { return scan(x.u, k); } },
        { "quick-check", [](Text const& x, size_t) { return Answer { static_cast<uint64_t>(unicode::quick_check(x.t, form(1))) }; } },
        { "c-convert", [](Text const& x, size_t k) {
             std::string dest(k, 'x');
             auto const n = u32u8_convert(reinterpret_cast<u32_char_t const*>(x.t.data()), x.t.size(), dest.data(), dest.size());
             return Answer { static_cast<uint64_t>(n + 1) };
         } },
    };
    return v;
}
size_t hugeLength(Case& c)
{
    return (size_t { 1 } << (31 + c.draw(2))) + c.draw(100);
}
// A huge text of the motif.
struct Huge
{
    std::unique_ptr<Repeated> memory;
    Text text;
    Huge(U32 const& m, std::string const& m8, bool bytes, size_t reps)
    {
        auto const chunk = [](auto const& motif) {
            auto s = repeat(motif, 4096);
            auto const once = s;
            while (s.size() * sizeof(s[0]) < (size_t { 2 } << 20))
                s += once;
            return s;
        };
        if (bytes)
        {
            auto const s = chunk(m8);
            memory = std::make_unique<Repeated>(s.data(), s.size(), m8.size() * reps);
            text = { {}, { memory->data(), m8.size() * reps }, false };
        }
        else
        {
            auto const s = chunk(m);
            memory = std::make_unique<Repeated>(reinterpret_cast<char const*>(s.data()), s.size() * 4, m.size() * 4 * reps);
            text = { { reinterpret_cast<char32_t const*>(memory->data()), m.size() * reps }, {}, false };
        }
        if (!memory->data())
        {
            fprintf(stderr, "no address space\n");
            exit(2);
        }
    }
};
void begins(Case& c)
{
    auto const& op = early()[c.draw(early().size())];
    auto m = motif(c) + U"a\x3B1\x1F600 \xE9"; // no run of it is long
    auto const m8 = encode(m);
    bool const bytes = std::string_view(op.name) == "utf8-graphemes" || std::string_view(op.name) == "scan";
    auto const unit = bytes ? m8.size() : m.size();
    auto const reps = hugeLength(c) / unit + 1;
    auto const k = 1 + c.size(300);
    c.show("the first " + std::to_string(k) + " " + op.name + " of " + hexStr(m) + " repeated " + std::to_string(reps) + " times");
    c.label(std::string("early.") + op.name);
    c.nontrivial(hashOf(m) * 64 + static_cast<uint64_t>(&op - early().data()));
    auto const t = repeat(m, 400);
    auto const u = repeat(m8, 400);
    auto const want = op.fn({ t, u }, k);
    Huge const h(m, m8, bytes, reps);
    auto const got = op.fn(h.text, k);
    if (got != want)
        c.fail(std::string(op.name) + " answers " + list(got) + " instead of " + list(want));
}
// Whole texts of more than 2^31 or 2^32 elements. These take a while.
struct Whole
{
    char const* op;
    size_t bits; // in the quick tier
    bool ascii;
    char32_t const* motif = nullptr;
};
Whole const wholes[] = {
    // in the order of the time they take, for eight workers
    { "scan-plain", 32, true },
    { "width", 32, false, U"\x301\x302\x200D" },
    { "to-utf32", 32, false },
    { "to-utf8", 32, true },
    { "emoji", 31, true },
    { "graphemes", 31, false },
    { "scripts", 31, true },
    { "utf8-graphemes", 31, true },
    { "words", 31, false },
    { "c-count", 31, true, U"\x301\x302" },
    { "to-utf16", 32, false },
    { "scan", 32, false, U"\x4E00" },
    // in the thorough tier only
    { "runs", 0, false },          { "to-utf32-counted", 0, false }, { "to-utf16-counted", 0, false },
    { "to-utf8-counted", 0, false }, { "utf32-to-utf16", 0, false }, { "upper", 0, false },           { "lower", 0, false },
    { "title", 0, false },           { "casefold", 0, false },      { "c-width", 0, false, U"\x301" },
    { "nfc-check", 0, false },
};
constexpr size_t QuickWholes = 12;
void whole(Case& c, bool thorough)
{
    auto const& w = wholes[c.index(std::size(wholes))];
    auto const& op = byName(w.op);
    U32 m = w.motif ? U32(w.motif) : w.ascii && !thorough ? U32(U"abcd") : U32(U"ab\xE9 \x4E00") + U"\x1F600" + U"e\x301 \x3B1";
    auto const m8 = encode(m);
    auto const unit = op.bytes ? m8.size() : m.size();
    auto const length = (size_t { 1 } << (thorough ? 32 : w.bits)) + 1000;
    auto const reps = length / unit + 1;
    c.show(std::string(op.name) + " of " + hexStr(m) + " repeated " + std::to_string(reps) + " times");
    c.label(std::string("whole.") + op.name);
    c.nontrivial(static_cast<uint64_t>(&w - wholes));
    auto const want = expected(op, m, m8, reps, false);
    Huge const h(m, m8, op.bytes, reps);
    hugeOutput = true;
    auto const got = op.fn(h.text);
    hugeOutput = false;
    if (got != want)
        c.fail(std::string(op.name) + " of " + std::to_string(unit * reps) + " elements answers " + list(got) + " instead of " + list(want));
}
} // namespace

PROPERTY({ "P42",
           "a case is non-trivial if its text repeats the motif more than a hundred times",
           {
               { "lengths", 10000, 200000, lengths },
               { "begins", 300, 10000, begins },
               { "whole", QuickWholes, QuickWholes, [](Case& c) { whole(c, false); }, true, 0, 300 },
               { "whole-32", 0, std::size(wholes), [](Case& c) { whole(c, true); }, true, 0, 1500 },
           },
           {},
           {},
           { "texts longer than a few million characters repeat a motif; of output longer than 2^28 bytes only the length is checked" } });
