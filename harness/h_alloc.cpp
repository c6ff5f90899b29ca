// P34 a failing allocation is reported, leaks nothing and leaves the library usable.
#include "opinput.h"

#include <new>

using namespace pbt;
using namespace gen;
using opinput::input;

// {{{ counting and failing allocations
static bool watching = false;
static uint64_t allocations = 0;
static uint64_t failAt = 0; // 1-based; 0: never
static bool failAllAfter = false;
static int64_t live = 0;

static void* allocate(size_t n, size_t align)
{
    if (watching)
    {
        ++allocations;
        if (failAt && (allocations == failAt || (failAllAfter && allocations > failAt)))
            return nullptr;
        ++live;
    }
    void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p)
        std::abort();
    return p;
}
static void release(void* p) noexcept
{
    if (p && watching)
        --live;
    std::free(p);
}
static void* orThrow(void* p)
{
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return orThrow(allocate(n, 1)); }
void* operator new[](size_t n) { return orThrow(allocate(n, 1)); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return allocate(n, 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return allocate(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return orThrow(allocate(n, static_cast<size_t>(a))); }
void* operator new[](size_t n, std::align_val_t a) { return orThrow(allocate(n, static_cast<size_t>(a))); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { release(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
// }}}

namespace
{
struct Outcome
{
    bool threw = false;
    uint64_t answer = 0;
    uint64_t allocations = 0;
    int64_t leaked = 0;
};
template <typename F>
Outcome under(uint64_t fail, bool andAllLater, F const& f)
{
    Outcome o;
    allocations = 0;
    live = 0;
    failAt = fail;
    failAllAfter = andAllLater;
    watching = true;
    try
    {
        o.answer = f();
    }
    catch (std::bad_alloc const&)
    {
        o.threw = true;
    }
    watching = false;
    failAt = 0;
    o.allocations = allocations;
    o.leaked = live;
    return o;
}
// Streams turn exceptions into a state bit; an exception cannot leave a noexcept function.
bool excluded(std::string_view name)
{
    return name == "print" || name == "width-utf8" || name == "utf8-graphemes";
}
void anyOperation(Case& c)
{
    auto const i = input(c);
    auto op = c.draw(ops::all().size());
    while (excluded(ops::all()[op].name))
        op = (op + 1) % ops::all().size();
    auto const what = std::string("'") + ops::all()[op].name + "' on " + hexStr(i.text) + " / " + hexStr(i.other) + " number " + std::to_string(i.number);
    c.show(what);
    auto const run = [&] { return ops::run(op, i); };
    (void) run();
    auto const clean = under(0, false, run);
    if (clean.threw)
        c.fail("bad_alloc without a failing allocation");
    if (clean.leaked != 0)
        c.fail(std::to_string(clean.leaked) + " allocations are not released");
    c.label(std::string("op.") + ops::all()[op].name);
    c.label("allocations." + std::to_string(std::min<uint64_t>(clean.allocations, 20)));
    if (!clean.allocations)
        return;
    c.nontrivial(hashOf(i.text) * 64 + op);
    // every allocation when there are few, else some
    std::vector<uint64_t> points;
    for (uint64_t k = 1; k <= std::min<uint64_t>(clean.allocations, 12); ++k)
        points.push_back(k);
    if (clean.allocations > 12)
        for (int k = 0; k < 8; ++k)
            points.push_back(1 + c.draw(clean.allocations));
    for (auto const k: points)
        for (bool const all: { false, true })
        {
            auto const o = under(k, all, run);
            c.evals(1);
            auto const at = "with allocation " + std::to_string(k) + (all ? " and all later ones" : "") + " failing";
            if (!o.threw && o.answer != clean.answer)
                c.fail(at + " the failure is not reported and the answer is wrong");
            if (o.leaked != 0)
                c.fail(at + " " + std::to_string(o.leaked) + " allocations are not released");
        }
    auto const again = under(0, false, run);
    if (again.threw || again.answer != clean.answer || again.leaked)
        c.fail("after the failures the answer differs");
}
// Objects that hold buffers: after a failure reset() makes them as good as new, and so does assignment.
template <typename Object, typename Feed>
void normalizers(Case& c, ops::Input const& i, Feed const& feed)
{
    auto const form = ops::form(i.number);
    auto const fresh = [&] {
        Object n(form);
        ops::Digest d;
        feed(n, d, i, false);
        return d.h;
    };
    auto const want = fresh();
    auto const clean = under(0, false, fresh);
    if (!clean.allocations)
        return;
    auto const k = 1 + c.draw(clean.allocations);
    auto const how = c.draw(3);
    auto const o = under(0, false, [&] {
        Object n(form);
        ops::Digest d;
        allocations = 0;
        failAt = k;
        try
        {
            feed(n, d, i, true); // another text before
            feed(n, d, i, false);
        }
        catch (std::bad_alloc const&)
        {
        }
        failAt = 0;
        if (how == 0)
            n.reset();
        else if (how == 1)
            n = Object(form);
        else
        {
            auto const copy = n; // copies of what is left of it are independent values as well
            n = copy;
            n.reset();
        }
        d = {};
        feed(n, d, i, false);
        return d.h;
    });
    if (o.threw || o.answer != want)
        c.fail("after allocation " + std::to_string(k) + " failed and " + (how == 1 ? "an assignment" : "reset()") + " the normalizer does not answer like a new one");
    if (o.leaked)
        c.fail(std::to_string(o.leaked) + " allocations are not released");
}
void objects(Case& c)
{
    auto const i = input(c);
    c.show("normalizers on " + hexStr(i.text) + " after " + hexStr(i.other) + " form " + std::to_string(i.number % 4));
    if (i.text.size() >= 2)
        c.nontrivial(hashOf(i.text));
    normalizers<unicode::normalizer>(c, i, [](auto& n, ops::Digest& d, ops::Input const& in, bool other) {
        for (auto const x: other ? in.other : in.text)
            add(d, n.feed(x));
        if (!other)
            add(d, n.flush());
    });
    normalizers<unicode::utf8_normalizer>(c, i, [](auto& n, ops::Digest& d, ops::Input const& in, bool other) {
        auto const s = std::string_view(other ? in.otherUtf8 : in.utf8);
        for (size_t k = 0; k < s.size(); k += 3)
            add(d, n.feed(s.substr(k, 3)));
        if (!other)
            add(d, n.flush());
    });
}
} // namespace

PROPERTY({ "P34",
           "a case is non-trivial if the operation allocates, so that there is an allocation to fail",
           {
               { "operations", 120000, 2000000, anyOperation },
               { "long", 1000, 20000, longArm(anyOperation, 300, 3000) },
               { "objects", 200000, 2000000, objects },
           },
           {},
           {},
           { "functions declared noexcept that allocate (grapheme_cluster_width of UTF-8 text, the UTF-8 cluster iterator) end the process, as the language demands, and are left out",
             "stream output turns exceptions into stream state and is left out" } });
