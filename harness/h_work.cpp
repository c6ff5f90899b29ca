// P33 the work for a text grows in proportion to its length.
#include "clusters.h"
#include "ops.h"

#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <set>

using namespace pbt;
using namespace gen;

// {{{ counting work: every edge of the control flow graph, every 16 bytes copied, every allocation
static bool counting = false;
static uint64_t work = 0;
static uintptr_t deepest = 0; // lowest stack address seen
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    for (auto* p = start; p < stop; ++p)
        *p = 1;
}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
    if (!counting)
        return;
    ++work;
    auto const here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (here < deepest)
        deepest = here;
}
#define NOCOV __attribute__((no_sanitize("coverage"), noinline))
extern "C" NOCOV void* memcpy(void* d, void const* s, size_t n) noexcept
{
    work += counting ? n / 16 : 0;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
extern "C" NOCOV void* memmove(void* d, void const* s, size_t n) noexcept
{
    work += counting ? n / 16 : 0;
    void* r = d;
    if (d <= s || static_cast<char*>(d) >= static_cast<char const*>(s) + n)
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else
    {
        auto* dd = static_cast<char*>(d) + n - 1;
        auto* ss = static_cast<char const*>(s) + n - 1;
        asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return r;
}
extern "C" NOCOV void* memset(void* d, int v, size_t n) noexcept
{
    work += counting ? n / 16 : 0;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
static uint64_t heap = 0, heapPeak = 0;
NOCOV void* operator new(size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (counting)
    {
        ++work;
        heap += malloc_usable_size(p);
        heapPeak = std::max(heapPeak, heap);
    }
    return p;
}
NOCOV void operator delete(void* p) noexcept
{
    if (counting && p)
        heap -= std::min<uint64_t>(heap, malloc_usable_size(p));
    std::free(p);
}
NOCOV void operator delete(void* p, size_t) noexcept { operator delete(p); }
// }}}

namespace
{
uint64_t depth = 0; // bytes of stack the last measured operation took
NOCOV uint64_t measure(size_t op, ops::Input const& in)
{
    work = heap = heapPeak = 0;
    auto const here = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    deepest = here;
    counting = true;
    (void) ops::run(op, in);
    counting = false;
    depth = here - deepest;
    return work;
}
Pool const& pool()
{
    static Pool const p = Pool::by(
        [](uint32_t v) { return std::tuple { ref::ccc(v), ref::W_(v), ref::G_(v), ref::isExtPict(v), ref::I_(v) }; },
        { U'a', 0x301, 0x316, 0xF73, 0x1161, 0x11A8, 0xAC00, 0x1F1E6, 0x200D, 0xE0061, 0x1F3F4, 0xE007F, 0xFE0F, U'\'', U'.', U'1', U' ', 0x94D, 0x915, 0xAD, 0x5D0, U'"', U'_' });
    return p;
}
std::string utf8(U32 const& t)
{
    std::string s;
    for (auto const x: t)
        ref::encodeUtf8(isSurrogate(x) ? char32_t { 0xFFFD } : x, s);
    return s;
}
struct Shape
{
    U32 head, motif, tail;
    bool nested = false; // head motif^n tail motif^n: what begins and ends far apart
};
ops::Input make(Shape const& s, size_t n, unsigned number)
{
    ops::Input i;
    i.text = s.head;
    for (size_t k = 0; k < n; ++k)
        i.text += s.motif;
    i.text += s.tail;
    if (s.nested)
        for (size_t k = 0; k < n; ++k)
            i.text += s.tail;
    i.other = i.text;
    i.utf8 = utf8(i.text);
    i.otherUtf8 = i.utf8;
    i.number = number;
    return i;
}
void check(Case& c, size_t op, Shape const& s, unsigned number, size_t Base = 300)
{
    uint64_t w[5];
    uint64_t stack[5], memory[5];
    auto const at = [&](size_t k) {
        w[k] = measure(op, make(s, Base << k, number));
        stack[k] = depth;
        memory[k] = heapPeak;
    };
    auto const fatter = [&](size_t k) {
        auto const d1 = static_cast<double>(memory[k - 1]) - static_cast<double>(memory[k - 2]);
        auto const d2 = static_cast<double>(memory[k]) - static_cast<double>(memory[k - 1]);
        return d2 > 3 * std::max(d1, 0.0) + 40000;
    };
    auto const deeper = [&](size_t k) { return stack[k] > stack[k - 1] + 3000; };
    // linear: each difference is twice the one before; quadratic: four times
    auto const grows = [&](size_t k) {
        auto const d1 = static_cast<double>(w[k - 1]) - static_cast<double>(w[k - 2]);
        auto const d2 = static_cast<double>(w[k]) - static_cast<double>(w[k - 1]);
        return d2 > 3 * std::max(d1, 0.0) + 20000;
    };
    at(0), at(1), at(2);
    c.evals(2);
    if (deeper(1) && deeper(2))
    {
        at(3);
        if (deeper(3))
            c.fail(std::string("the stack '") + ops::all()[op].name + "' needs grows with the text: " + std::to_string(stack[0]) + ", " + std::to_string(stack[1]) + ", " + std::to_string(stack[2]) + ", "
                   + std::to_string(stack[3]) + " bytes for " + std::to_string(Base) + ", " + std::to_string(2 * Base) + ", ... repetitions");
    }
    // what works piece by piece holds one piece: text between boundaries
    static std::set<std::string_view> const streaming { "normalizer", "utf8-normalizer", "decode", "c-stream", "grapheme-steps", "scan-chunks" };
    if (streaming.count(ops::all()[op].name) && std::any_of(s.motif.begin(), s.motif.end(), [](char32_t x) { return x >= 'a' && x <= 'z'; })
        && (!s.nested || std::any_of(s.tail.begin(), s.tail.end(), [](char32_t x) { return x >= 'a' && x <= 'z'; })))
    {
        c.label("streaming");
        if (memory[2] > memory[0] + 2000)
            c.fail(std::string("the memory '") + ops::all()[op].name + "' holds grows with the text it has already passed on: " + std::to_string(memory[0]) + ", " + std::to_string(memory[1]) + ", "
                   + std::to_string(memory[2]) + " bytes for " + std::to_string(Base) + ", " + std::to_string(2 * Base) + ", " + std::to_string(4 * Base) + " repetitions");
    }
    if (fatter(2))
    {
        at(3), at(4);
        if (fatter(3) && fatter(4))
            c.fail(std::string("the memory '") + ops::all()[op].name + "' needs grows faster than the text: " + std::to_string(memory[0]) + ", " + std::to_string(memory[1]) + ", "
                   + std::to_string(memory[2]) + ", " + std::to_string(memory[3]) + ", " + std::to_string(memory[4]) + " bytes for " + std::to_string(Base) + ", " + std::to_string(2 * Base) + ", ... repetitions");
    }
    if (!grows(2))
        return;
    // a jump between two lengths is no growth: it has to go on
    at(3), at(4);
    if (grows(3) && grows(4))
    {
        std::string steps;
        for (auto const x: w)
            steps += (steps.empty() ? "" : ", ") + std::to_string(x);
        c.fail(std::string("the work of '") + ops::all()[op].name + "' grows faster than the text: " + steps + " steps for " + std::to_string(Base) + ", " + std::to_string(2 * Base) + ", ... " + std::to_string(16 * Base) + " repetitions");
    }
}
unsigned number(Case& c)
{
    return static_cast<unsigned>(c.chance(1, 2) ? 100000 + c.draw(4) : c.draw(80));
}
template <size_t Base>
void shapes(Case& c)
{
    Shape s;
    s.head = shortText(c, pool(), 4);
    s.motif = c.chance(1, 2) ? shortText(c, pool(), 4) : shortSequence(c, 3);
    if (s.motif.empty())
        s.motif = pool().draw(c);
    s.tail = shortText(c, pool(), 4);
    s.nested = c.chance(1, 4);
    auto const n = number(c);
    c.show("<head motif*n tail> " + hexStr(s.head) + " " + hexStr(s.motif) + " " + hexStr(s.tail) + (s.nested ? " (tail repeated too)" : "") + " number " + std::to_string(n));
    c.nontrivial(hashOf(s.head + s.motif + char32_t(0) + s.tail));
    auto const op = c.draw(ops::all().size());
    c.label(std::string("op.") + ops::all()[op].name);
    check(c, op, s, n, Base);
}
// what streams, on texts with boundaries
void streams(Case& c)
{
    static std::vector<size_t> const which = [] {
        std::vector<size_t> v;
        for (size_t k = 0; k < ops::all().size(); ++k)
            for (std::string_view const n: { "normalizer", "utf8-normalizer", "decode", "c-stream", "grapheme-steps", "scan-chunks" })
                if (n == ops::all()[k].name)
                    v.push_back(k);
        return v;
    }();
    Shape s;
    s.head = shortText(c, pool(), 4);
    s.motif = c.chance(1, 2) ? shortText(c, pool(), 6) : shortSequence(c, 3);
    s.motif.insert(s.motif.begin() + static_cast<std::ptrdiff_t>(c.draw(s.motif.size() + 1)), static_cast<char32_t>('a' + c.draw(26)));
    s.tail = shortText(c, pool(), 4);
    auto const n = number(c);
    auto const op = c.pick(which);
    c.show(std::string("'") + ops::all()[op].name + "' on head motif*n tail: " + hexStr(s.head) + " " + hexStr(s.motif) + " " + hexStr(s.tail) + " number " + std::to_string(n));
    c.nontrivial(hashOf(s.head + s.motif + char32_t(0) + s.tail));
    check(c, op, s, n);
}
// every class of characters alone, through every operation
void classes(Case& c)
{
    auto const& g = pool().groups;
    auto const k = c.index(g.size());
    auto const ch = g[k][g[k].size() / 2];
    c.nontrivial(k);
    for (size_t op = 0; op < ops::all().size(); ++op)
    {
        c.show(std::string("'") + ops::all()[op].name + "' on n times " + hexStr(U32(1, ch)));
        check(c, op, { U"", U32(1, ch), U"" }, 100001);
        c.show(std::string("'") + ops::all()[op].name + "' on a letter and n times " + hexStr(U32(1, ch)) + " and a letter");
        check(c, op, { U"a", U32(1, ch), U"b" }, 100000);
    }
}
} // namespace

PROPERTY({ "P33",
           "a case measures one operation on three lengths of one repeated text, or all operations on repetitions of one class of characters",
           {
               { "classes", pool().groups.size(), pool().groups.size(), classes, true },
               { "shapes", 30000, 1500000, shapes<300> },
               { "streams", 4000, 200000, streams },
               { "large", 2000, 100000, shapes<4000> },
           },
           {},
           {},
           { "work is the number of control flow edges taken, plus one for every 16 bytes copied and every allocation: a deterministic count, no clock",
             "growth up to n log n is accepted" } });
