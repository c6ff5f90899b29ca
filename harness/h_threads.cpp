// P31 the library has no hidden shared state: concurrent use gives the sequential answers, without data races.
#include "clusters.h"
#include "opinput.h"

#include <atomic>
#include <thread>

using namespace pbt;
using namespace gen;

namespace
{
Pool const& pool()
{
    static Pool const p = Pool::by(
        [](uint32_t v) {
            return std::tuple { ref::ccc(v) != 0, ref::W_(v), ref::G_(v), ref::simpleUpper(v) != v, ref::isCased(v), ref::width(v) };
        },
        { U'a', U'A', 0xDF, 0x301, 0xAC00, 0x1100, 0x1161, 0x1F1E6, 0x200D, 0x1F468, 0xFE0F, 0x915, 0x94D, 0x4E00, 0x3B1, 0x130, 0x1C5, 0xF73, U' ' });
    return p;
}
ops::Input input(Case& c)
{
    ops::Input i;
    for (auto* t: { &i.text, &i.other })
    {
        if (c.chance(1, 2))
            *t = text(c, c.chance(1, 3) ? opinput::everyTable() : pool(), 12);
        else
            *t = sequence(c, 6);
        if (c.chance(1, 4)) // long ASCII for the vector paths
            t->insert(c.draw(t->size() + 1), U32(c.draw(150), U'x'));
    }
    if (c.chance(1, 3))
        i.other = i.text;
    auto const enc = [&](U32 const& t) {
        std::string s;
        for (auto const x: t)
        {
            ref::encodeUtf8(isSurrogate(x) ? char32_t { 0xFFFD } : x, s);
            if (c.chance(1, 12))
                illFormed(c, s);
        }
        return s;
    };
    i.utf8 = enc(i.text);
    i.otherUtf8 = enc(i.other);
    i.number = static_cast<unsigned>(c.draw(80));
    return i;
}
struct Job
{
    size_t op;
    ops::Input const* in;
};
std::string describe(std::vector<std::vector<Job>> const& plan)
{
    std::string s;
    for (size_t t = 0; t < plan.size(); ++t)
    {
        s += "thread " + std::to_string(t) + ":";
        for (auto const& j: plan[t])
            s += std::string(" ") + ops::all()[j.op].name + hexStr(j.in->text);
        s += "\n";
    }
    return s;
}
// Runs the plan with one thread per list, then every job alone.
void concurrently(Case& c, std::vector<std::vector<Job>> const& plan)
{
    (void) ops::all();
    std::vector<std::vector<uint64_t>> got(plan.size());
    for (size_t t = 0; t < plan.size(); ++t)
        got[t].resize(plan[t].size());
    std::atomic<size_t> ready { 0 };
    std::vector<std::thread> threads;
    threads.reserve(plan.size());
    for (size_t t = 0; t < plan.size(); ++t)
        threads.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < plan.size())
                std::this_thread::yield();
            for (size_t k = 0; k < plan[t].size(); ++k)
                got[t][k] = ops::run(plan[t][k].op, *plan[t][k].in);
        });
    for (auto& t: threads)
        t.join();
    for (size_t t = 0; t < plan.size(); ++t)
        for (size_t k = 0; k < plan[t].size(); ++k)
            if (auto const want = ops::run(plan[t][k].op, *plan[t][k].in); got[t][k] != want)
                c.fail(std::string("'") + ops::all()[plan[t][k].op].name + "' on " + hexStr(plan[t][k].in->text) + " answers differently in thread " + std::to_string(t) + " beside other threads than alone");
}

// Every operation against itself: on the same text, and on others.
constexpr size_t Rounds = 24;
void sameOperation(Case& c)
{
    auto const k = c.index(ops::all().size() * Rounds);
    auto const op = k % ops::all().size();
    Case g(mix(k + 1), 0);
    auto const a = input(g), b = input(g);
    std::vector<std::vector<Job>> const plan { { { op, &a }, { op, &b }, { op, &a } }, { { op, &b }, { op, &a }, { op, &b } }, { { op, &a }, { op, &a }, { op, &b } } };
    c.show(describe(plan));
    c.nontrivial(k);
    c.evals(8);
    concurrently(c, plan);
}
// Lists of operations, in other orders in other threads, over a few shared texts.
void mixed(Case& c)
{
    std::vector<ops::Input> in;
    for (auto n = 1 + c.draw(3); n--;)
        in.push_back(input(c));
    std::vector<Job> jobs;
    for (auto n = 1 + c.draw(8); n--;)
        jobs.push_back({ c.draw(ops::all().size()), &in[c.draw(in.size())] });
    std::vector<std::vector<Job>> plan(2 + c.draw(3));
    for (auto& p: plan)
    {
        p = jobs;
        std::rotate(p.begin(), p.begin() + static_cast<long>(c.draw(p.size())), p.end());
        for (auto n = c.draw(3); n--;) // and on another text
            p[c.draw(p.size())].in = &in[c.draw(in.size())];
    }
    c.show(describe(plan));
    if (jobs.size() > 1)
        c.nontrivial(hashStr(c.shown()));
    c.evals(plan.size() * jobs.size() - 1);
    for (auto const& j: jobs)
        c.label(std::string("op.") + ops::all()[j.op].name);
    concurrently(c, plan);
}
} // namespace

PROPERTY({ "P31",
           "a plan is non-trivial if its threads run at least two different jobs; every operation is also run against itself",
           {
               { "same-operation", ops::all().size() * Rounds, ops::all().size() * Rounds, sameOperation, true },
               { "mixed", 12000, 300000, mixed },
               { "long", 300, 10000, longArm(mixed, 800, 3000) },
           },
           {},
           {},
           { "ThreadSanitizer judges data races by happens-before, so a race is seen without the threads having to collide in time",
             "each object is used by one thread; shared are only the texts and what the library keeps for itself" } });
