// P26 multistage tables.
#include "gen.h"

#include <libunicode/multistage_table_generator.h>

#include <memory>
#include <set>

using namespace pbt;
using namespace gen;

// {{{ values
struct Padded // padding bytes differ between equal values
{
    char a;
    int b;
    short s;
    bool operator==(Padded const& o) const { return a == o.a && b == o.b && s == o.s; }
};
struct Ptr // equality by what is pointed to
{
    std::shared_ptr<std::string> p;
    bool operator==(Ptr const& o) const { return *p == *o.p; }
};
struct Pair
{
    uint32_t x, y;
    bool operator==(Pair const& o) const { return x == o.x && y == o.y; }
};

template <typename T>
struct Maker;
template <>
struct Maker<uint32_t>
{
    static uint32_t make(uint64_t k, Case&) { return static_cast<uint32_t>(k * 0x01010101u); }
    static std::string show(uint32_t v) { return std::to_string(v); }
};
template <>
struct Maker<uint8_t>
{
    static uint8_t make(uint64_t k, Case&) { return static_cast<uint8_t>(k); }
    static std::string show(uint8_t v) { return std::to_string(v); }
};
template <>
struct Maker<std::string>
{
    // equal values live at different addresses, short and long ones
    static std::string make(uint64_t k, Case&) { return k == 0 ? std::string() : k % 3 ? "v" + std::to_string(k) : std::string(40, 'x') + std::to_string(k); }
    static std::string show(std::string const& v) { return "\"" + v + "\""; }
};
template <>
struct Maker<Padded>
{
    static Padded make(uint64_t k, Case& c)
    {
        Padded p;
        memset(static_cast<void*>(&p), static_cast<int>(c.draw(256)), sizeof p);
        p.a = static_cast<char>(k);
        p.b = static_cast<int>(k / 2);
        p.s = static_cast<short>(k % 5);
        return p;
    }
    static std::string show(Padded const& v) { return std::to_string(v.a) + "/" + std::to_string(v.b) + "/" + std::to_string(v.s); }
};
template <>
struct Maker<Ptr>
{
    static Ptr make(uint64_t k, Case&) { return { std::make_shared<std::string>(std::to_string(k)) }; }
    static std::string show(Ptr const& v) { return "*" + *v.p; }
};
template <>
struct Maker<Pair>
{
    static Pair make(uint64_t k, Case&) { return { static_cast<uint32_t>(k / 3), static_cast<uint32_t>(k % 3) }; }
    static std::string show(Pair const& v) { return std::to_string(v.x) + "/" + std::to_string(v.y); }
};
template <>
struct Maker<double>
{
    static double make(uint64_t k, Case& c) { return k == 0 ? (c.chance(1, 2) ? 0.0 : -0.0) : static_cast<double>(k) / 7; }
    static std::string show(double v) { return std::to_string(v); }
};
template <typename T>
size_t goodHash(T const& v)
{
    if constexpr (std::is_same_v<T, Padded>)
        return mix(static_cast<size_t>(v.a) * 7 + static_cast<size_t>(v.b) * 131 + static_cast<size_t>(v.s));
    else if constexpr (std::is_same_v<T, Ptr>)
        return std::hash<std::string> {}(*v.p);
    else if constexpr (std::is_same_v<T, Pair>)
        return mix(v.x * 1000003ull + v.y);
    else
        return std::hash<T> {}(v);
}
struct Good
{
    template <typename T>
    size_t operator()(T const& v) const noexcept
    {
        return goodHash(v);
    }
};
struct Constant
{
    template <typename T>
    size_t operator()(T const&) const noexcept
    {
        return 42;
    }
};
struct Few
{
    template <typename T>
    size_t operator()(T const& v) const noexcept
    {
        return goodHash(v) % 3;
    }
};
// }}}

// A sequence of value numbers, in blocks: fresh ones, repeated ones, near-duplicates, shifted, permuted, constant.
static std::vector<uint64_t> valueNumbers(Case& c, size_t block, size_t blocks, size_t maxBlocks, size_t maxValues, size_t& distinctBlocks)
{
    std::vector<uint64_t> r;
    std::set<std::vector<uint64_t>> seen;
    std::vector<std::vector<uint64_t>> list;
    auto const values = 1 + c.draw(c.chance(1, 3) ? maxValues : std::min<size_t>(maxValues, 6));
    for (size_t i = 0; i < blocks; ++i)
    {
        std::vector<uint64_t> b(block);
        auto const kind = c.draw(8);
        if (list.empty() || kind == 0)
            for (auto& x: b)
                x = c.draw(values);
        else if (kind == 1)
            std::fill(b.begin(), b.end(), c.draw(values));
        else
        {
            b = c.pick(list);
            if (kind == 2) // differs in one place
                b[c.draw(block)] = c.draw(values);
            else if (kind == 3) // shifted
                std::rotate(b.begin(), b.begin() + static_cast<long>(c.draw(block)), b.end());
            else if (kind == 4) // two places swapped: the same values in another order
                std::swap(b[c.draw(block)], b[c.draw(block)]);
        }
        if (!seen.contains(b) && seen.size() >= maxBlocks)
            b = c.pick(list);
        if (seen.insert(b).second)
            list.push_back(b);
        r.insert(r.end(), b.begin(), b.end());
    }
    distinctBlocks = seen.size();
    return r;
}

template <typename T, typename Source, typename S1, typename S2, Source Block, uint64_t Size, typename Hasher>
static void run(Case& c, char const* what)
{
    constexpr auto maxSource = std::numeric_limits<Source>::max();
    constexpr Source Max = Size ? static_cast<Source>(Size - 1) : maxSource;
    size_t const cap1 = std::min<size_t>(size_t { std::numeric_limits<S1>::max() } + 1, 1000);
    size_t const cap2 = std::min<size_t>(size_t { std::numeric_limits<S2>::max() }, std::is_same_v<T, uint8_t> ? 255 : 3000);
    size_t blocks = Size / Block;
    if (!Size)
        blocks = c.chance(1, 20) ? 0 : 1 + c.size(std::min<size_t>(600, size_t { maxSource } / Block));
    size_t distinct = 0;
    auto const numbers = valueNumbers(c, Block, blocks, cap1, cap2, distinct);
    std::vector<T> in;
    in.reserve(numbers.size());
    for (auto k: numbers)
        in.push_back(Maker<T>::make(k, c));
    std::string text;
    for (size_t i = 0; i < numbers.size() && i < 60; ++i)
        text += ' ' + std::to_string(numbers[i]);
    c.show(std::string(what) + ", block size " + std::to_string(Block) + ", " + std::to_string(blocks) + " blocks, " + std::to_string(distinct) + " distinct:" + text);
    if (distinct > 1 && distinct < blocks)
        c.nontrivial(hashBytes(numbers.data(), numbers.size() * sizeof(uint64_t), hashStr(what)));
    if (distinct == cap1)
        c.label("all-block-numbers-used");
    support::multistage_table<T, Source, S1, S2, Block, Max> table;
    support::generate(in.data(), in.size(), table, Hasher {});
    auto const view = table.to_view();
    auto check = [&](T const& got, size_t at, size_t of, char const* how) {
        if (!(got == in[of]))
            c.fail(std::string(what) + ": " + how + " of " + std::to_string(at) + " is " + Maker<T>::show(got) + " instead of " + Maker<T>::show(in[of]) + "; block size " + std::to_string(Block));
    };
    for (size_t i = 0; i < in.size(); ++i)
    {
        check(view.get(static_cast<Source>(i)), i, i, "get");
        check(table.get(static_cast<Source>(i)), i, i, "table.get");
        check(view.unsafe_get(static_cast<Source>(i)), i, i, "unsafe_get");
    }
    if (Size && maxSource >= Size) // beyond the maximum
        for (int k = 0; k < 20; ++k)
        {
            uint64_t const beyond = k == 0 ? Size : k == 1 ? maxSource : Size + c.draw(uint64_t { maxSource } - Size + 1);
            check(view.get(static_cast<Source>(beyond)), beyond, 0, "get beyond the maximum");
            auto const fb = c.draw(Size);
            check(view.get(static_cast<Source>(beyond), static_cast<Source>(fb)), beyond, fb, "get with a fallback beyond the maximum");
        }
    // as small as the content allows
    if (table.stage1.size() != blocks || table.stage2.size() != distinct * Block)
        c.fail(std::string(what) + ": " + std::to_string(table.stage2.size() / Block) + " blocks stored for " + std::to_string(distinct) + " distinct ones");
}

#define ARM(T, SRC, S1, S2, BLOCK, SIZE, HASH) run<T, SRC, S1, S2, BLOCK, SIZE, HASH>(c, #T " values, " #SRC " index, stages " #S1 "/" #S2 ", maximum " #SIZE ", " #HASH " hash")
static void p26Tables(Case& c)
{
    switch (c.draw(22))
    {
        case 0: ARM(uint32_t, uint32_t, uint8_t, uint16_t, 4, 0, Good); break;
        case 1: ARM(std::string, uint32_t, uint8_t, uint16_t, 4, 0, Good); break;
        case 2: ARM(std::string, uint32_t, uint8_t, uint16_t, 1, 0, Constant); break;
        case 3: ARM(Padded, uint32_t, uint8_t, uint8_t, 8, 0, Good); break;
        case 4: ARM(Padded, uint32_t, uint16_t, uint16_t, 2, 0, Few); break;
        case 5: ARM(Ptr, uint32_t, uint8_t, uint8_t, 3, 0, Good); break;
        case 6: ARM(Pair, uint32_t, uint16_t, uint8_t, 5, 0, Constant); break;
        case 7: ARM(uint8_t, uint32_t, uint8_t, uint8_t, 16, 0, Good); break;
        case 8: ARM(uint8_t, uint32_t, uint8_t, uint8_t, 1, 0, Few); break;
        case 9: ARM(double, uint32_t, uint8_t, uint16_t, 4, 0, Good); break;
        case 10: ARM(uint32_t, uint16_t, uint8_t, uint16_t, 64, 1024, Good); break;
        case 11: ARM(std::string, uint32_t, uint8_t, uint16_t, 8, 512, Few); break;
        case 12: ARM(Pair, uint16_t, uint8_t, uint16_t, 4, 256, Good); break;
        case 13: ARM(Padded, uint8_t, uint8_t, uint8_t, 16, 128, Good); break;
        case 14: ARM(uint32_t, uint8_t, uint8_t, uint8_t, 16, 256, Good); break;
        case 15: ARM(uint32_t, uint64_t, uint32_t, uint32_t, 7, 0, Good); break;
        case 16: ARM(std::string, uint64_t, uint8_t, uint8_t, 2, 400, Constant); break;
        case 17: ARM(uint32_t, uint32_t, uint8_t, uint16_t, 256, 0, Good); break;
        case 18: ARM(uint8_t, uint16_t, uint8_t, uint8_t, 256, 2048, Good); break;
        case 19: ARM(Pair, uint32_t, uint8_t, uint8_t, 2, 0, Few); break;
        case 20: ARM(std::string, uint32_t, uint8_t, uint8_t, 2, 1200, Good); break;
        default: ARM(Ptr, uint32_t, uint8_t, uint16_t, 6, 600, Constant); break;
    }
}
static void p26Large(Case& c) // whole ranges of the index type
{
    switch (c.draw(3))
    {
        case 0: ARM(uint32_t, uint16_t, uint8_t, uint16_t, 256, 65536, Good); break;
        case 1: ARM(std::string, uint16_t, uint16_t, uint16_t, 128, 65536, Good); break;
        default: ARM(Pair, uint32_t, uint8_t, uint16_t, 256, 0x40000, Good); break;
    }
}
// more distinct blocks or values than the index types can number, or exactly as many
template <typename T, typename S1, typename S2, uint32_t Block>
static void overfull(Case& c, char const* what)
{
    auto const around = [&](size_t capacity) { return std::max<size_t>(1, capacity - 3 + c.draw(7)); };
    size_t const blocks1 = around(size_t { std::numeric_limits<S1>::max() } + 1);
    size_t const values2 = around(size_t { std::numeric_limits<S2>::max() } + 1);
    bool const byBlocks = c.chance(1, 2);
    // by blocks: few values in many distinct blocks; by values: all of the values in few distinct blocks
    std::vector<uint64_t> numbers;
    if (byBlocks && Block > 1)
    {
        auto const base = 2 + c.draw(20) + (blocks1 > 70000 ? 0 : 17); // base^Block > blocks1
        for (size_t b = 0; b < blocks1; ++b)
        {
            auto k = b;
            for (size_t i = 0; i < Block; ++i, k /= base)
                numbers.push_back(k % base);
            for (; c.chance(1, 60);) // a block seen before
            {
                auto const of = c.draw(numbers.size() / Block) * Block;
                for (size_t i = 0; i < Block; ++i)
                    numbers.push_back(numbers[of + i]);
            }
        }
    }
    else
        for (size_t v = 0; v < values2 || numbers.size() % Block; ++v)
        {
            numbers.push_back(v % values2);
            if (c.chance(1, 60))
                numbers.push_back(c.draw(v + 1) % values2);
        }
    std::set<std::vector<uint64_t>> distinctBlocks;
    for (size_t i = 0; i < numbers.size(); i += Block)
        distinctBlocks.insert({ numbers.begin() + static_cast<long>(i), numbers.begin() + static_cast<long>(i + Block) });
    std::set<uint64_t> const distinctValues(numbers.begin(), numbers.end());
    bool const fits = distinctBlocks.size() <= size_t { std::numeric_limits<S1>::max() } + 1 && distinctValues.size() <= size_t { std::numeric_limits<S2>::max() } + 1;
    c.show(std::string(what) + ", " + std::to_string(numbers.size() / Block) + " blocks of " + std::to_string(Block) + ", " + std::to_string(distinctBlocks.size()) + " distinct blocks, " + std::to_string(distinctValues.size()) + " distinct values");
    c.nontrivial(hashBytes(numbers.data(), numbers.size() * sizeof(uint64_t), hashStr(what)));
    c.label(fits ? "just-fits" : "does-not-fit");
    std::vector<T> in;
    for (auto k: numbers)
        in.push_back(Maker<T>::make(k, c));
    support::multistage_table<T, uint32_t, S1, S2, Block> table;
    try
    {
        support::generate(in.data(), in.size(), table, Good {});
    }
    catch (std::exception const&)
    {
        if (fits)
            c.fail(std::string(what) + ": content that fits is refused");
        return;
    }
    auto const view = table.to_view();
    for (size_t i = 0; i < in.size(); ++i)
        if (!(view.get(static_cast<uint32_t>(i)) == in[i]))
            c.fail(std::string(what) + ": get of " + std::to_string(i) + " is " + Maker<T>::show(view.get(static_cast<uint32_t>(i))) + " instead of " + Maker<T>::show(in[i]));
}
static void p26Overfull(Case& c)
{
    switch (c.draw(5))
    {
        case 0: overfull<uint32_t, uint8_t, uint16_t, 2>(c, "uint32_t values, stages uint8_t/uint16_t"); break;
        case 1: overfull<uint32_t, uint16_t, uint8_t, 4>(c, "uint32_t values, stages uint16_t/uint8_t"); break;
        case 2: overfull<std::string, uint8_t, uint8_t, 3>(c, "string values, stages uint8_t/uint8_t"); break;
        case 3: overfull<Pair, uint8_t, uint8_t, 1>(c, "Pair values, stages uint8_t/uint8_t"); break;
        default: overfull<Pair, uint16_t, uint8_t, 2>(c, "Pair values, stages uint16_t/uint8_t"); break;
    }
}
// verify() accepts what generate() made and nothing else
template <typename T, uint32_t Block>
static void verified(Case& c, char const* what)
{
    size_t distinct = 0;
    auto const blocks = 1 + c.draw(12);
    auto const numbers = valueNumbers(c, Block, blocks, 200, 60, distinct);
    std::vector<T> in;
    for (auto k: numbers)
        in.push_back(Maker<T>::make(k, c));
    std::string text;
    for (auto k: numbers)
        text += ' ' + std::to_string(k);
    c.show(std::string(what) + ", block size " + std::to_string(Block) + ":" + text);
    c.nontrivial(hashBytes(numbers.data(), numbers.size() * sizeof(uint64_t), hashStr(what)));
    support::multistage_table<T, uint32_t, uint8_t, uint16_t, Block> table;
    support::multistage_table_generator<T, uint32_t, uint8_t, uint16_t, Good, Block> builder(in.data(), in.size(), table, Good {});
    builder.generate();
    auto const accepts = [&] {
        try
        {
            builder.verify();
            return true;
        }
        catch (std::exception const&)
        {
            return false;
        }
    };
    if (!accepts())
        c.fail(std::string(what) + ": verify() rejects the generated table");
    auto const at = c.draw(in.size());
    auto const before = in[at];
    in[at] = Maker<T>::make(numbers[at] + 1 + c.draw(50), c);
    if (!(in[at] == before) && accepts())
        c.fail(std::string(what) + ": verify() accepts a table with a wrong value at " + std::to_string(at));
}
static void p26Verify(Case& c)
{
    switch (c.draw(4))
    {
        case 0: verified<uint32_t, 1>(c, "uint32_t values"); break;
        case 1: verified<uint32_t, 4>(c, "uint32_t values"); break;
        case 2: verified<std::string, 3>(c, "string values"); break;
        default: verified<double, 8>(c, "double values"); break;
    }
}
// every table over a small alphabet
template <size_t Blocks, size_t Alphabet>
static constexpr uint64_t smallCount()
{
    uint64_t n = 1;
    for (size_t i = 0; i < Blocks * 2; ++i)
        n *= Alphabet;
    return n;
}
template <size_t Blocks, size_t Alphabet, typename T>
static void p26Small(Case& c)
{
    auto k = c.index(smallCount<Blocks, Alphabet>());
    std::vector<T> in;
    std::string text;
    for (size_t i = 0; i < Blocks * 2; ++i)
    {
        in.push_back(Maker<T>::make(k % Alphabet, c));
        text += ' ' + std::to_string(k % Alphabet);
        k /= Alphabet;
    }
    c.show("values" + text);
    c.nontrivial(hashStr(text));
    support::multistage_table<T, uint32_t, uint8_t, uint8_t, 2, Blocks * 2 - 1> table;
    support::generate(in.data(), in.size(), table, Good {});
    auto const view = table.to_view();
    for (size_t i = 0; i < Blocks * 2 + 3; ++i)
        if (!(view.get(static_cast<uint32_t>(i)) == in[i < in.size() ? i : 0]))
            c.fail("value " + std::to_string(i) + " of" + text + " is " + Maker<T>::show(view.get(static_cast<uint32_t>(i))));
}

PROPERTY({ "P26",
           "a table is non-trivial if it has several distinct blocks and at least one repeated one; small-alphabet arms enumerate all tables",
           {
               { "tables", 60000, 1500000, p26Tables },
               { "large", 40, 1500, p26Large },
               { "overfull", 400, 8000, p26Overfull },
               { "verify", 10000, 200000, p26Verify },
               { "small-4-blocks-of-3-values", smallCount<4, 3>(), smallCount<4, 3>(), p26Small<4, 3, std::string>, true },
               { "small-3-blocks-of-4-values", smallCount<3, 4>(), smallCount<3, 4>(), p26Small<3, 4, Padded>, true },
               { "small-5-blocks-of-3-values", 0, smallCount<5, 3>(), p26Small<5, 3, Pair>, true },
           },
           {},
           {},
           {} });
