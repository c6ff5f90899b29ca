// P25 printing and formatting of enumerators.
#include "gen.h"

#include <pbt/pbt_enums.h>

#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>

#include <format>
#include <iomanip>
#include <limits>
#include <set>
#include <span>
#include <sstream>
#include <type_traits>

using namespace pbt;
using namespace gen;

struct Enum
{
    char const* name;
    std::span<PbtEnumerator const> table;
    long lo, hi; // of the underlying type
    std::string (*stream)(long v, int width, char fill, int align);
    std::string (*format)(long v, std::string const& spec);
    std::string (*toString)(long v);
};

template <typename E>
static std::string streamed(long v, int width, char fill, int align)
{
    std::ostringstream o;
    o << std::setfill(fill) << std::setw(width);
    if (align == 1)
        o << std::left;
    else if (align == 2)
        o << std::right;
    o << static_cast<E>(v);
    return o.str();
}
template <typename E>
static std::string formatted(long v, std::string const& spec)
{
    auto e = static_cast<E>(v);
    return std::vformat(spec, std::make_format_args(e));
}
template <typename E>
static std::string viaToString(long v)
{
    if constexpr (requires(E e) { to_string(e); })
        return to_string(static_cast<E>(v));
    else
        return {};
}

static std::vector<Enum> const& enums()
{
#define X(T)                                                                                                                                            \
    Enum { #T,                                                                                                                                          \
           pbt_enum_##T,                                                                                                                                \
           std::numeric_limits<std::underlying_type_t<unicode::T>>::min(),                                                                              \
           static_cast<long>(std::min<long long>(std::numeric_limits<std::underlying_type_t<unicode::T>>::max(), 70000)),                               \
           streamed<unicode::T>,                                                                                                                        \
           formatted<unicode::T>,                                                                                                                       \
           std::is_same_v<unicode::T, unicode::EastAsianWidth> ? viaToString<unicode::T> : nullptr },
    static std::vector<Enum> const v = { PBT_ENUMS(X) };
#undef X
    return v;
}
static std::pair<size_t, long> const& value(size_t i)
{
    static auto const v = [] {
        std::vector<std::pair<size_t, long>> r;
        for (size_t e = 0; e < enums().size(); ++e)
            for (long x = enums()[e].lo < -40000 ? -40000 : enums()[e].lo; x <= enums()[e].hi; ++x)
                r.push_back({ e, x });
        return r;
    }();
    static std::pair<size_t, long> const end { v.size(), 0 };
    return i < v.size() ? v[i] : end;
}
static char const* nameIn(Enum const& e, long v)
{
    for (auto const& x: e.table)
        if (x.value == v)
            return x.name;
    return nullptr;
}

static void p25Every(Case& c)
{
    auto const [i, v] = value(c.index(value(~size_t { 0 }).first));
    auto const& e = enums()[i];
    c.show(std::string(e.name) + " " + std::to_string(v));
    auto const s = e.stream(v, 0, ' ', 0), f = e.format(v, "{}");
    auto const where = std::string(e.name) + "(" + std::to_string(v) + ")";
    auto const* n = nameIn(e, v);
    if (!n)
    {
        for (auto const& x: e.table)
            if (s == x.name || f == x.name)
                c.fail(where + " is no enumerator, but prints as \"" + x.name + "\"");
        return;
    }
    c.nontrivial(i * 100000 + static_cast<size_t>(v));
    if (s != n)
        c.fail(where + " streams as \"" + s + "\" instead of \"" + n + "\"");
    if (f != n)
        c.fail(where + " formats as \"" + f + "\" instead of \"" + n + "\"");
    if (e.toString && e.toString(v) != n)
        c.fail(where + " converts to \"" + e.toString(v) + "\" instead of \"" + n + "\"");
    size_t same = 0;
    for (auto const& x: e.table)
    {
        same += x.value == v;
        if (x.value != v && (e.stream(x.value, 0, ' ', 0) == s || e.format(x.value, "{}") == f))
            c.fail(where + " prints like " + x.name);
    }
    if (same != 1)
        c.fail(where + " is the value of " + std::to_string(same) + " enumerators");
}

static void p25Specs(Case& c)
{
    auto const ei = c.draw(enums().size());
    auto const& e = enums()[ei];
    auto const& x = e.table[c.draw(e.table.size())];
    // format
    std::string spec;
    if (c.chance(2, 3))
    {
        if (c.chance(1, 2))
            spec += "*-_ .#0"[c.draw(7)];
        spec += "<>^"[c.draw(3)];
    }
    if (c.chance(3, 4))
        spec += std::to_string(1 + c.draw(c.chance(1, 4) ? 200 : 50));
    if (c.chance(1, 3))
        spec += "." + std::to_string(c.draw(40));
    if (c.chance(1, 4))
        spec += "s";
    spec = "{:" + spec + "}";
    std::string_view const name = x.name;
    c.show(std::string(e.name) + "::" + x.name + " " + spec);
    c.nontrivial(hashStr(spec, hashStr(name, ei)));
    auto const want = std::vformat(spec, std::make_format_args(name)), got = e.format(x.value, spec);
    if (got != want)
        c.fail(std::string(e.name) + "::" + x.name + " formats with " + spec + " as \"" + got + "\" instead of \"" + want + "\"");
    // stream
    int const w = static_cast<int>(c.draw(60)), align = static_cast<int>(c.draw(3));
    char const fill = "* .0"[c.draw(4)];
    std::ostringstream o;
    o << std::setfill(fill) << std::setw(w);
    if (align == 1)
        o << std::left;
    else if (align == 2)
        o << std::right;
    o << x.name;
    if (e.stream(x.value, w, fill, align) != o.str())
        c.fail(std::string(e.name) + "::" + x.name + " streams with width " + std::to_string(w) + " as \"" + e.stream(x.value, w, fill, align) + "\"");
}

PROPERTY({ "P25",
           "every value of the underlying type of every enumeration; non-trivial if it is an enumerator; a format case is an enumerator with a format specification",
           {
               { "every-value", value(~size_t { 0 }).first, value(~size_t { 0 }).first, p25Every, true },
               { "specifications", 200000, 3000000, p25Specs },
           },
           {},
           {},
           {} });
