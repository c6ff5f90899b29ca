// Generated inputs for the operations of ops.h.
#pragma once
#include "clusters.h"
#include "ops.h"

namespace opinput
{
using namespace pbt;
using namespace gen;

inline Pool const& pool()
{
    static Pool const p = Pool::by([](uint32_t v) { return std::tuple { ref::ccc(v) != 0, ref::W_(v), ref::G_(v), ref::simpleUpper(v) != v, ref::width(v) }; },
                                   { U'a', U'A', 0xDF, 0x301, 0xAC00, 0x1100, 0x1F1E6, 0x200D, 0x1F468, 0xFE0F, 0x4E00, 0x3B1, 0x130, 0xFDFA, 0x1D15E, U' ' });
    return p;
}
// The same over every property that has a table of its own, so that every table is asked.
inline Pool const& everyTable()
{
    static Pool const p = Pool::by(
        [](uint32_t v) {
            return std::tuple { ref::script().v[v], ref::gc().v[v], ref::eaw().v[v], ref::scx().idx[v] != 0, ref::bidiMirror().count(v), ref::simpleUpper(v) != v,
                                ref::simpleLower(v) != v, ref::fullFold(v).size() };
        },
        { U'(', 0x2208, 0x1F600, 0x2764, 0x3131, 0xE000, 0x10FFFF, 0x1E900, 0x17000, 0xFB01 });
    return p;
}
inline ops::Input input(Case& c)
{
    ops::Input i;
    auto const some = [&] {
        auto t = c.chance(1, 2) ? text(c, c.chance(1, 3) ? everyTable() : pool(), 40) : sequence(c, 8);
        stretch(c, t);
        return t;
    };
    i.text = some();
    i.other = c.chance(1, 2) ? i.text : some();
    auto const enc = [&](U32 const& t) {
        std::string s;
        for (auto const x: t)
        {
            ref::encodeUtf8(isSurrogate(x) ? char32_t { 0xFFFD } : x, s);
            if (c.chance(1, 20))
                illFormed(c, s);
        }
        return s;
    };
    i.utf8 = enc(i.text);
    i.otherUtf8 = enc(i.other);
    i.number = static_cast<unsigned>(c.draw(80));
    return i;
}
} // namespace opinput
