// Texts rich in what cluster widths depend on.
#pragma once
#include "gen.h"

namespace gen
{
inline Pool const& clusterPool()
{
    static Pool const p = Pool::by(
        [](uint32_t c) {
            return ((((ref::width(c) * 2 + ref::isVirama(c)) * 2 + ref::isEmojiVariationBase(c)) * 2 + ref::isExtPict(c)) * 2 + (ref::gc().at(c) == "Mc")) * 16
                   + static_cast<unsigned>(ref::G_(c));
        },
        { 'a', 0xFE0F, 0xFE0E, 0x200D, 0x94D, 0x915, 0x93E, 0x1F3FB, 0x1F1E6, 0x2764, 0x23F0, 0x1100, 0x1160, 0x4E00, 0x302, 0x1F468, 0x1F525, 0x2714, 0x2713, 0xA9, 0x1039,
          0x1F3FF, '#', 0x1F1FF, 0x903, 0xA953, 0x1B44, 0x200C, 0x11A8 });
    return p;
}
inline U32 shortSequence(Case& c, size_t maxPieces = 10)
{
    auto const& p = clusterPool();
    if (c.chance(1, 2))
        return shortText(c, p, 24);
    static auto const of = [](auto pred) {
        std::vector<char32_t> v;
        for (uint32_t x = 0; x < ref::MaxCp; ++x)
            if (pred(x))
                v.push_back(x);
        return v;
    };
    static auto const virama = of([](uint32_t x) { return ref::isVirama(x); });
    static auto const cons = of([](uint32_t x) { return ref::I_(x) == ref::I::Consonant; });
    static auto const mc = of([](uint32_t x) { return ref::gc().at(x) == "Mc"; });
    static auto const mn = of([](uint32_t x) { return ref::gc().at(x) == "Mn"; });
    static auto const vb = of([](uint32_t x) { return ref::isEmojiVariationBase(x); });
    static auto const pict = of([](uint32_t x) { return ref::isExtPict(x); });
    U32 s;
    for (auto k = 1 + c.draw(maxPieces); k > 0; --k)
        switch (c.draw(11))
        {
            case 0: s += c.pick(cons); break;
            case 1:
                s += c.pick(cons);
                s += c.pick(virama);
                break;
            case 2: s += c.pick(mc); break;
            case 3: s += c.pick(mn); break;
            case 4:
            case 5:
                s += c.pick(vb);
                for (auto j = c.draw(3); j > 0; --j)
                    s += c.chance(1, 2) ? 0xFE0F : 0xFE0E;
                break;
            case 6: s += 0x200D; break;
            case 7: s += c.pick(pict); break;
            case 8: s += static_cast<char32_t>(c.range(0x1F3FB, 0x1F3FF)); break;
            case 9: s.append(1 + c.draw(3), static_cast<char32_t>(c.range(0x1F1E6, 0x1F1FF))); break;
            default: s += p.draw(c);
        }
    return s;
}
inline U32 sequence(Case& c, size_t maxPieces = 10)
{
    auto s = shortSequence(c, maxPieces);
    stretch(c, s);
    return s;
}
} // namespace gen
