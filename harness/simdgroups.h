// Process groups 0, 1, 2 run the library at vector widths 128, 256, 512 (the library caches the
// detected width in function statics, so the width is chosen before the first call in a worker).
#pragma once
#include "pbt.h"

extern size_t pbt_forced_simd;

inline void simdSetup(int group)
{
    static const size_t w[] = { 128, 256, 512 };
    pbt_forced_simd = w[group % 3];
}
inline bool simdEnabled(int group)
{
#if defined(LIBUNICODE_USE_INTRINSICS) || defined(LIBUNICODE_USE_STD_SIMD)
    #if defined(__x86_64__)
    if (group == 0)
        return true;
    if (group == 1)
        return __builtin_cpu_supports("avx2");
    return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw");
    #endif
#endif
    return group == 0;
}
// The same arms in every group.
inline std::vector<pbt::Arm> inAllGroups(std::vector<pbt::Arm> const& arms)
{
    static char const* const suffix[] = { "@128", "@256", "@512" };
    std::vector<pbt::Arm> r;
    for (int g = 0; g < 3; ++g)
        for (auto a: arms)
        {
            a.name += suffix[g];
            a.group = g;
            r.push_back(a);
        }
    return r;
}
