// Lets a harness choose the SIMD width the library dispatches to. The library's own detector is
// linked as pbt_real_max_simd (see tools/build.py); if it is ever named differently, the
// definition below is simply unused and every group runs the native width.
#include <cstddef>

size_t pbt_forced_simd = 0;

extern "C" size_t pbt_real_max_simd() __attribute__((weak));

namespace unicode::detail
{
auto max_simd_size() -> size_t
{
    if (pbt_forced_simd)
        return pbt_forced_simd;
    return pbt_real_max_simd ? pbt_real_max_simd() : 128;
}
} // namespace unicode::detail
