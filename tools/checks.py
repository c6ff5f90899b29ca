"""Which harness and which build variants decide each property."""
import cpusites
A = dict(variant='asan')
R = dict(variant='rel')
N = dict(variant='none')
S = dict(variant='std')
T = dict(variant='tsan')
W = dict(variant='work')

# the configurations P41 compares with the default one (g++ -O2, intrinsics)
BUILDS = {
    'gcc-O0-unsigned-char': dict(cxx='g++', simd='none', flags=['-O0', '-funsigned-char']),
    'gcc-O3-ndebug-native': dict(cxx='g++', simd='intrinsics', flags=['-O3', '-DNDEBUG', '-march=native', '-funsigned-char', '-std=c++23']),
    'clang-O2-ndebug-zero': dict(cxx='clang++', simd='intrinsics', flags=['-O2', '-DNDEBUG', '-ftrivial-auto-var-init=zero', '-std=c++23']),
    'clang-Os-pattern-assertions': dict(cxx='clang++', simd='none', flags=['-Os', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-funsigned-char']),
    'gcc-O1-debug-mode': dict(cxx='g++', simd='std', flags=['-O1', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC', '-std=c++23']),
    'clang-O3-native': dict(thorough=True, cxx='clang++', simd='intrinsics', flags=['-O3', '-march=native', '-funsigned-char', '-fwrapv']),
    'clang-O0': dict(thorough=True, cxx='clang++', simd='intrinsics', flags=['-O0', '-ftrivial-auto-var-init=pattern']),
    'gcc-Ofast-ndebug-std': dict(thorough=True, cxx='g++', simd='std', flags=['-Ofast', '-DNDEBUG', '-funsigned-char', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern']),
    'gcc-Os-no-inline': dict(thorough=True, cxx='g++', simd='intrinsics', flags=['-Os', '-fno-inline', '-fwrapv', '-ftrivial-auto-var-init=zero']),
}


# the configurations P43 runs on generated CPUs
CPU_BUILDS = {
    'gcc-O2': dict(cxx='g++', simd='intrinsics', flags=['-O2']),
    'gcc-O0': dict(cxx='g++', simd='intrinsics', flags=['-O0']),
    'clang-O1': dict(cxx='clang++', simd='intrinsics', flags=['-O1']),
    'gcc-O2-std': dict(cxx='g++', simd='std', flags=['-O2']),
}


def _c(harness, quick, thorough=None, fuzz=120):
    return dict(harness=harness, quick=quick, thorough=thorough or ([dict(q, seconds=1200) for q in quick] + ([dict(variant='fuzz', seconds=fuzz)] if fuzz else [])))


CHECKS = {
    'P01': _c('h_convert', [A]),
    'P02': _c('h_convert', [A]),
    # every back end against the same scalar models: AVX/SSE intrinsics (asan), std::simd, none
    'P03': _c('h_convert', [dict(v, harness=h) for v in (A, N, S) for h in ('h_convert', 'h_scan')]),
    'P04': _c('h_grapheme', [A]),
    'P05': _c('h_grapheme', [A]),
    'P06': _c('h_word', [A]),
    'P07': _c('h_runs', [A]),
    'P08': _c('h_runs', [A]),
    'P10': _c('h_width', [A], fuzz=0),
    'P11': _c('h_width', [A]),
    'P12': _c('h_scan', [A]),
    'P13': _c('h_scan', [A]),
    'P14': _c('h_scan', [A]),
    'P15': _c('h_norm', [A]),
    'P16': _c('h_norm', [A]),
    'P17': _c('h_norm', [A]),
    'P18': _c('h_norm', [A]),
    'P19': _c('h_norm', [A]),
    'P20': _c('h_case', [A]),
    'P21': _c('h_case', [A]),
    'P22': _c('h_props', [A], fuzz=0),
    'P23': _c('h_props', [A], fuzz=0),
    'P24': _c('h_props', [A], fuzz=0),
    'P25': _c('h_enums', [A], fuzz=0),
    'P26': _c('h_multistage', [A]),
    'P28': _c('h_capi', [A]),
    'P29': _c('h_total', [A]),
    'P30': _c('h_query', [A]),
    'P35': dict(py='headers', quick=[], thorough=[]),
    'P37': dict(py='constexprs', quick=[], thorough=[]),
    'P39': dict(py='tgruns', quick=[], thorough=[]),
    'P27': dict(py='tables', quick=[], thorough=[]),
    'P09': _c('h_runs', [A]),
    'P34': _c('h_alloc', [A]),
    'P33': _c('h_work', [W], fuzz=0),
    'P32': _c('h_values', [A]),
    'P36': _c('h_values', [A]),
    'P38': _c('h_support', [A]),
    'P31': _c('h_threads', [T], fuzz=0),
    'P41': dict(_c('h_builds', [R], fuzz=0), builds=BUILDS),
    'P43': dict(_c('h_cpu', [R], fuzz=0), builds=CPU_BUILDS, prepare=cpusites.prepare),
    'P40': _c('h_life', [A, R], fuzz=0),
    'P42': _c('h_huge', [dict(variant='ndebug')], fuzz=0),
}

# manifest texts that differ from the default
TECH = {
    'P27': 'property-based testing of the table generator: metamorphic rewrites, single-entry edits and damaged lines of the UCD files, compiled and compared over all codepoints, ddmin shrinking to a replay file',
    'P31': 'property-based testing: generated assignments of API calls to threads, compared with a sequential run under ThreadSanitizer, shrinking to a replay file',
    'P32': 'stateful property-based testing: generated histories over many live objects against a lone object per answer, shrinking to a replay file; libFuzzer in the thorough tier',
    'P37': 'property-based testing: generated programs of static assertions with computed answers, the compilers as oracle for constant evaluation, smallest failing assertion to a replay file',
    'P40': 'property-based testing: generated operation lists performed by child processes at drawn points of their life, compared with the answers of an ordinary run, shrinking to a replay file',
    'P42': 'property-based testing: metamorphic relation between the answers for a drawn motif repeated a few times and repeated past 2^8 to 2^32 elements, shrinking to a replay file',
    'P43': 'property-based testing: generated CPUs (CPUID answers, XCR0) on which instructions they lack are undefined, generated operations, absence of traps and equal answers as oracle, shrinking to a replay file',
    'P41': 'property-based testing: differential, generated operations and texts in up to ten builds of the library loaded into one process, shrinking to a replay file',
    'P39': 'property-based testing with injected faults: generated combinations of broken inputs, outputs, limits and surroundings of table generator runs, compared byte for byte with an undisturbed run, shrinking to a replay file',
    'P35': 'property-based testing: generated programs (sequences of includes, uses, compilers, standards, several units), the compilers and a relocatable link as oracle, shrinking to a replay file',
    'P34': 'property-based testing with injected faults: every allocation of generated operations is made to fail, against the answer without failure and a count of live allocations, shrinking to a replay file; libFuzzer in the thorough tier',
    'P33': 'property-based testing: metamorphic relation between deterministic step counts of one operation on texts of three lengths, shrinking to a replay file',
}
NOTES = {
    'P42': 'Long texts are periodic; of output beyond 256 MiB only the length is checked; whole texts beyond 2^31 elements mostly in the thorough tier.',
    'P43': 'CPUs that have no more than this machine; the extension an instruction needs is read off its disassembly.',
    'P41': 'x86-64 with libstdc++ only; other architectures, byte orders and standard libraries are not available here.',
    'P39': 'Faults are those the kernel can be made to produce here (missing, unreadable and circular paths, full devices, file size and memory limits); no read error in the middle of a file and no power loss.',
    'P31': 'Every schedule run agreed with the sequential answers and ThreadSanitizer saw no race; schedules are those the system produced, not all of them. A race is reported even when the schedule that ran was harmless, because ThreadSanitizer tracks happens-before.',
    'P40': 'Deadlocks and races between a fork or signal and the library are found with the probability of hitting the moment; the other points of life are deterministic.',
    'P33': 'Deterministic step counts at three lengths; growth that only begins beyond some ten thousand characters is not seen.',
}
