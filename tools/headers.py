"""P35: the public headers compile alone, in any order, any number of times and in any number of
translation units of one program. Generated programs: sequences of includes, uses of what a header
declares, compilers and language standards; the oracle is the compiler and a relocatable link."""
import concurrent.futures as cf
import hashlib
import os
import random
import re
import shutil
import subprocess
import time

import build

# what each public header has to provide to those who include nothing but it
USES = {
    'capi': 'u8_char_t b[4]; u32_char_t t[1] = { 65 }; return u32u8_convert(t, 1, b, 4) + u32_gc_count(t, 1) + u32_is_valid_codepoint(t[0]);',
    'case_mapping': 'return static_cast<int>(unicode::to_uppercase(std::u32string_view(U"a")).size() + unicode::full_lowercase(U\'A\').view().size());',
    'codepoint_properties': 'return static_cast<int>(unicode::codepoint_properties::get(U\'a\').char_width) + static_cast<int>(unicode::codepoint_properties::name(U\'a\').size());',
    'convert': 'std::string s; unicode::convert_to<char>(std::u32string_view(U"a"), std::back_inserter(s)); return static_cast<int>(unicode::convert_to<char32_t>(std::string_view("a")).size() + unicode::convert_to<char16_t>(std::string_view("a")).size() + unicode::convert_to<wchar_t>(std::u16string_view(u"a")).size() + s.size());',
    'emoji_segmenter': 'std::size_t n = 0; unicode::PresentationStyle p {}; unicode::emoji_segmenter s(U"a", 1); return s.consume(unicode::out(n), unicode::out(p)) + static_cast<int>(n);',
    'grapheme_segmenter': 'int n = 0; unicode::grapheme_segmenter s(U"ab", U"ab" + 0); while (s.codepointsAvailable()) { ++s; ++n; } return n + static_cast<int>((*s).size());',
    'intrinsics': 'return 0;',
    'multistage_table_view': 'using V = support::multistage_table_view<int, unsigned, unsigned char, unsigned char, 16, 64>; return static_cast<int>(sizeof(V));',
    'normalization': 'unicode::normalizer n(unicode::Normalization_Form::NFC); unicode::utf8_normalizer m(unicode::Normalization_Form::NFD); return static_cast<int>(n.feed(U\'a\').size() + m.feed("a").size()) + unicode::is_normalized(std::u32string_view(U"a"), unicode::Normalization_Form::NFC);',
    'run_segmenter': 'unicode::run_segmenter s(U"a", 1); unicode::run_segmenter::range r; std::ostringstream* os = nullptr; if (os) *os << r; return s.consume(unicode::out(r));',
    'scan': 'unicode::scan_state s; return static_cast<int>(unicode::scan_text(s, std::string_view("a"), 80).count);',
    'script_segmenter': 'std::size_t n = 0; unicode::Script p {}; unicode::script_segmenter s(U"a", 1); return s.consume(unicode::out(n), unicode::out(p)) + static_cast<int>(n);',
    'support': 'int x = 0; unicode::out<int> o(x); *o = 1; return x;',
    'utf8': 'unicode::utf8_decoder_state s; return static_cast<int>(unicode::to_utf8(std::u32string_view(U"a")).size() + unicode::from_utf8(std::string_view("a")).size()) + std::holds_alternative<unicode::Success>(unicode::from_utf8(s, 65));',
    'utf8_grapheme_segmenter': 'int n = 0; for (auto const& c: unicode::utf8_grapheme_segmenter(std::string_view("a"))) n += static_cast<int>(c.size()); return n;',
    'width': 'unicode::grapheme_cluster_width_accumulator a; a.push(U\'a\'); return static_cast<int>(unicode::width(U\'a\') + a.width() + unicode::grapheme_cluster_width(std::u32string_view(U"a")));',
    'word_segmenter': 'int n = 0; unicode::word_segmenter s(std::u32string_view(U"a b")); while (s.codepointsAvailable()) { ++s; ++n; } return n;',
    'ucd': 'return static_cast<int>(unicode::script(U\'a\')) + unicode::contains(unicode::Core_Property::Alphabetic, U\'a\') + unicode::general_category::is_control(U\'a\');',
    'ucd_enums': 'return static_cast<int>(unicode::Script::Latin) + static_cast<int>(unicode::General_Category::Control);',
    'ucd_fmt': 'return static_cast<int>(std::format("{}", unicode::Script::Latin).size());',
    'ucd_ostream': 'std::ostream* os = nullptr; if (os) *os << unicode::Script::Latin << unicode::General_Category::Control << unicode::Block::Basic_Latin; return 0;',
}
# what a use needs that the header need not provide
NEEDS = {'convert': ['iterator'], 'run_segmenter': ['sstream'], 'ucd_ostream': ['ostream'], 'ucd_fmt': ['format']}
STD = ['algorithm', 'array', 'cstdint', 'iostream', 'map', 'string', 'string_view', 'vector', 'utility', 'optional', 'cctype', 'cstring', 'memory', 'limits.h', 'stdio.h', 'locale']
C_STD = ['stdio.h', 'stdlib.h', 'string.h', 'uchar.h', 'wchar.h', 'inttypes.h', 'stdbool.h', 'limits.h']


def unit(kind, seq, uses, n):
    """One translation unit."""
    t = ''
    if kind == 'c':
        t += ''.join(f'#include <{h}>\n' for h in seq)
        t += f'int unit{n}(void);\nint unit{n}(void) {{ u8_char_t b[4]; u32_char_t t[1] = {{ 65 }}; u8u32_stream_state_t s = u8u32_stream_convert_create(); u8u32_stream_convert_destroy(&s); return u32u8_convert(t, 1, b, 4) + u8_gc_width(b, 1, GC_WIDTH_MODE_MODIFIABLE) + (u32_is_valid_codepoint(t[0]) ? 1 : 0); }}\n'
        return t
    t += ''.join(f'#include <{h}>\n' for h in seq)
    for k in uses:
        t += ''.join(f'#include <{h}>\n' for h in NEEDS.get(k, []))
    for k in uses:
        t += f'static int use_{k}() {{ {USES[k]} }}\n'
    t += f'int unit{n}();\nint unit{n}() {{ return 0' + ''.join(f' + use_{k}()' for k in uses) + '; }\n'
    return t


class Program:
    """units: list of (kind, compiler, standard, define NDEBUG, includes)"""
    def __init__(self, units):
        self.units = units

    def show(self):
        return ' | '.join(f'{cc} -std={std}{" -DNDEBUG" if nd else ""}: ' + ' '.join(h.replace('libunicode/', '') for h in seq) for kind, cc, std, nd, seq in self.units)

    def dump(self):
        return ''.join(f'unit {kind} {cc} {std} {int(nd)} ' + ' '.join(seq) + '\n' for kind, cc, std, nd, seq in self.units)


def parse(text):
    u = []
    for line in text.splitlines():
        w = line.split()
        if w and w[0] == 'unit':
            u.append((w[1], w[2], w[3], w[4] == '1', w[5:]))
    return Program(u)


class Judge:
    def __init__(self, src, out_dir):
        self.src, self.out = src, out_dir
        self.units = 0

    def fails(self, prog):
        """None, or what the compiler or linker says."""
        tag = os.path.join(self.out, hashlib.sha1(prog.dump().encode()).hexdigest()[:16])
        objs = []
        try:
            for n, (kind, cc, std, nd, seq) in enumerate(prog.units):
                uses = [k for k in USES if f'libunicode/{k}.h' in seq]
                f = f'{tag}-{n}.{"c" if kind == "c" else "cpp"}'
                with open(f, 'w') as o:
                    o.write(unit(kind, seq, uses, n))
                obj = f'{tag}-{n}.o'
                objs += [f, obj]
                # a unit of its own needs no object file
                last = ['-fsyntax-only'] if len(prog.units) == 1 and kind != 'c' else ['-c', '-o', obj]
                p = subprocess.run([cc, f'-std={std}', '-O0', '-w', '-I' + self.src] + (['-DNDEBUG'] if nd else []) + (['-pedantic-errors'] if kind == 'c' else []) + last + [f],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                self.units += 1
                if p.returncode < 0 or b'No space left' in p.stdout or b'Killed' in p.stdout:
                    raise build.BuildError(p.stdout.decode(errors='replace')[-2000:])
                if p.returncode:
                    return self.tidy(p.stdout)
            if len(prog.units) > 1:
                obj = tag + '-all.o'
                objs.append(obj)
                p = subprocess.run(['g++', '-nostdlib', '-r', '-o', obj] + [f'{tag}-{n}.o' for n in range(len(prog.units))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    return 'the units do not link:\n' + self.tidy(p.stdout)
            return None
        finally:
            for o in objs:
                if os.path.exists(o):
                    os.unlink(o)

    def tidy(self, b):
        lines = [x for x in b.decode(errors='replace').splitlines() if 'error' in x or 'multiple definition' in x] or b.decode(errors='replace').splitlines()
        return '\n'.join(lines[:6]).replace(self.src + '/', '').replace(self.out + '/', '')


def smaller(prog):
    u = prog.units
    for i in range(len(u)):
        if len(u) > 1:
            yield Program(u[:i] + u[i + 1:])
    for i, (kind, cc, std, nd, seq) in enumerate(u):
        step = max(1, len(seq) // 2)
        while step:
            for j in range(0, len(seq), step):
                rest = seq[:j] + seq[j + step:]
                if rest and (kind != 'c' or 'libunicode/capi.h' in rest):
                    yield Program(u[:i] + [(kind, cc, std, nd, rest)] + u[i + 1:])
            step //= 2
        if nd:
            yield Program(u[:i] + [(kind, cc, std, False, seq)] + u[i + 1:])


def shrink(judge, prog, why):
    """Greedy: of the smaller programs, tried eight at a time, take the first that still fails."""
    end = time.time() + 60
    with cf.ThreadPoolExecutor(8) as ex:
        while time.time() < end:
            tries = list(smaller(prog))
            found = None
            for k in range(0, len(tries), 8):
                for p, w in zip(tries[k:k + 8], ex.map(judge.fails, tries[k:k + 8])):
                    if w and not found:
                        found = p, w
                if found or time.time() > end:
                    break
            if not found:
                break
            prog, why = found
    return prog, why


def generate(seed, tier, headers):
    H = [f'libunicode/{h}.h' for h in headers]
    cpp = [('g++', 'c++20'), ('clang++', 'c++20'), ('g++', 'c++23'), ('clang++', 'c++23')]
    # every header alone, and twice
    for k, h in enumerate(H):
        for cc, std in cpp[:2] if tier == 'quick' else cpp:
            yield 'alone', Program([('cpp', cc, std, False, [h])])
        cc, std = cpp[k % 2]
        yield 'twice', Program([('cpp', cc, std, False, [h, h])])
    # all of them in two units
    yield 'all', Program([('cpp', 'g++', 'c++20', False, H), ('cpp', 'clang++', 'c++20', False, H[::-1])])
    n = 0
    for a in H:
        for b in H:
            if a != b:
                n += 1
                if tier != 'quick':
                    cc, std = cpp[n % 4]
                    yield 'pair', Program([('cpp', cc, std, False, [a, b])])
    for i in range(70 if tier == 'quick' else 3000):
        r = random.Random(f'{seed}-{i}')
        units = []
        for _ in range(r.choice([1, 2, 2, 3])):
            if 'libunicode/capi.h' in H and r.random() < 0.15:
                seq = [r.choice(C_STD) for _ in range(r.randrange(4))]
                for _ in range(r.choice([1, 1, 2])):
                    seq.insert(r.randrange(len(seq) + 1), 'libunicode/capi.h')
                units.append(('c', r.choice(['gcc', 'clang']), r.choice(['c99', 'c11', 'c17']), r.random() < 0.3, seq))
                continue
            cc, std = r.choice(cpp)
            seq = [r.choice(H) for _ in range(r.randrange(1, 7))]
            for _ in range(r.randrange(3)):
                seq.insert(r.randrange(len(seq) + 1), r.choice(STD))
            units.append(('cpp', cc, std, r.random() < 0.3, seq))
        yield 'random', Program(units)


def installed(tree, out_dir):
    """A directory with nothing but the headers that an installation has."""
    lists = os.path.join(tree.repo, 'src', 'libunicode', 'CMakeLists.txt')
    text = re.sub(r'#.*', '', build.read(lists).decode()) if os.path.exists(lists) else ''
    names = set()
    for m in re.finditer(r'set\(\s*(?:public|private)_headers\s([^)]*)\)|install\(\s*FILES\s([^)]*?)DESTINATION', text):
        names |= {n for n in (m.group(1) or m.group(2)).split() if n.endswith('.h')}
    if not {h + '.h' for h in USES} <= names:
        return os.path.join(tree.root, 'src')  # installed in some other way
    d = os.path.join(out_dir, 'installed')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'libunicode'))
    for n in names:
        if os.path.exists(os.path.join(tree.lib, n)):
            shutil.copy(os.path.join(tree.lib, n), os.path.join(d, 'libunicode', n))
    return d


def run(prop, tier, seed, replay, out_dir):
    tree = build.Tree().prepare()
    src = installed(tree, out_dir)
    judge = Judge(src, out_dir)
    if replay:
        why = judge.fails(parse(open(replay).read()))
        print('replay ' + ('fails: ' + why if why else 'holds'))
        return {'evaluations': 1}, replay if why else None
    headers = [h for h in USES if os.path.exists(os.path.join(src, 'libunicode', h + '.h'))]
    missing = [h for h in USES if h not in headers]
    programs = list(generate(seed, tier, headers))
    classes, samples, seen, failure = {}, [], set(), None

    def one(x):
        return x, judge.fails(x[1])
    with cf.ThreadPoolExecutor(8) as ex:
        for (arm, p), why in ex.map(one, programs):
            classes[f'arm.{arm}.cases'] = classes.get(f'arm.{arm}.cases', 0) + 1
            if len(p.units) > 1 or len(p.units[0][4]) > 1:
                seen.add(p.dump())
            for u in p.units:
                classes[f'compiler.{u[1]}-{u[2]}'] = classes.get(f'compiler.{u[1]}-{u[2]}', 0) + 1
            if sum(s.startswith(arm + ':') for s in samples) < 3:
                samples.append(arm + ': ' + p.show()[:400])
            if why and (failure is None or len(p.dump()) < len(failure[0].dump())):
                failure = (p, why)
    violation = None
    if missing:
        print('public headers are missing: ' + ' '.join(missing))
        violation = os.path.join(build.VERIF, 'replays', f'{prop}.txt')
        with open(violation, 'w') as f:
            f.write('missing ' + ' '.join(missing) + '\n')
            f.write(Program([('cpp', 'g++', 'c++20', False, [f'libunicode/{missing[0]}.h'])]).dump())
    if failure:
        p, why = shrink(judge, *failure)
        violation = os.path.join(build.VERIF, 'replays', f'{prop}.txt')
        with open(violation, 'w') as f:
            f.write(p.dump() + '\n' + why + '\n')
        print('fails: ' + p.show() + '\n' + why)
    cov = {'evaluations': len(programs), 'distinct_nontrivial': len(seen),
           'rule': 'a program is non-trivial if it has more than one unit or a unit with more than one include',
           'samples': samples, 'exhaustive': False, 'classes': classes,
           'assumptions': ['gcc 13 and clang 18 with libstdc++, C++20 and C++23, C99 to C17 for capi.h', 'what a header provides is judged by one use of its main entities']}
    return cov, violation
