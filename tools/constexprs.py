"""P37: what the headers declare constexpr works in constant expressions, with the answers of run time.
Generated programs of static_asserts; the oracle is a model of the encodings here, and the compilers,
which reject undefined behaviour during constant evaluation."""
import concurrent.futures as cf
import hashlib
import os
import random
import re
import subprocess
import time

import build

PRELUDE = r'''
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/support.h>
#include <libunicode/utf8.h>
#include <initializer_list>
#include <functional>
using L = std::initializer_list<unsigned>;
using unicode::codepoint_properties;
constexpr bool enc8(unsigned x, L want)
{
    char b[6] = { 0x55, 0x55, 0x55, 0x55, 0x55, 0x55 };
    auto const n = static_cast<std::size_t>(unicode::encoder<char> {}(x, &b[0]) - &b[0]);
    std::size_t i = 0;
    for (auto const w: want)
        if (static_cast<unsigned char>(b[i++]) != w)
            return false;
    return n == want.size() && b[n] == 0x55;
}
constexpr bool to8(unsigned x, L want)
{
    std::uint8_t b[6] = { 0x55, 0x55, 0x55, 0x55, 0x55, 0x55 };
    auto const n = unicode::to_utf8(static_cast<char32_t>(x), b);
    std::size_t i = 0;
    for (auto const w: want)
        if (b[i++] != w)
            return false;
    return n == want.size() && b[n] == 0x55;
}
template <typename C>
constexpr bool encN(unsigned x, L want)
{
    C b[4] {};
    auto const n = static_cast<std::size_t>(unicode::encoder<C> {}(x, &b[0]) - &b[0]);
    std::size_t i = 0;
    for (auto const w: want)
        if (static_cast<unsigned>(b[i++]) != w)
            return false;
    return n == want.size() && b[n] == C {};
}
constexpr bool bytewise(L bytes, L want)
{
    unicode::decoder<char> d;
    std::size_t n = 0;
    for (auto const b: bytes)
        if (auto const r = d(static_cast<std::uint8_t>(b)))
            if (n >= want.size() || *(want.begin() + n++) != *r)
                return false;
    return n == want.size();
}
template <typename C>
constexpr bool pull(L units, L want)
{
    C b[64] {};
    std::size_t n = 0;
    for (auto const u: units)
        b[n++] = static_cast<C>(u);
    C const* it = b;
    for (auto const w: want)
    {
        unicode::decoder<C> d;
        auto const r = d(it);
        if (!r || *r != w)
            return false;
    }
    return it == b + n;
}
template <typename C>
constexpr bool nothing(L units)
{
    C b[64] {};
    std::size_t n = 0;
    for (auto const u: units)
        b[n++] = static_cast<C>(u);
    C const* it = b;
    unicode::decoder<C> d;
    return !d(it) && it > b && it <= b + n + 1;
}
constexpr codepoint_properties props(unsigned flags, unsigned flags2, unsigned ccc, unsigned width, unsigned script)
{
    codepoint_properties p {};
    p.flags = static_cast<decltype(p.flags)>(flags);
    p.flags2 = static_cast<decltype(p.flags2)>(flags2);
    p.char_width = static_cast<decltype(p.char_width)>(width);
    p.script = static_cast<unicode::Script>(script);
    p.general_category = static_cast<unicode::General_Category>(ccc);
    return p;
}
constexpr bool flag(codepoint_properties p, unsigned want)
{
    unsigned const got = (p.is_emoji() ? 1u : 0u) | (p.is_emoji_presentation() ? 2u : 0u) | (p.is_emoji_component() ? 4u : 0u) | (p.is_emoji_modifier() ? 8u : 0u)
                         | (p.is_emoji_modifier_base() ? 16u : 0u) | (p.is_extended_pictographic() ? 32u : 0u) | (p.is_core_grapheme_extend() ? 64u : 0u)
                         | (p.is_virama() ? 128u : 0u) | (p.is_emoji_variation_base() ? 256u : 0u);
    return got == want;
}
template <std::size_t N>
constexpr bool array(L pushed, L want)
{
    unicode::fs_array<unsigned, N> a;
    for (auto const x: pushed)
        if (x == 0)
            a.clear();
        else
        {
            auto const room = a.size() < N;
            if (a.push_back(x) != room)
                return false;
        }
    if (a.size() != want.size() || a.empty() != (want.size() == 0) || a.capacity() != N)
        return false;
    std::size_t i = 0;
    for (auto const w: want)
        if (a[i] != w || a.at(i) != w || *(a.begin() + static_cast<std::ptrdiff_t>(i)) != w || a.data()[i] != w)
            return false;
        else
            ++i;
    return want.size() == 0 || (a.front() == *want.begin() && a.back() == *(want.begin() + want.size() - 1));
}
constexpr bool outs(unsigned a, unsigned b)
{
    unsigned x = 0, y = 0;
    unicode::out<unsigned> o(x), p(std::ref(y));
    o.assign(a);
    *p = b;
    auto q = o;
    return x == a && y == b && *q == a && p.get() == b && o.operator->() == &x;
}
constexpr bool mapping(L cps)
{
    unicode::case_mapping_result r {};
    for (auto const c: cps)
        r.codepoints[r.length++] = c;
    std::size_t i = 0;
    for (auto const c: cps)
        if (r.view()[i++] != c)
            return false;
    return r.view().size() == cps.size() && r.is_identity() == (cps.size() == 0);
}
constexpr unicode::run_segmenter::range range(std::size_t b, std::size_t e, unsigned s, bool emoji)
{
    return { b, e, { static_cast<unicode::Script>(s), emoji ? unicode::PresentationStyle::Emoji : unicode::PresentationStyle::Text } };
}
'''


def utf8(c):
    return list(chr(c).encode('utf-8', 'surrogatepass'))


def utf16(c):
    return [c] if c < 0x10000 else [0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF)]


def il(xs):
    return '{' + ','.join(f'0x{x:X}u' for x in xs) + '}'


EDGES = [0, 1, 0x7E, 0x7F, 0x80, 0x81, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x3FFFF, 0x40000, 0xFFFFF,
         0x100000, 0x10FFFE, 0x10FFFF]


def scalar(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice(EDGES)
    c = r.randrange([0x80, 0x800, 0x10000, 0x110000, 0x110000][k - 1])
    return c - 0x800 if 0xD800 <= c < 0xE000 else c


def structural(bs):
    """What a bytewise decoder gives for these bytes."""
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        n = 1 if b < 0x80 else 0 if b < 0xC0 else 2 if b < 0xE0 else 3 if b < 0xF0 else 4 if b < 0xF8 else 0
        if n == 0:
            i += 1
            continue
        v = b if n == 1 else b & (0x7F >> n)
        k = 1
        while k < n and i + k < len(bs) and bs[i + k] & 0xC0 == 0x80:
            v = v << 6 | bs[i + k] & 0x3F
            k += 1
        if k == n:
            out.append(v)
        i += k
    return out


ILL = [[0x80], [0xBF], [0xC3], [0xE2], [0xE2, 0x82], [0xF0, 0x9F], [0xF0, 0x9F, 0x98], [0xF8], [0xFF], [0xFE], [0xC3, 0xC3], [0xF4, 0x8F, 0xC3]]


def case(r):
    """(expression, non-trivial)"""
    k = r.randrange(15)
    c = scalar(r)
    if k == 0:
        return f'enc8(0x{c:X}u, {il(utf8(c))})', c >= 0x80
    if k == 1:
        return f'to8(0x{c:X}u, {il(utf8(c))})', c >= 0x80
    if k == 2:
        t, w = r.choice([('char16_t', utf16(c)), ('char32_t', [c]), ('wchar_t', [c])])
        return f'encN<{t}>(0x{c:X}u, {il(w)})', c >= 0x10000
    if k in (3, 4, 5):
        s = [scalar(r) for _ in range(r.randrange(1, 6))]
        bs = []
        for x in s:
            if k > 3 and r.random() < 0.4:
                bs += r.choice(ILL)
            bs += utf8(x)
        return f'bytewise({il(bs)}, {il(structural(bs))})', any(b >= 0x80 for b in bs)
    if k == 6:
        s = [scalar(r) for _ in range(r.randrange(1, 8))]
        return f'pull<char>({il([b for x in s for b in utf8(x)])}, {il(s)})', any(x >= 0x80 for x in s)
    if k == 7:
        s = [scalar(r) for _ in range(r.randrange(1, 8))]
        t = r.choice(['char16_t', 'char32_t', 'wchar_t'])
        return f'pull<{t}>({il([u for x in s for u in (utf16(x) if t == "char16_t" else [x])])}, {il(s)})', any(x >= 0x10000 for x in s)
    if k == 8:
        if r.random() < 0.5:
            return f'nothing<char>({il(r.choice(ILL[:8]))})', True
        return f'nothing<char16_t>({il([r.choice([r.randrange(0xDC00, 0xE000), r.randrange(0xD800, 0xDC00)])])})', True
    if k == 9:
        f, g = r.randrange(256), r.randrange(2)
        return f'flag(props({f},{g},0,1,0), {f | g << 8})', True
    if k == 10:
        a = [r.randrange(256), r.randrange(2), r.randrange(30), r.randrange(3), r.randrange(160)]
        b = list(a)
        if r.random() < 0.7:
            i = r.randrange(5)
            b[i] = (b[i] + 1) % [256, 2, 30, 3, 160][i]
        op = r.choice(['==', '!='])
        want = (a == b) == (op == '==')
        p, q = (f'props({",".join(map(str, x))})' for x in (a, b))
        return f'({p} {op} {q}) == {str(want).lower()}', True
    if k == 11:
        n = r.choice([1, 2, 3, 8])
        pushed = [r.choice([0, 1, 2, 3, 4, 5, 77]) for _ in range(r.randrange(12))]
        model = []
        for x in pushed:
            if x == 0:
                model = []
            elif len(model) < n:
                model.append(x)
        return f'array<{n}>({il(pushed)}, {il(model)})', len(pushed) > n
    if k == 12:
        return (f'outs({r.randrange(1000)}, {r.randrange(1000)})', True) if r.random() < 0.3 else (f'mapping({il([scalar(r) for _ in range(r.randrange(4))])})', True)
    if k == 13:
        a = [r.randrange(4), r.randrange(4), r.randrange(3), r.randrange(2)]
        b = list(a)
        if r.random() < 0.7:
            i = r.randrange(4)
            b[i] = (b[i] + 1) % [4, 4, 3, 2][i]
        op = r.choice(['==', '!='])
        want = (a == b) == (op == '==')
        p, q = (f'range({x[0]},{x[1]},{x[2]},{"true" if x[3] else "false"})' for x in (a, b))
        return f'({p} {op} {q}) == {str(want).lower()}', True
    s = ''.join(r.choice('abcdefgh xyz') for _ in range(r.randrange(6)))
    form = r.choice(['unicode::script_segmenter { U"%s" }', 'unicode::script_segmenter { U"%s", %d }', 'unicode::script_segmenter { std::u32string_view(U"%s") }', 'E'])
    if form == 'E':
        return '[] { unicode::emoji_segmenter e {}; unicode::emoji_segmenter f = e; e = f; return e.size() == 0 && e.substr().empty() && (*e).empty() && e.currentCursorBegin() == 0 && e.currentCursorEnd() == 0 && e.isText() && !e.isEmoji(); }()', True
    text = form % ((s, len(s)) if '%d' in form else (s,))
    return '[] { constexpr auto s = ' + text + '; auto t = s; t = s; return true; }()', True


class Judge:
    def __init__(self, src, out_dir):
        self.src, self.out = src, out_dir

    def failing(self, cc, std, exprs):
        """Indices of the assertions the compiler rejects, with its words; None if it rejects the program elsewhere."""
        text = PRELUDE + '#line 1 "cases"\n' + ''.join(f'static_assert({e});\n' for e in exprs)
        tag = os.path.join(self.out, hashlib.sha1((cc + std + text).encode()).hexdigest()[:16] + '.cpp')
        with open(tag, 'w') as f:
            f.write(text)
        p = subprocess.run([cc, f'-std={std}', '-w', '-I' + self.src, '-fsyntax-only', '-ftemplate-depth=2000'] + (['-fno-caret-diagnostics', '-ferror-limit=0', '-fconstexpr-steps=100000000'] if 'clang' in cc else ['-fno-diagnostics-show-caret']) + [tag],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(tag)
        out = p.stdout.decode(errors='replace')
        if p.returncode < 0 or 'No space left' in out or 'Killed' in out:
            raise build.BuildError(out[-2000:])
        if p.returncode == 0:
            return {}, ''
        bad = {}
        lines = out.splitlines()
        for i, line in enumerate(lines):
            m = re.match(r'cases:(\d+):\d+: error', line)
            if m:
                bad.setdefault(int(m.group(1)) - 1, '\n'.join(lines[i:i + 4]).replace(self.src + '/', ''))
        return bad, out.replace(self.src + '/', '')


def run(prop, tier, seed, replay, out_dir):
    tree = build.Tree().prepare()
    judge = Judge(os.path.join(tree.root, 'src'), out_dir)
    if replay:
        lines = open(replay).read().splitlines()
        cc, std = lines[0].split()[1:3]
        exprs = [x[7:] for x in lines if x.startswith('assert ')]
        bad, out = judge.failing(cc, std, exprs)
        why = '\n'.join(bad.values()) or out
        print('replay ' + ('fails: ' + why[-2000:] if why else 'holds'))
        return {'evaluations': 1}, replay if why else None
    ways = [('g++', 'c++20'), ('clang++', 'c++20'), ('g++', 'c++23'), ('clang++', 'c++23')]
    n_programs, n_asserts = (16, 900) if tier == 'quick' else (400, 1500)
    programs = []
    for i in range(n_programs):
        r = random.Random(f'{seed}-{i}')
        programs.append((ways[i % 4], [case(r) for _ in range(n_asserts)]))
    total, seen, classes, samples, failure = 0, set(), {}, [], None
    end = time.time() + (300 if tier == 'quick' else 3000)

    def one(p):
        return (p, None) if time.time() > end else (p, judge.failing(*p[0], [e for e, _ in p[1]]))
    with cf.ThreadPoolExecutor(8) as ex:
        for ((cc, std), cases), res in ex.map(one, programs):
            if res is None:
                continue
            total += len(cases)
            for e, nontrivial in cases:
                kind = re.match(r'\W*(\w+(<\w+>)?)', e).group(1)
                classes['kind.' + kind] = classes.get('kind.' + kind, 0) + 1
                if nontrivial:
                    seen.add(e)
                if sum(s.startswith(kind) for s in samples) < 2 and len(samples) < 30:
                    samples.append(f'{kind}: {e[:300]}')
            classes[f'compiler.{cc}-{std}'] = classes.get(f'compiler.{cc}-{std}', 0) + 1
            bad, out = res
            if out:
                # the smallest assertion that fails, or the whole preamble
                e = min((cases[i][0] for i in bad), key=len) if bad else None
                why = bad[[i for i in bad if cases[i][0] == e][0]] if bad else out[:3000]
                if failure is None or (failure[2] is not None and (e is None or len(e) < len(failure[2]))):
                    failure = (cc, std, e, why)
    violation = None
    if failure:
        cc, std, e, why = failure
        violation = os.path.join(build.VERIF, 'replays', f'{prop}.txt')
        with open(violation, 'w') as f:
            f.write(f'program {cc} {std}\n' + (f'assert {e}\n' if e else '') + '\n' + why + '\n')
        print(f'{cc} -std={std}: ' + (f'static_assert({e}) fails' if e else 'the uses do not compile') + '\n' + why)
    return {'evaluations': total, 'distinct_nontrivial': len(seen),
            'rule': 'an assertion is non-trivial if it has a character of more than one unit, an ill-formed sequence, a changed field or an array history',
            'samples': samples, 'exhaustive': False, 'classes': classes,
            'assumptions': ['gcc 13 and clang 18 with libstdc++, C++20 and C++23', 'wchar_t of 32 bits']}, violation
