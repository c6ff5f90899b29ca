"""P27: tablegen run on rewritten UCD directories.

Three kinds of generated inputs:
  rewrite    the UCD files rewritten without changing their meaning -> the answers of the
             generated tables (dump_tables) are those of the pristine files;
  edit       the data of some codepoints changed, one entry each -> the edited codepoint has the
             new answer, every other codepoint keeps all its answers;
  malformed  lines damaged -> tablegen ends by itself, without a crash.
The answers are compared after compiling the generated files with the library; how the generated
files look does not matter."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

import build
from build import BUILD, COMMON, GENERATED, UCD, VERIF, BuildError, read, sha

CXX = 'g++'
FLAGS = COMMON + ['-O1', '-w', '-g0']

# {{{ files
# ranges: lines are "codepoint(s) ; value..." and a range is short for its codepoints
RANGE_FILES = ['extracted/DerivedGeneralCategory.txt', 'DerivedCoreProperties.txt', 'Scripts.txt', 'IndicSyllabicCategory.txt',
               'ScriptExtensions.txt', 'auxiliary/GraphemeBreakProperty.txt', 'auxiliary/WordBreakProperty.txt', 'EastAsianWidth.txt',
               'HangulSyllableType.txt', 'emoji/emoji-data.txt', 'DerivedNormalizationProps.txt', 'DerivedAge.txt',
               'extracted/DerivedName.txt']
OTHER_FILES = ['Blocks.txt', 'emoji/emoji-variation-sequences.txt', 'BidiMirroring.txt', 'UnicodeData.txt', 'CaseFolding.txt',
               'SpecialCasing.txt', 'CompositionExclusions.txt', 'PropertyValueAliases.txt']
ALL_FILES = RANGE_FILES + OTHER_FILES
# comments name the section's property or value here: lines stay within their section
SECTIONED = {'PropertyValueAliases.txt', 'extracted/DerivedGeneralCategory.txt'}

_pristine = {}


def pristine(name):
    if name not in _pristine:
        with open(os.path.join(UCD, name), encoding='utf-8') as f:
            _pristine[name] = f.read().split('\n')
        if _pristine[name] and _pristine[name][-1] == '':
            _pristine[name].pop()
    return _pristine[name]


def is_data(line):
    s = line.strip()
    return bool(s) and s[0] not in '#@'


def split_comment(line):
    k = line.find('#')
    return (line, '') if k < 0 else (line[:k], line[k:])


def span(field):
    field = field.strip()
    if '..' in field:
        a, b = field.split('..')
        return int(a, 16), int(b, 16)
    return int(field, 16), int(field, 16)


def rng(a, b):
    return f'{a:04X}' if a == b else f'{a:04X}..{b:04X}'
# }}}


# {{{ meaning-preserving rewrites: op(rnd, name, lines) -> lines
def sections(name, lines):
    """Index lists of data lines that may change places."""
    if name not in SECTIONED:
        return [[i for i, x in enumerate(lines) if is_data(x)]]
    out, cur = [], []
    for i, x in enumerate(lines):
        if is_data(x):
            cur.append(i)
        elif x.lstrip().startswith('#') and cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def units(name, lines, idx):
    """Lines that have to stay together (the First/Last pairs of UnicodeData)."""
    res, i = [], 0
    while i < len(idx):
        n = 2 if name == 'UnicodeData.txt' and ', First>' in lines[idx[i]] else 1
        res.append([lines[j] for j in idx[i:i + n]])
        i += n
    return res


def op_shuffle(rnd, name, lines):
    lines = list(lines)
    for idx in sections(name, lines):
        u = units(name, lines, idx)
        how = rnd.randrange(3)
        if how == 0:
            rnd.shuffle(u)
        elif how == 1:
            u.reverse()
        else:  # some move
            for _ in range(max(1, len(u) // 50)):
                i, j = rnd.randrange(len(u)), rnd.randrange(len(u))
                u[i], u[j] = u[j], u[i]
        flat = [x for g in u for x in g]
        for i, x in zip(idx, flat):
            lines[i] = x
    return lines


def op_split(rnd, name, lines):
    if name not in RANGE_FILES and name != 'CompositionExclusions.txt':
        return lines
    p = rnd.choice([0.02, 0.3, 1.0])
    out = []
    for x in lines:
        body, comment = split_comment(x)
        if not is_data(x) or '..' not in body or rnd.random() > p:
            out.append(x)
            continue
        head, sep, rest = body.partition(';')
        a, b = span(head)
        k = rnd.choice([1, 1, 2, 3])
        if b - a < 40 and rnd.random() < 0.2:
            cuts = list(range(a, b))
        else:
            cuts = sorted({rnd.choice([a, b - 1, rnd.randrange(a, b)]) for _ in range(k)})
        at = a
        for c in cuts + [b]:
            out.append(f'{rng(at, c)} {sep}{rest}{comment}')
            at = c + 1
    return out


def op_merge(rnd, name, lines):
    if name not in RANGE_FILES:
        return lines
    p = rnd.choice([0.1, 1.0])
    out = []
    for x in lines:
        if is_data(x) and out and is_data(out[-1]) and rnd.random() < p:
            b0, _ = split_comment(out[-1])
            b1, c1 = split_comment(x)
            h0, _, r0 = b0.partition(';')
            h1, _, r1 = b1.partition(';')
            a0, e0 = span(h0)
            a1, e1 = span(h1)
            if r0.strip() == r1.strip() and e0 + 1 == a1:
                out[-1] = f'{rng(a0, e1)} ; {r0.strip()} {c1}'
                continue
        out.append(x)
    return out


NASTY = ['', 'x', '[5] a..b', 'a; b; c', 'REVERSE SOLIDUS \\', '*/', '/*', '"quote', '0041..005A ; Lu', '##', '0', '@missing', 'ä€😀', '{', '}', '%s {}', '\t', 'U+0041', 'y \\\\', '-1']


def op_comments(rnd, name, lines):
    if name == 'UnicodeData.txt':
        return lines
    p = rnd.choice([0.05, 1.0])
    out = []
    for x in lines:
        if is_data(x):
            if rnd.random() < p:
                body, _ = split_comment(x)
                how = rnd.randrange(3)
                # without its comment, or with another one
                x = body.rstrip() if how == 0 else body.rstrip() + rnd.choice([' ', '', '\t']) + '#' + rnd.choice([' ', '']) + rnd.choice(NASTY)
            if rnd.random() < 0.02:
                out.append('#' + rnd.choice(['', '#', ' note ']) + rnd.choice(['', 'a; b', '0041 ; Lu', '0041..0042 ; Greek # x', 'some words', '------']))
            if rnd.random() < 0.02:
                # an entry commented out: this codepoint with the data of another line
                other = split_comment(rnd.choice(lines))[0]
                if is_data(other) and ';' in other and is_data(x):
                    out.append(rnd.choice(['#', '# ', '#\t', '##', '# # ']) + split_comment(x)[0].split(';')[0] + ';' + other.split(';', 1)[1])
            if name not in SECTIONED and rnd.random() < 0.01:
                out.append(rnd.choice([' ', '\t', '   ']) + '# indented; comment')
        out.append(x)
    return out


def op_blank(rnd, name, lines):
    out = []
    for x in lines:
        if rnd.random() < 0.02:
            out += rnd.choice([[''], ['', ''], ['   '], ['\t'], [' \t ']])
        out.append(x)
    return out + [''] * rnd.randrange(3)


def op_space(rnd, name, lines):
    if name == 'UnicodeData.txt':
        return lines
    p = rnd.choice([0.05, 1.0])
    ws = ['', ' ', '  ', '\t', ' \t', '          ']
    out = []
    for x in lines:
        if not is_data(x) or rnd.random() > p:
            out.append(x)
            continue
        body, comment = split_comment(x)
        fields = [f.strip() for f in body.split(';')]
        y = rnd.choice(['', '', ' ', '\t', '   '])
        y += ';'.join((rnd.choice(ws) if i else '') + f + rnd.choice(ws) for i, f in enumerate(fields))
        out.append(y + comment)
    return out


def op_lists(rnd, name, lines):
    """More blanks between the members of a list."""
    if name not in ('ScriptExtensions.txt', 'SpecialCasing.txt', 'CaseFolding.txt', 'emoji/emoji-variation-sequences.txt'):
        return lines
    out = []
    for x in lines:
        if is_data(x) and rnd.random() < 0.5:
            body, comment = split_comment(x)
            x = re.sub(r'(?<=[0-9A-Za-z]) (?=[0-9A-Za-z])', lambda m: ' ' * rnd.randrange(1, 4), body) + comment
        out.append(x)
    return out


def op_crlf(rnd, name, lines):
    p = rnd.choice([1.0, 0.5])
    return [x + '\r' if rnd.random() < p and not x.endswith('\r') else x for x in lines]


def op_no_final_newline(rnd, name, lines):
    # the last line is one with data
    lines = list(lines)
    while lines and not is_data(lines[-1]):
        lines.pop()
    return lines + ['\0']


OPS = dict(shuffle=op_shuffle, split=op_split, merge=op_merge, comments=op_comments, blank=op_blank, space=op_space, lists=op_lists,
           crlf=op_crlf, nofinal=op_no_final_newline)
# }}}


# {{{ single-entry edits
class Edits:
    """Applies edits of single entries and knows what has to change."""

    def __init__(self, base):
        self.base = base  # Dump of the pristine files
        self.in_decompositions = set()
        self.unicode_data = {}
        for x in pristine('UnicodeData.txt'):
            f = x.split(';')
            self.unicode_data[int(f[0], 16)] = f
            d = f[5].split('>')[-1].split()
            self.in_decompositions.update(int(v, 16) for v in d)

    def pick(self, rnd):
        k = rnd.randrange(6)
        if k == 0:
            return rnd.choice([0, 0x10FFFF, 0xFF, 0x100, 0xFFFF, 0x10000, 0x378, 0xD7FF, 0xE000, 0x1FFFF, 0x20000, 0xE0FFF, 0x3FFFF])
        if k == 1:
            return (rnd.randrange(0x1100) << 8) + rnd.choice([0, 255])
        if k == 2:
            return rnd.randrange(0x110000)
        return rnd.choice(sorted(self.unicode_data)) if rnd.random() < 0.02 else rnd.choice(self._assigned())

    def _assigned(self):
        if not hasattr(self, '_a'):
            self._a = sorted(self.unicode_data)
        return self._a

    def values(self, name, field=1):
        """value -> a codepoint that has it (the donor)."""
        res = {}
        for x in pristine(name):
            if is_data(x):
                f = split_comment(x)[0].split(';')
                res.setdefault(';'.join(v.strip() for v in f[field:]), []).append(span(f[0])[0])
        return res

    # name of the edit -> (file, columns that take the donor's answers)
    DONOR = {
        'gc': ('extracted/DerivedGeneralCategory.txt', ['gc', 'gc-query', 'contains-gc']),
        'script': ('Scripts.txt', ['script', 'script-query']),
        'eaw': ('EastAsianWidth.txt', ['eaw', 'eaw-query']),
        'age': ('DerivedAge.txt', ['age']),
        'gcb': ('auxiliary/GraphemeBreakProperty.txt', ['gcb', 'gcb-query']),
        'wb': ('auxiliary/WordBreakProperty.txt', ['wb']),
        'scx': ('ScriptExtensions.txt', ['scx']),
        'isc': ('IndicSyllabicCategory.txt', ['virama']),
    }

    def random(self, rnd, cp):
        """An edit of cp: a JSON-able list, or None if the drawn kind does not apply to cp."""
        kind = rnd.choice(list(self.DONOR) + ['core', 'core', 'core', 'emoji', 'emoji', 'incb', 'name', 'name', 'ccc', 'upper', 'lower', 'title', 'fold', 'special', 'mirror',
                                              'mirrored', 'variation', 'exclusion', 'qc', 'decomposition', 'canonical', 'block', 'block'])
        u = self.unicode_data.get(cp)
        base = self.base
        if kind in self.DONOR:
            vals = self.values(self.DONOR[kind][0])
            v = rnd.choice(sorted(vals))
            return [kind, cp, v, vals[v][0]]
        if kind == 'incb':
            vals = {v: d for v, d in self.values('DerivedCoreProperties.txt').items() if v.startswith('InCB')}
            v = rnd.choice(sorted(vals))
            return [kind, cp, v, vals[v][0]]
        if kind == 'core':
            v = rnd.choice(sorted(v for v in self.values('DerivedCoreProperties.txt') if ';' not in v))
            return [kind, cp, v, base.at('core:' + v, cp) != 'Y']
        if kind == 'emoji':
            props = ['Emoji', 'Emoji_Component', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Emoji_Presentation', 'Extended_Pictographic']
            v = rnd.choice(props)
            return [kind, cp, v, base.at('emoji-query', cp)[props.index(v)] == '0']
        if kind == 'name':
            return [kind, cp, rnd.choice(['PBT NAME', 'X', 'A' * 300, 'NAME WITH - AND *', 'CJK UNIFIED IDEOGRAPH-*', 'SPACE'])]
        if kind == 'block':
            blocks = [span(split_comment(x)[0].split(';')[0]) for x in pristine('Blocks.txt') if is_data(x)]
            a, b = rnd.choice(blocks)
            # the codepoint at one of its ends leaves the block, or the unlisted one beyond joins it
            options = [a, b] + [c for c in (a - 1, b + 1) if 0 <= c <= 0x10FFFF and not any(x <= c <= y for x, y in blocks)]
            return [kind, rnd.choice(options), a, b]
        if kind in ('ccc', 'upper', 'lower', 'title', 'mirrored', 'decomposition', 'canonical'):
            if not u or u[1].endswith('First>') or u[1].endswith('Last>') or cp in self.in_decompositions or 0xAC00 <= cp <= 0xD7A3:
                return None
            if kind == 'ccc':
                return [kind, cp, rnd.choice([0, 1, 7, 9, 220, 230, 240, 254])]
            if kind == 'mirrored':
                return [kind, cp, 'N' if u[9] == 'Y' else 'Y']
            if kind == 'canonical':
                if u[5] or u[3] != '0' or base.at('exclusion', cp) != '00':
                    return None
                target = rnd.choice([0x41, 0x62, 0x3B1, 0x4E00, 0x1F600, 0x10330])
                return [kind, cp, [target] if rnd.randrange(2) else [target, rnd.choice([0x1AB0, 0x1AB1, 0x1AB2, 0x20D0, 0x20D1, 0x1DC0, 0x1E000, 0x10A0F])]]
            if kind == 'decomposition':
                if u[5]:
                    return None
                tag, ty = rnd.choice([('<font>', 'Font'), ('<compat>', 'Compat'), ('<wide>', 'Wide'), ('<circle>', 'Circle')])
                return [kind, cp, tag, ty, ' '.join(f'{v:04X}' for v in rnd.sample([0x41, 0x62, 0x3B1, 0x4E00, 0x1F600, 0x10330], rnd.randrange(1, 5)))]
            t = self.pick(rnd)
            return None if t == cp or t == 0 else [kind, cp, t]
        if kind == 'fold':
            if base.at('fold', cp) != '=' or base.at('full-fold', cp) != '=':
                return None
            how = rnd.choice(['C', 'S', 'F'])
            n = 1 if how in 'CS' else rnd.randrange(2, 4)
            to = [self.pick(rnd) for _ in range(n)]
            return None if cp in to or 0 in to else [kind, cp, how, to]
        if kind == 'special':
            if any(base.at(c, cp) != '=' for c in ('full-upper', 'full-lower', 'full-title')):
                return None
            l, t, p = ([rnd.choice([0x41, 0x307, 0x10400, 0x1E9E, 0xDF, 0x66]) for _ in range(rnd.randrange(1, 4))] for _ in range(3))
            return [kind, cp, l, t, p]
        if kind == 'mirror':
            if base.at('mirror', cp) != '=':
                return None
            t = self.pick(rnd)
            return None if t == cp else [kind, cp, t]
        if kind == 'variation':
            return None if base.at('variation-base', cp) == '1' else [kind, cp]
        if kind == 'exclusion':
            return None if base.at('exclusion', cp) != '00' or cp in self.in_decompositions else [kind, cp]
        if kind == 'qc':
            w, v = rnd.choice([('NFC_QC', 'N'), ('NFC_QC', 'M'), ('NFKC_QC', 'N'), ('NFKC_QC', 'M'), ('NFD_QC', 'N'), ('NFKD_QC', 'N')])
            return None if base.at('nfc-qc', cp) != 'Yes' or base.at('nfkc-qc', cp) != 'Yes' or base.at('nfd-qc', cp) != '11' else [kind, cp, w, v]
        return None

    def again(self, edit, cp):
        """The edit made for another codepoint, where every codepoint can have it."""
        kind = edit[0]
        if kind in self.DONOR or kind in ('incb', 'name'):
            return [kind, cp] + edit[2:]
        if kind == 'core':
            return [kind, cp, edit[2], True] if edit[3] and self.base.at('core:' + edit[2], cp) != 'Y' else None
        return None

    @staticmethod
    def assign(lines, cp, value, matches, at_value=None):
        """cp leaves the lines that `matches` accepts; with a value it gets a line of its own beside one with the same value."""
        out = []
        where = None
        for x in lines:
            body, comment = split_comment(x)
            if is_data(x):
                head, _, rest = body.partition(';')
                v = ';'.join(f.strip() for f in rest.split(';'))
                a, b = span(head)
                if matches(v):
                    if a <= cp <= b:
                        if a < cp:
                            out.append(f'{rng(a, cp - 1)} ;{rest}{comment}')
                        if cp < b:
                            out.append(f'{rng(cp + 1, b)} ;{rest}{comment}')
                        if v == value:
                            where = len(out)
                        continue
                out.append(x)
                if value is not None and v == value:
                    where = len(out)
            else:
                out.append(x)
        if value is not None:
            line = f'{cp:04X} ; {value} # edited'
            if where is None:
                out.append(line)
            else:
                out.insert(where, line)
        return out

    def apply(self, edit, files):
        """Changes files (name -> lines); returns what has to hold: [(column, answer)]."""
        kind, cp = edit[0], edit[1]
        base = self.base

        def get(n):
            if n not in files:
                files[n] = list(pristine(n))
            return files[n]

        def field(i, v):
            ls = get('UnicodeData.txt')
            for k, x in enumerate(ls):
                if int(x.split(';', 1)[0], 16) == cp:
                    f = x.split(';')
                    f[i] = v
                    ls[k] = ';'.join(f)
                    return
            raise AssertionError('no such line')

        def insert(n, line):
            ls = get(n)
            k = max(i for i, x in enumerate(ls) if is_data(x))
            ls.insert(k + 1 if cp & 1 else 1 + next(i for i, x in enumerate(ls) if is_data(x)), line)

        def eq(t):
            return '=' if t == cp else f'{t:04X}'
        if kind in self.DONOR:
            n, cols = self.DONOR[kind]
            files[n] = self.assign(get(n), cp, edit[2], lambda v: True)
            return [(c, base.at(c, edit[3])) for c in cols]
        if kind == 'incb':
            n = 'DerivedCoreProperties.txt'
            files[n] = self.assign(get(n), cp, edit[2], lambda v: v.startswith('InCB'))
            return [('incb', base.at('incb', edit[3]))]
        if kind == 'core':
            n = 'DerivedCoreProperties.txt'
            files[n] = self.assign(get(n), cp, edit[2] if edit[3] else None, lambda v: v == edit[2])
            return [('core:' + edit[2], 'Y' if edit[3] else 'N')]
        if kind == 'emoji':
            n = 'emoji/emoji-data.txt'
            files[n] = self.assign(get(n), cp, edit[2] if edit[3] else None, lambda v: v == edit[2])
            props = ['Emoji', 'Emoji_Component', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Emoji_Presentation', 'Extended_Pictographic']
            q = list(base.at('emoji-query', cp))
            q[props.index(edit[2])] = '1' if edit[3] else '0'
            return [('emoji-query', ''.join(q))]
        if kind == 'name':
            n = 'extracted/DerivedName.txt'
            files[n] = self.assign(get(n), cp, edit[2], lambda v: True)
            return [('name', edit[2])]
        if kind == 'ccc':
            field(3, str(edit[2]))
            return [('ccc', str(edit[2]))]
        if kind in ('upper', 'lower', 'title'):
            field({'upper': 12, 'lower': 13, 'title': 14}[kind], f'{edit[2]:04X}')
            return [(kind, eq(edit[2]))]
        if kind == 'mirrored':
            field(9, edit[2])
            return [('mirrored', '1' if edit[2] == 'Y' else '0')]
        if kind == 'decomposition':
            field(5, f'{edit[2]} {edit[4]}')
            return [('nfkd', edit[4]), ('dtype', edit[3]), ('nfd', '=')]
        if kind == 'block':
            a, b = edit[2:4]
            ls = get('Blocks.txt')
            for k, x in enumerate(ls):
                if is_data(x):
                    head, _, rest = x.partition(';')
                    c, d = span(head)
                    if c <= b and d >= a and abs(c - a) < 2 and abs(d - b) < 2:
                        inside = a <= cp <= b
                        if cp < c or (cp == c and inside):
                            c = cp + 1 if inside else cp
                        else:
                            d = cp - 1 if inside else cp
                        ls[k] = f'{c:04X}..{d:04X};{rest}'
                        return [('block', base.at('block', 0x2FE0 if inside else a))]
            raise AssertionError('no such block')
        if kind == 'canonical':
            to = ' '.join(f'{t:04X}' for t in edit[2])
            field(5, to)
            if len(edit[2]) == 1:
                insert('DerivedNormalizationProps.txt', f'{cp:04X} ; Full_Composition_Exclusion # edited')
            return [('nfd', to), ('nfkd', to), ('dtype', 'Canonical'), ('nfc', to if len(edit[2]) == 1 else '=')]
        if kind == 'fold':
            insert('CaseFolding.txt', f'{cp:04X}; {edit[2]}; {" ".join(f"{t:04X}" for t in edit[3])}; # edited')
            res = []
            if edit[2] in 'CS':
                res.append(('fold', eq(edit[3][0])))
            if edit[2] in 'CF':
                res.append(('full-fold', ' '.join(f'{t:04X}' for t in edit[3])))
            return res
        if kind == 'special':
            def s(x):
                return ' '.join(f'{t:04X}' for t in x)
            insert('SpecialCasing.txt', f'{cp:04X}; {s(edit[2])}; {s(edit[3])}; {s(edit[4])}; # edited')
            return [('full-' + c, '=' if len(x) == 1 and x[0] == cp else s(x)) for c, x in zip(('lower', 'title', 'upper'), edit[2:])]
        if kind == 'mirror':
            insert('BidiMirroring.txt', f'{cp:04X}; {edit[2]:04X} # edited')
            return [('mirror', eq(edit[2]))]
        if kind == 'variation':
            insert('emoji/emoji-variation-sequences.txt', f'{cp:04X} FE0E ; text style; # edited')
            return [('variation-base', '1')]
        if kind == 'exclusion':
            insert('CompositionExclusions.txt', f'{cp:04X} # edited')
            return [('exclusion', '1' + base.at('exclusion', cp)[1])]
        if kind == 'qc':
            insert('DerivedNormalizationProps.txt', f'{cp:04X} ; {edit[2]}; {edit[3]} # edited')
            name = {'N': 'No', 'M': 'Maybe'}[edit[3]]
            return [{'NFC_QC': ('nfc-qc', name), 'NFKC_QC': ('nfkc-qc', name), 'NFD_QC': ('nfd-qc', '01'), 'NFKD_QC': ('nfd-qc', '10')}[edit[2]]]
        raise AssertionError(kind)
# }}}


# {{{ building and dumping
class Dump:
    def __init__(self, text):
        self.columns = {}
        for line in text.split('\n'):
            if line:
                c, a, b, v = line.split('\t', 3)
                self.columns.setdefault(c, []).append((int(a, 16), int(b, 16), v))

    def at(self, column, cp):
        runs = self.columns[column]
        lo, hi = 0, len(runs) - 1
        while lo < hi:
            m = (lo + hi) // 2
            if runs[m][1] < cp:
                lo = m + 1
            else:
                hi = m
        return runs[lo][2]

    def differences(self, other, limit=400):
        """[(column, codepoint, mine, other's)]"""
        res = []
        if self.columns.keys() != other.columns.keys():
            for c in sorted(self.columns.keys() ^ other.columns.keys()):
                res.append((c, 0, 'column ' + ('present' if c in self.columns else 'missing'), 'column ' + ('present' if c in other.columns else 'missing')))
        for c in self.columns.keys() & other.columns.keys():
            if self.columns[c] == other.columns[c]:
                continue
            A, B = self.columns[c], other.columns[c]
            i = j = 0
            at = 0
            while i < len(A) and j < len(B):
                e = min(A[i][1], B[j][1])
                if A[i][2] != B[j][2]:
                    for cp in range(at, min(e, at + limit) + 1):
                        res.append((c, cp, A[i][2], B[j][2]))
                        if len(res) > limit * 10:
                            return res
                at = e + 1
                i += A[i][1] == e
                j += B[j][1] == e
        return res


class Generator:
    def __init__(self, scratch):
        self.scratch = scratch
        self.tree = build.Tree().prepare()
        self.tablegen = self.tree.tablegen('rel')
        self.deps = {}
        self.lock = threading.Lock()
        self.serial = 0

    def fresh(self):
        with self.lock:
            self.serial += 1
            d = os.path.join(self.scratch, f'case-{self.serial}')
        os.makedirs(d)
        return d

    def ucd_dir(self, where, files, raw=None):
        """A UCD directory with some files replaced (lines, or bytes in raw)."""
        u = os.path.join(where, 'ucd')
        for sub in ('', 'auxiliary', 'emoji', 'extracted'):
            os.makedirs(os.path.join(u, sub), exist_ok=True)
            for f in os.listdir(os.path.join(UCD, sub)):
                p = os.path.join(UCD, sub, f)
                if os.path.isfile(p) and f.endswith('.txt') and os.path.join(sub, f) not in files and os.path.join(sub, f) not in (raw or {}):
                    os.symlink(p, os.path.join(u, sub, f))
        for n, lines in files.items():
            text = '\n'.join(lines) + '\n'
            text = text.replace('\n\0\n', '').replace('\0', '')
            with open(os.path.join(u, n), 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        for n, b in (raw or {}).items():
            with open(os.path.join(u, n), 'wb') as f:
                f.write(b)
        return u

    def generate(self, where, ucd):
        out = os.path.join(where, 'gen')
        os.makedirs(out)
        try:
            p = subprocess.run([self.tablegen, ucd, out, 'unicode::precompiled'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            return None, 'tablegen does not end within 120 s'
        if p.returncode != 0:
            return None, f'tablegen ends with {p.returncode}: ' + p.stdout.decode(errors='replace')[-600:]
        return out, None

    def overlay(self, where, gen):
        """The library's sources with these generated files."""
        lib = os.path.join(where, 'src', 'libunicode')
        os.makedirs(lib)
        os.makedirs(os.path.join(where, 'src', 'pbt'))
        for f in os.listdir(self.tree.lib):
            p = os.path.join(self.tree.lib, f)
            if os.path.isfile(p) and f not in GENERATED:
                os.symlink(p, os.path.join(lib, f))
        for f in os.listdir(gen):
            if f in GENERATED:
                os.rename(os.path.join(gen, f), os.path.join(lib, f))
        t = build.Tree.__new__(build.Tree)
        t.src = os.path.join(where, 'src')
        t.lib = lib
        t.write_enum_tables()
        return lib

    def sources(self, lib):
        res = []
        for p in sorted(os.listdir(lib)):
            if p.endswith('.cpp') and not p.endswith(build.NOT_LIB) and p not in build.SIMD_SOURCES:
                res.append(os.path.join(lib, p))
        return res + [os.path.join(VERIF, 'harness', 'dump_tables.cpp')]

    def dependencies(self, source, src):
        """The files a source includes (by name below src; the include graph is that of the pristine files)."""
        name = os.path.basename(source)
        with self.lock:
            if name in self.deps:
                return self.deps[name]
        out = build.run([CXX] + FLAGS + ['-I', src, '-MM', source], 'dependencies of ' + name)
        words = out.decode().replace('\\\n', ' ').split()[1:]
        # (a path reached through another header may be spelled either way)
        rel = sorted({os.path.relpath(os.path.normpath(w), src) for w in words if os.path.normpath(w).startswith(src)})
        with self.lock:
            self.deps[name] = rel
        return rel

    def dump(self, where, gen):
        lib = self.overlay(where, gen)
        src = os.path.dirname(lib)
        objs = []
        for s in self.sources(lib):
            deps = self.dependencies(s, src)
            key = sha('tables', CXX, '\0'.join(FLAGS), os.path.basename(s), read(s), *[x for d in deps for x in (d, read(os.path.join(src, d)) if os.path.exists(os.path.join(src, d)) else '')])
            out = os.path.join(self.scratch, 'obj', key + '.o')
            if not os.path.exists(out):
                build.atomic([CXX] + FLAGS + ['-I', src, '-c', s, '-o'], out, 'compiling the generated ' + os.path.basename(s))
            objs.append(out)
        exe = os.path.join(where, 'dump')
        build.run([CXX] + objs + ['-o', exe], 'linking the dump')
        text = build.run([exe], 'the dump', 300).decode('utf-8', errors='replace')
        return Dump(text)
# }}}


# {{{ cases
def random_rewrite(rnd):
    """[(file, op, seed)] – applied in order."""
    ops = []
    names = ALL_FILES if rnd.random() < 0.6 else rnd.sample(ALL_FILES, rnd.randrange(1, 6))
    for n in names:
        kinds = [k for k in OPS if k not in ('crlf', 'nofinal')]
        rnd.shuffle(kinds)
        for k in kinds[:rnd.randrange(1, 5)]:
            ops.append([n, k, rnd.randrange(1 << 30)])
        if rnd.random() < 0.15:
            ops.append([n, 'crlf', rnd.randrange(1 << 30)])
        if rnd.random() < 0.15:
            ops.append([n, 'nofinal', rnd.randrange(1 << 30)])
    return ops


def rewritten(ops):
    files = {}
    changed = 0
    for n, k, seed in ops:
        before = files.get(n, pristine(n))
        files[n] = OPS[k](random.Random(seed), n, before)
        changed += sum(1 for a, b in zip(before, files[n]) if a != b) + abs(len(before) - len(files[n]))
    return files, changed


class Search:
    def __init__(self, scratch, log=print):
        self.g = Generator(scratch)
        os.makedirs(os.path.join(scratch, 'obj'), exist_ok=True)
        self.log = log
        where = self.g.fresh()
        gen, err = self.g.generate(where, UCD)
        if err:
            raise BuildError('tablegen on the pristine files: ' + err)
        self.base = self.g.dump(where, gen)
        shutil.rmtree(where)
        self.edits = Edits(self.base)
        self.stats = dict(cases=0, lines=0, edits=0, malformed=0, compared=0, same=0)
        self.labels = {}
        self.samples = []

    def label(self, k, n=1):
        with self.g.lock:
            self.labels[k] = self.labels.get(k, 0) + n

    def check_rewrite(self, ops):
        files, changed = rewritten(ops)
        where = self.g.fresh()
        try:
            gen, err = self.g.generate(where, self.g.ucd_dir(where, files))
            if err:
                return err
            try:
                d = self.g.dump(where, gen)
            except BuildError as e:
                return 'the generated files do not compile or run: ' + str(e)[-1500:]
            diff = self.base.differences(d)
            with self.g.lock:
                self.stats['lines'] += changed
                self.stats['compared'] += 0x110000 * len(self.base.columns)
            if diff:
                return f'{len(diff)} answers change, e.g. ' + '; '.join(f'{c} of U+{cp:04X}: "{a}" becomes "{b}"' for c, cp, a, b in diff[:5])
            return None
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def check_edits(self, edits):
        files, expect = {}, []
        for e in edits:
            expect += [(e, c, v) for c, v in self.edits.apply(e, files)]
        cps = {e[1] for e in edits}
        where = self.g.fresh()
        try:
            gen, err = self.g.generate(where, self.g.ucd_dir(where, files))
            if err:
                return err
            try:
                d = self.g.dump(where, gen)
            except BuildError as e:
                return 'the generated files do not compile or run: ' + str(e)[-1500:]
            with self.g.lock:
                self.stats['compared'] += 0x110000 * len(self.base.columns)
            for e, c, v in expect:
                if d.at(c, e[1]) != v:
                    return f'{c} of U+{e[1]:04X} is "{d.at(c, e[1])}" after the edit {e}, expected "{v}"'
            diff = [x for x in self.base.differences(d) if x[1] not in cps]
            if diff:
                return 'codepoints that were not edited change, e.g. ' + '; '.join(f'{c} of U+{cp:04X}: "{a}" becomes "{b}"' for c, cp, a, b in diff[:5])
            return None
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def random_edits(self, rnd, n):
        res, used, pairs = [], set(), set()
        while len(res) < n:
            if res and rnd.random() < 0.15 and res[-1][0] not in ('block', 'canonical'):
                # the same for a neighbour
                cp = res[-1][1] + rnd.choice([1, -1])
                e = self.edits.again(res[-1], cp) if 0 <= cp < 0x110000 else None
            else:
                e = self.edits.random(rnd, self.edits.pick(rnd))
            if e and e[1] not in used:
                if e[0] == 'canonical':
                    if tuple(e[2]) in pairs:
                        continue
                    if len(e[2]) > 1:
                        pairs.add(tuple(e[2]))
                res.append(e)
                used.add(e[1])
        return res

    # {{{ malformed
    def random_malformed(self, rnd):
        """[(file, line number, kind, seed)]"""
        res = []
        for n in rnd.sample(ALL_FILES, rnd.randrange(1, 4)):
            lines = pristine(n)
            data = [i for i, x in enumerate(lines) if is_data(x)]
            for _ in range(rnd.randrange(1, 4)):
                res.append([n, rnd.choice(data), rnd.randrange(1 << 30)])
        return res

    @staticmethod
    def damage(rnd, line):
        big = rnd.choice(['110000', 'FFFFFFFF', '7FFFFFFF', '80000000', '1FFFFFFFF', 'FFFFFFFFFFFFFFFFFFFFFFFF', '10FFFF', 'D800', '0', '-1'])
        k = rnd.randrange(14)
        f = line.split(';')
        if k == 0:
            return line[:rnd.randrange(len(line) + 1)]
        if k == 1:
            return line.replace(';', rnd.choice(['', ' ', ',', ';;']))
        if k == 2:
            f[0] = big
        elif k == 3:
            f[0] = f'{rnd.choice(["0", "0041", "10FFFF", big])}..{big}'
        elif k == 4:
            f[0] = rnd.choice(['', '..', '0041..', '..0041', 'XYZ', '0x41', '0041..0042..0043', '0042..0041', ' ', 'G', '0041...0042', '0041-0042'])
        elif k == 5:
            i = rnd.randrange(len(f))
            f[i] = rnd.choice(['', ' ', 'Nonsense', '<', '<compat', '>', '<>', '<compat>', big, 'ä', '"', '\\', '"; int x = "', '*', '%n%s', '(', 'A' * 3000])
        elif k == 6:
            del f[rnd.randrange(len(f))]
        elif k == 7:
            f.insert(rnd.randrange(len(f) + 1), rnd.choice(['', 'x', big]))
        elif k == 8:
            return '\x00' + line
        elif k == 9:
            i = rnd.randrange(len(line) + 1)
            return line[:i] + chr(rnd.randrange(1, 256)) + line[i:]
        elif k == 10:
            return rnd.choice([';', ';;', ';;;;;;;;;;;;;;;;;', '; ; ;', '# General_Category=', '# Property: ', '# ()', '# (', '#', '@', '..', ' ', '\r', '# General_Category=Nonsense', '# x (y)'])
        elif k == 11:
            # several targets, huge values
            f[-1 if len(f) < 3 else 2] = ' ' + ' '.join(rnd.choice([big, '0041', 'zz', '110000']) for _ in range(rnd.randrange(1, 60))) + ' '
        elif k == 12:
            return line + line
        elif k == 13:
            return line[::-1]
        return ';'.join(f)

    def check_malformed(self, spots, exe=None, timeout=90):
        files = {}
        for n, i, seed in spots:
            if n not in files:
                files[n] = list(pristine(n))
            files[n][i] = self.damage(random.Random(seed), files[n][i])
        raw = {n: ('\n'.join(ls) + '\n').encode('utf-8', errors='surrogateescape') for n, ls in files.items()}
        where = self.g.fresh()
        try:
            ucd = self.g.ucd_dir(where, {}, raw)
            out = os.path.join(where, 'gen')
            os.makedirs(out)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0', UBSAN_OPTIONS='print_stacktrace=1')
            try:
                p = subprocess.run(['bash', '-c', f'ulimit -f 400000; exec "$@"', '-', exe or self.g.tablegen, ucd, out, 'unicode::precompiled'], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=None if exe else limit_memory)
            except subprocess.TimeoutExpired:
                return f'tablegen does not end within {timeout} s'
            text = p.stdout.decode(errors='replace')
            if p.returncode not in (0, 1) or 'AddressSanitizer' in text or 'runtime error' in text:
                return f'tablegen ends with {p.returncode}: ' + text[-900:]
            if p.returncode == 1 and 'bad_alloc' in text:
                return 'tablegen runs out of memory'
            self.label('malformed.accepted' if p.returncode == 0 else 'malformed.rejected')
            return None
        finally:
            shutil.rmtree(where, ignore_errors=True)
    # }}}


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def shrink(items, fails, log, seconds=150):
    """A smaller list that still fails (delta debugging)."""
    t0 = time.time()
    n = 2
    items = list(items)
    while len(items) > 1 and time.time() - t0 < seconds:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        candidates = chunks + [[x for j, c in enumerate(chunks) if j != i for x in c] for i in range(len(chunks))] if len(chunks) > 2 else chunks
        with cf.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda c: bool(c) and fails(c) is not None, candidates))
        good = [c for c, r in zip(candidates, res) if r]
        if good:
            items = min(good, key=len)
            n = 2
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items
# }}}


def run(prop, tier, seed, replay, out_dir):
    scratch = os.path.join(out_dir, 'tables')
    os.makedirs(scratch, exist_ok=True)
    s = Search(scratch)
    print(f'{prop}: {len(s.base.columns)} columns of answers')
    asan_tablegen = s.g.tree.tablegen('asan')
    checks = {'rewrite': s.check_rewrite, 'edit': s.check_edits, 'malformed': s.check_malformed,
              'malformed-asan': lambda x: s.check_malformed(x, asan_tablegen)}
    if replay:
        with open(replay) as f:
            case = json.loads(f.readline())
        e = checks[case['kind']](case['items'])
        print(e or 'the case passes')
        return {'evaluations': 1}, (replay if e else None)

    seconds = 60 if tier == 'quick' else 1500
    deadline = time.time() + seconds
    failure = []
    distinct = set()
    counts = {}

    def one(i):
        if failure or time.time() > deadline:
            return
        rnd = random.Random(f'{seed}-{i}')
        kind = ['rewrite', 'edit', 'malformed', 'malformed-asan', 'malformed', 'edit', 'rewrite', 'malformed'][i % 8]
        if kind == 'rewrite':
            items = random_rewrite(rnd)
        elif kind == 'edit':
            items = s.random_edits(rnd, rnd.choice([1, 5, 40, 40]))
        else:
            items = s.random_malformed(rnd)
        e = checks[kind](items)
        with s.g.lock:
            counts[kind] = counts.get(kind, 0) + 1
            distinct.add(hashlib.sha256(json.dumps([kind, items]).encode()).hexdigest())
            for it in items:
                k = f'{kind}.{it[1] if kind == "rewrite" else it[0]}'
                s.labels[k] = s.labels.get(k, 0) + 1
            if len(s.samples) < 24:
                s.samples.append(f'{kind}: ' + json.dumps(items)[:300])
            if e and not failure:
                failure.append((kind, items, e))

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(100000 if tier != 'quick' else 4000)))
    violation = None
    total = sum(counts.values())
    print(f'{prop}: {counts} cases')
    if failure:
        kind, items, e = failure[0]
        print(f'{kind} case with {len(items)} items failed: {e}'[:3000])
        small = shrink(items, checks[kind], print)
        e = checks[kind](small) or e
        print(f'minimal case: {kind} {json.dumps(small)[:2000]}\n{e}'[:4000])
        violation = os.path.join(VERIF, 'replays', f'{prop}.txt')
        with open(violation, 'w') as f:
            f.write(json.dumps({'kind': kind, 'items': small}) + '\n' + e + '\n')
    cov = {
        'evaluations': total, 'distinct_nontrivial': len(distinct),
        'rule': 'a case is one UCD directory that differs from the pristine one: rewritten lines, edited entries or damaged lines; all of them are non-trivial',
        'samples': s.samples, 'exhaustive': False,
        'classes': dict(s.labels, **{f'cases.{k}': v for k, v in counts.items()}, **{'rewritten lines': s.stats['lines'], 'answers compared': s.stats['compared']}),
        'assumptions': ['the answers are those of the queries listed in harness/dump_tables.cpp, for every codepoint'],
    }
    return cov, violation
