"""P43: which instructions of a shared object need which extension of the CPU, and a copy of the object in which
cpuid and xgetbv trap, so that the harness can pretend to be another CPU (see harness/h_cpu.cpp)."""
import os
import re
import struct
import subprocess

import build

# the classes of the side file, in the order of the bits in h_cpu.cpp
CLASSES = ['AVX', 'AVX2', 'FMA', 'F16C', 'BMI1', 'BMI2', 'POPCNT', 'LZCNT', 'SSE4.2', 'AVX512F', 'AVX512BW', 'AVX512DQ', 'AVX512VL', 'AVX512-other']
BIT = {c: 1 << i for i, c in enumerate(CLASSES)}
BMI1 = {'andn', 'bextr', 'blsi', 'blsmsk', 'blsr'}
BMI2 = {'bzhi', 'mulx', 'pdep', 'pext', 'rorx', 'sarx', 'shlx', 'shrx'}
SSE42 = re.compile(r'^(pcmpgtq|crc32[bwlq]?|pcmp[ei]str[im])$')
MASK = re.compile(r'^k(mov|or|and|andn|xor|xnor|not|test|ortest|unpck|shiftl|shiftr|add)(b|w|d|q|bw|wd|dq)$')
BYTES_WORDS = re.compile(
    r'^v(p(cmp(eq|gt|n?eq|n?lt|n?le|lt|le|nlt|nle|neq|ordinal)?u?[bw]|add(s|us)?[bw]|sub(s|us)?[bw]|movm2[bw]|mov[bw]2m|shufb|shuf[hl]w|alignr|ack[us]s(wb|dw)|ackuswb|ackusdw|acksswb|ackssdw'
    r'|unpck[hl](bw|wd)|testn?m[bw]|blendm[bw]|broadcast[bw]|s(ll|rl|ra)v?w|s(ll|rl)dq|madd(ubsw|wd)|mul(l|h|hu|hrs)w|avg[bw]|(min|max)[us][bw]|sadbw|mov[sz]xbw|mov(us|s)?wb|abs[bw]|erm[it]?2?w|extr[bw]|insr[bw])'
    r'|movdqu(8|16)|dbpsadbw)$')
DQ = re.compile(r'^v(p(mullq|movm2[dq]|mov[dq]2m|extr[dq]|insr[dq])|(and|andn|or|xor)p[sd]|(insert|extract)[fi](64x2|32x8)|broadcast[fi](64x2|32x2|32x8)|cvt\w*qq\w*|range\w*|reduce\w*|fpclass\w*)$')
OTHER = re.compile(r'^vp(ermi?2?t?b|multishiftqb|compress[bw]|expand[bw]|sh[lr]dv?[wdq]|popcnt[bwdq]|shufbitqmb|dp(bus|wss)ds?|conflict[dq]|lzcnt[dq]|madd52[lh]uq|broadcastm\w*)$')
AVX2_ONLY = re.compile(r'^vp(broadcast\w|blendd|s[lr]lv\w|srav\w|maskmov\w|gather\w\w|erm\w+)$|^v(inserti128|extracti128|broadcasti128|perm2i128|gather\w+)$')


def need(mnemonic, operands):
    """The extensions an instruction needs, as a list of classes; None for what every x86-64 CPU with SSE4.1 has."""
    m = mnemonic
    if MASK.match(m):
        kind = MASK.match(m).group(2)
        return ['AVX512F'] if kind in ('w', 'bw') else ['AVX512F', 'AVX512DQ' if kind == 'b' else 'AVX512BW']
    if m.startswith('v') and not re.match(r'^v(err|erw|erv|m(call|launch|resume|xo|read|write|ptr|clear|load|run|save|func|mcall))', m):
        if re.search(r'%zmm|%k[0-7]|\{|%[xy]mm(1[6-9]|2\d|3[01])', operands):
            r = ['AVX512F']
            if BYTES_WORDS.match(m):
                r.append('AVX512BW')
            if DQ.match(m):
                r.append('AVX512DQ')
            if OTHER.match(m):
                r.append('AVX512-other')
            if '%zmm' not in operands and re.match(r'^v(p|movd|mov[au]p|movap|broadcast|perm|blend|add p|and|or|xor)', m) and not re.match(r'^vp(extr|insr)', m):
                r.append('AVX512VL')
            return r
        if m.startswith(('vfm', 'vfnm')):
            return ['FMA', 'AVX']
        if m.startswith(('vcvtph2ps', 'vcvtps2ph')):
            return ['F16C', 'AVX']
        if AVX2_ONLY.match(m) and not m.startswith(('vpermilp', 'vperm2f')):
            return ['AVX2', 'AVX']
        if m.startswith('vp') and '%ymm' in operands and not m.startswith(('vperm', 'vptest')):
            return ['AVX2', 'AVX']
        if m.startswith(('vmpsadbw', 'vmovntdqa')) and '%ymm' in operands:
            return ['AVX2', 'AVX']
        if m in ('vbroadcastss', 'vbroadcastsd') and '(' not in operands:
            return ['AVX2', 'AVX']
        return ['AVX']
    if m.rstrip('lq') in BMI1 or m in BMI1:
        return ['BMI1']
    if m.rstrip('lq') in BMI2 or m in BMI2:
        return ['BMI2']
    if m.startswith('popcnt'):
        return ['POPCNT']
    if m.startswith('lzcnt'):
        return ['LZCNT']
    if SSE42.match(m):
        return ['SSE4.2']
    return None


def offsets(so):
    """Maps addresses to file offsets."""
    b = build.read(so)
    phoff, = struct.unpack_from('<Q', b, 32)
    phentsize, phnum = struct.unpack_from('<HH', b, 54)
    segments = []
    for i in range(phnum):
        kind, flags, off, vaddr, _, filesz = struct.unpack_from('<IIQQQQ', b, phoff + i * phentsize)
        if kind == 1:
            segments.append((vaddr, off, filesz))
    return lambda a: next(off + a - v for v, off, n in segments if v <= a < v + n)


def prepare(so):
    """Writes <so>.cpu (the copy) and <so>.sites: one line 'offset classes mnemonic' for each instruction that needs something."""
    copy, side = so + '.cpu', so + '.sites'
    if os.path.exists(side) and os.path.exists(copy):
        return copy
    out = subprocess.run(['objdump', '-d', '-w', '--no-show-raw-insn', so], stdout=subprocess.PIPE, check=True).stdout.decode()
    where = offsets(so)
    data = bytearray(build.read(so))
    lines = []
    for x in re.finditer(r'^ *([0-9a-f]+):\t(?:(?:rep|repz|repnz|lock|bnd|notrack|data16|cs|ds|es|ss|fs|gs) )*(\S+) *(.*)$', out, flags=re.M):
        m = x.group(2)
        if m in ('cpuid', 'xgetbv'):
            at = where(int(x.group(1), 16))
            want = b'\x0f\xa2' if m == 'cpuid' else b'\x0f\x01\xd0'
            if data[at:at + len(want)] != want:
                raise build.BuildError(f'{m} of an unexpected form at {x.group(1)} of {so}')
            data[at] = 0xCC
            continue
        if m[0] not in 'vkabrmpslzc':
            continue
        r = need(m, x.group(3).split('#')[0])
        if r:
            lines.append(f'{where(int(x.group(1), 16))} {sum(BIT[c] for c in r)} {m}\n')
    tmp = f'{copy}.{os.getpid()}.tmp'
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, copy)
    with open(tmp, 'w') as f:
        f.write(''.join(lines))
    os.replace(tmp, side)
    return copy
