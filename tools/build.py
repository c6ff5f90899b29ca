"""Builds the code under test from /repo's working tree, plus harnesses, into /verif/build.

Everything is keyed by content: an object file is reused only if its source, every header of the
overlay, and its command line are the same."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
UCD = '/usr/share/unicode'
UCD_VERSION = '15.1.0'

GENERATED = ['ucd.cpp', 'ucd.h', 'ucd_enums.h', 'ucd_fmt.h', 'ucd_ostream.h', 'case_normalization_data.h',
             'codepoint_properties_data.h', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
# Sources in src/libunicode that are not part of the library.
NOT_LIB = ('_test.cpp', 'test_main.cpp', 'benchmark.cpp', 'codepoint_properties_loader.cpp')
SIMD_SOURCES = {'simd_detector.cpp', 'scan256.cpp', 'scan512.cpp', 'convert256.cpp', 'convert512.cpp'}

COMMON = ['-std=c++20', '-pipe']
VARIANTS = {
    'asan': dict(cxx='clang++', simd='intrinsics',
                 flags=['-O1', '-gline-tables-only', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                        '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-w']),
    'rel': dict(cxx='g++', simd='intrinsics', flags=['-O2', '-g0', '-w']),
    'ndebug': dict(cxx='g++', simd='intrinsics', flags=['-O3', '-g0', '-w', '-DNDEBUG']),
    'std': dict(cxx='g++', simd='std', flags=['-O2', '-g0', '-w']),
    'none': dict(cxx='g++', simd='none', flags=['-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'tsan': dict(cxx='clang++', simd='intrinsics', flags=['-O1', '-gline-tables-only', '-fsanitize=thread', '-fno-omit-frame-pointer', '-w']),
    'work': dict(cxx='clang++', simd='intrinsics', flags=['-O1', '-g0', '-fsanitize-coverage=trace-pc-guard', '-w']),
    'cov': dict(cxx='clang++', simd='intrinsics', flags=['-O1', '-g0', '-fprofile-instr-generate', '-fcoverage-mapping', '-DPBT_COV', '-w'],
                link=['-fprofile-instr-generate']),  # only for tools/coverage.py
    'fuzz': dict(cxx='clang++', simd='intrinsics',
                 flags=['-O1', '-gline-tables-only', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all',
                        '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w'],
                 link=['-fsanitize=fuzzer']),
}
SIMD_DEFS = {'intrinsics': ['-DLIBUNICODE_USE_INTRINSICS'], 'std': ['-DLIBUNICODE_USE_STD_SIMD'], 'none': []}


class BuildError(Exception):
    pass


class ProbeError(BuildError):
    """The part of a harness that only uses what a header declares (<name>.c, <name>_probe.cpp) does not compile."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def run(cmd, what, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if r.returncode != 0:
        raise BuildError(f'{what} failed ({r.returncode}): {" ".join(cmd)}\n' + r.stdout.decode(errors='replace')[-6000:])
    return r.stdout


def atomic(cmd, out, what, timeout=600):
    """Runs a command that writes `out` (the last element of cmd) atomically."""
    tmp = f'{out}.{os.getpid()}.{time.monotonic_ns()}.tmp'
    try:
        run(cmd + [tmp], what, timeout)
        os.replace(tmp, out)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def files_digest(paths):
    return sha(*[x for p in sorted(paths) for x in (os.path.basename(p), read(p))])


def ucd_stamp(ucd):
    out = []
    for d, _, fs in os.walk(ucd):
        for f in sorted(fs):
            st = os.stat(os.path.join(d, f))
            out.append(f'{d}/{f}:{st.st_size}:{int(st.st_mtime)}')
    return '\n'.join(sorted(out))


class Tree:
    """The overlay of one state of /repo."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8')))
        self.times = {}

    # {{{ overlay and tables
    def sources(self):
        s = os.path.join(self.repo, 'src')
        res = []
        for d, _, fs in os.walk(s):
            rel = os.path.relpath(d, s)
            for f in fs:
                if f.endswith(('.cpp', '.h', '.c', '.rl', '.hpp', '.inc', '.ipp')):
                    if rel == 'libunicode' and f in GENERATED:
                        continue
                    if f.endswith(NOT_LIB[:3]):
                        continue
                    res.append(os.path.normpath(os.path.join(rel, f)))
        return sorted(res)

    def prepare(self, tables=True):
        src = os.path.join(self.repo, 'src')
        rels = self.sources()
        contents = {r: read(os.path.join(src, r)) for r in rels}
        key = sha(*[x for r in rels for x in (r, contents[r])])
        root = os.path.join(BUILD, 'tree-' + key)
        self.root = root
        self.src = os.path.join(root, 'src')
        self.lib = os.path.join(self.src, 'libunicode')
        if not os.path.exists(os.path.join(root, '.copied')):
            self._prune()
            tmp = f'{root}.{os.getpid()}.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            for r in rels:
                p = os.path.join(tmp, 'src', r)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(contents[r])
            open(os.path.join(tmp, '.copied'), 'w').close()
            try:
                os.rename(tmp, root)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        os.utime(root)
        if tables and not os.path.exists(os.path.join(root, '.generated')):
            out = self.generate(UCD)
            for g in GENERATED:
                shutil.copyfile(os.path.join(out, g), os.path.join(self.lib, g))
            self.write_enum_tables()
            open(os.path.join(root, '.generated'), 'w').close()
        return self

    def write_enum_tables(self):
        """pbt_enums.h: the enumerators of every enumeration, read from the headers themselves."""
        out = ['#pragma once', '#include <libunicode/ucd_enums.h>', '#include <libunicode/emoji_segmenter.h>',
               'struct PbtEnumerator { long value; char const* name; };']
        names = []
        for h in ('ucd_enums.h', 'emoji_segmenter.h'):
            text = read(os.path.join(self.lib, h)).decode()
            text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
            for m in re.finditer(r'enum\s+class\s+(\w+)\s*(?::\s*([\w:]+)\s*)?\{([^}]*)\}', text):
                name = m.group(1)
                members = [x for x in re.findall(r'(?:^|,)\s*(\w+)', m.group(3))]
                names.append(name)
                out.append(f'inline PbtEnumerator const pbt_enum_{name}[] = {{')
                out += [f'    {{ static_cast<long>(unicode::{name}::{x}), "{x}" }},' for x in members]
                out.append('};')
        out.append('#define PBT_ENUMS(X) ' + ' '.join(f'X({n})' for n in names))
        os.makedirs(os.path.join(self.src, 'pbt'), exist_ok=True)
        with open(os.path.join(self.src, 'pbt', 'pbt_enums.h'), 'w') as f:
            f.write('\n'.join(out) + '\n')

    def _prune(self, keep=40):
        dirs = sorted(glob.glob(os.path.join(BUILD, 'tree-*')), key=os.path.getmtime)
        for d in dirs[:-keep]:
            shutil.rmtree(d, ignore_errors=True)
        objs = glob.glob(os.path.join(BUILD, 'obj', '*'))
        if len(objs) > 4000:
            objs.sort(key=os.path.getmtime)
            for o in objs[:2000]:
                try:
                    os.unlink(o)
                except OSError:
                    pass

    def tablegen(self, variant='rel'):
        v = VARIANTS[variant]
        tg = os.path.join(self.lib, 'tablegen')
        cpps = sorted(glob.glob(os.path.join(tg, '*.cpp')))
        flags = COMMON + [f for f in v['flags']] + ['-I', self.src, f'-DLIBUNICODE_UCD_VERSION="{UCD_VERSION}"']
        if variant == 'rel':
            flags = [('-O1' if f == '-O2' else f) for f in flags]
        hdr = sha(self._tablegen_headers())
        objs = list(self.pool.map(lambda c: self._obj(v['cxx'], flags, c, hdr), cpps))
        return self._link(v['cxx'], [f for f in flags if f.startswith('-fsanitize')], objs, 'tablegen')

    def _tablegen_headers(self):
        hs = glob.glob(os.path.join(self.lib, 'tablegen', '*.h')) + \
            [h for h in glob.glob(os.path.join(self.lib, '*.h')) if os.path.basename(h) not in GENERATED]
        return files_digest(hs)

    def generate(self, ucd, variant='rel'):
        tgen = self.tablegen(variant)
        key = sha(read(tgen), ucd_stamp(ucd))
        out = os.path.join(BUILD, 'gen-' + key)
        if not os.path.exists(os.path.join(out, '.ok')):
            for d in sorted(glob.glob(os.path.join(BUILD, 'gen-*')), key=os.path.getmtime)[:-20]:
                shutil.rmtree(d, ignore_errors=True)
            tmp = f'{out}.{os.getpid()}.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            run([tgen, ucd, tmp, 'unicode::precompiled'], 'tablegen', 300)
            open(os.path.join(tmp, '.ok'), 'w').close()
            try:
                os.rename(tmp, out)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        return out
    # }}}

    # {{{ objects
    def _obj(self, cxx, flags, source, headers_digest):
        # the overlay path is a function of the content of the whole tree: keep it out of the key
        nflags = [f.replace(self.root, '@') for f in flags]
        key = sha(cxx, '\0'.join(nflags), os.path.basename(source), read(source), headers_digest)
        out = os.path.join(BUILD, 'obj', key + '.o')
        if not os.path.exists(out):
            atomic([cxx] + flags + ['-c', source, '-o'], out, 'compiling ' + os.path.basename(source))
        return out

    def _link(self, cxx, flags, objs, name):
        key = sha(cxx, '\0'.join(flags), *[os.path.basename(o) for o in objs])
        out = os.path.join(BUILD, 'obj', f'{key}-{name}')
        if not os.path.exists(out):
            atomic([cxx] + objs + flags + ['-o'], out, 'linking ' + name)
        return out

    def lib_headers(self):
        hs = glob.glob(os.path.join(self.lib, '*.h')) + glob.glob(os.path.join(self.lib, '*.c')) + \
            glob.glob(os.path.join(self.lib, '*.inc'))
        return files_digest(hs)

    def flags_for(self, variant, name):
        v = VARIANTS[variant]
        f = COMMON + v['flags'] + SIMD_DEFS[v['simd']] + ['-I', self.src]
        if v['simd'] != 'none':
            if name == 'convert.cpp':
                f += ['-msse4.1']
            elif name in ('scan256.cpp', 'convert256.cpp'):
                f += ['-mavx2']
            elif name in ('scan512.cpp', 'convert512.cpp'):
                f += ['-mavx512f', '-mavx512bw']
        return f

    def lib_sources(self, variant):
        res = []
        for p in sorted(glob.glob(os.path.join(self.lib, '*.cpp'))):
            n = os.path.basename(p)
            if n.endswith(NOT_LIB):
                continue
            if VARIANTS[variant]['simd'] == 'none' and n in SIMD_SOURCES:
                continue
            res.append(p)
        return res

    def lib_object_futures(self, variant):
        v = VARIANTS[variant]
        hd = self.lib_headers()
        srcs = self.lib_sources(variant)
        # slow ones first
        srcs.sort(key=lambda p: -os.path.getsize(p))
        return [(os.path.basename(s), self.pool.submit(self._obj, v['cxx'], self.flags_for(variant, os.path.basename(s)), s, hd))
                for s in srcs]

    def force_simd(self, obj):
        """Lets the harness choose the SIMD width: the detector is renamed and called by our stub."""
        key = sha('redefine', os.path.basename(obj))
        out = os.path.join(BUILD, 'obj', key + '.o')
        if not os.path.exists(out):
            atomic(['objcopy', '--redefine-sym', '_ZN7unicode6detail13max_simd_sizeEv=pbt_real_max_simd', obj], out, 'objcopy')
        return out

    def _probe(self, v, source, hd):
        cc = v['cxx'].replace('clang++', 'clang').replace('g++', 'gcc')
        flags = ['-std=c11' if f == '-std=c++20' else f for f in COMMON + v['flags']] + ['-I', self.src]
        try:
            return self._obj(cc, flags, source, hd)
        except BuildError as e:
            raise ProbeError(str(e)) from e

    def _cxx_probe(self, cxx, flags, source, hd):
        try:
            return self._obj(cxx, flags, source, hd)
        except BuildError as e:
            raise ProbeError(str(e)) from e

    def plugin(self, name, b):
        """The library and ops.h in one more configuration, as a shared object. b: dict(cxx, simd, flags)."""
        VARIANTS['plugin-' + name] = dict(b, flags=b['flags'] + ['-g0', '-w', '-fPIC', '-fvisibility=hidden'] + (['-fno-gnu-unique'] if b['cxx'] == 'g++' else []))
        variant = 'plugin-' + name
        v = VARIANTS[variant]
        hdir = os.path.join(VERIF, 'harness')
        hd = sha(self.lib_headers(), files_digest(glob.glob(os.path.join(hdir, '*.h'))), files_digest(glob.glob(os.path.join(self.src, 'pbt', '*.h'))))
        flags = COMMON + v['flags'] + SIMD_DEFS[v['simd']] + ['-I', self.src, '-I', hdir]
        own = self.pool.submit(self._obj, v['cxx'], flags, os.path.join(hdir, 'plugin', 'ops_plugin.cpp'), hd)
        # the order of CMakeLists.txt: of several copies of an inline function the linker takes the first
        futures = sorted(self.lib_object_futures(variant), key=lambda x: (x[0] in SIMD_SOURCES) + 2 * (x[0] in GENERATED))
        objs = [f.result() for _, f in futures] + [own.result()]
        return self._link(v['cxx'], ['-shared', '-Wl,-Bsymbolic'] + [f for f in v['flags'] if f.startswith('-flto')], objs, variant + '.so')

    def harness(self, name, variant, extra_sources=(), extra_flags=()):
        """Returns the path of the executable for harness/<name>.cpp in the given variant."""
        v = VARIANTS[variant]
        hdir = os.path.join(VERIF, 'harness')
        hflags = COMMON + v['flags'] + SIMD_DEFS[v['simd']] + ['-I', self.src, '-I', hdir] + list(extra_flags)
        if variant == 'fuzz':
            hflags.append('-DPBT_FUZZ')
        hd = sha(self.lib_headers(), files_digest(glob.glob(os.path.join(hdir, '*.h'))),
                 files_digest(glob.glob(os.path.join(self.src, 'tools', '*.cpp')) + glob.glob(os.path.join(self.src, 'pbt', '*.h'))))
        srcs = [os.path.join(hdir, name + '.cpp'), os.path.join(hdir, 'support.cpp'), *sorted(glob.glob(os.path.join(hdir, name + '_part*.cpp'))), *extra_sources]
        hobjs = [self.pool.submit(self._obj, v['cxx'], hflags, s, hd) for s in srcs]
        probe = os.path.join(hdir, name + '.c')
        if os.path.exists(probe):
            hobjs.append(self.pool.submit(self._probe, v, probe, hd))
        probe = os.path.join(hdir, name + '_probe.cpp')
        if os.path.exists(probe):
            hobjs.append(self.pool.submit(self._cxx_probe, v['cxx'], hflags, probe, hd))
        libobjs = self.lib_object_futures(variant)
        objs = [f.result() for f in hobjs]
        for n, f in libobjs:
            o = f.result()
            objs.append(self.force_simd(o) if n == 'simd_detector.cpp' else o)
        link = [f for f in v['flags'] if f.startswith('-fsanitize=')] + v.get('link', []) + ['-lpthread']
        return self._link(v['cxx'], link, objs, f'{name}-{variant}')
    # }}}


if __name__ == '__main__':
    t = time.time()
    tree = Tree().prepare()
    print('tree', tree.root, round(time.time() - t, 1))
    for a in sys.argv[1:]:
        h, v = a.split(':')
        t = time.time()
        try:
            print(tree.harness(h, v), round(time.time() - t, 1))
        except BuildError as e:
            print(e)
            sys.exit(2)
