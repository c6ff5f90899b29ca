"""P39: runs of the table generator under injected faults.

A case is a list of faults and oddities of the surroundings: inputs missing, directories or unreadable, outputs
that cannot be opened or written, full devices, a limit on the size of files or memory, stale files of
earlier runs, odd paths, wrong argument lists. The oracle: a run that reports success has left every
generated file complete (equal to what an undisturbed run writes), one that nothing disturbs reports
success, and a failure is said on standard error, without a crash."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import threading
import time

import build
from build import GENERATED, UCD, VERIF
from tables import ALL_FILES

INPUT_FAULTS = ['missing', 'directory', 'dangling', 'loop', 'ioerror']
OUTPUT_FAULTS = ['full', 'directory', 'dangling', 'loop']
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT}


def subdirs(root):
    return [d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d))]


class Runs:
    def __init__(self, scratch):
        self.tree = build.Tree().prepare()
        self.exe = self.tree.tablegen('rel')
        self.asan = self.tree.tablegen('asan')
        self.scratch = scratch
        self.lock = threading.Lock()
        self.count = 0
        self.labels = {}
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        a, b = self.reference('a'), self.reference('b')
        # what differs between two undisturbed runs cannot be compared
        self.want = {n: a[n] for n in GENERATED if a[n] == b[n]}
        self.sizes = {n: len(a[n]) for n in GENERATED}

    def reference(self, name):
        out = os.path.join(self.scratch, 'ref-' + name)
        os.makedirs(out)
        p = subprocess.run([self.exe, UCD, out, 'unicode::precompiled'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            raise build.BuildError('tablegen fails without a fault: ' + p.stdout.decode(errors='replace')[-500:])
        return {n: open(os.path.join(out, n), 'rb').read() for n in GENERATED}

    # {{{ generation
    def random(self, rnd):
        items = []
        kind = rnd.randrange(9)
        if kind in (0, 1, 8):
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                items.append(['input', rnd.choice(ALL_FILES), rnd.choice(INPUT_FAULTS)])
        if kind in (2, 3, 8):
            for _ in range(rnd.choice([1, 1, 1, 2, 3])):
                items.append(['output', rnd.choice(GENERATED), rnd.choice(OUTPUT_FAULTS)])
        if kind == 4:
            # around the end of a file, of a buffer, or anywhere
            n = rnd.choice(GENERATED)
            size = self.sizes[n]
            items.append(['size', rnd.choice([0, 1, size - 1, size, size + 1, rnd.randrange(size + 1), max(0, size - rnd.randrange(9000)), max(self.sizes.values())])])
        if kind == 5:
            items.append(['memory', rnd.randrange(4, 400)])
        if kind == 6:
            items.append(['outdir', rnd.choice(['missing', 'file', 'dangling', 'ok-slash', 'ok-space', 'ok-link', 'ok-relative'])])
        if kind == 7 and rnd.random() < 0.5:
            items.append(['args', rnd.choice([0, 1, 2])])
        elif kind == 7:
            items.append(['ucd', rnd.choice(['missing', 'file', 'empty', 'ok-slash', 'ok-space', 'ok-link', 'ok-relative'])])
        while rnd.random() < 0.3:
            items.append(['stale', rnd.choice(GENERATED), rnd.choice(['longer', 'shorter', 'same', 'linked'])])
        if rnd.random() < 0.1:
            items.append(['stdout', rnd.choice(['full', 'closed', 'closed-pipe'])])
        if not items:
            items.append(['stale', rnd.choice(GENERATED), 'longer'])
        return items
    # }}}

    # {{{ one run
    def fails(self, items, exe=None):
        with self.lock:
            self.count += 1
            where = os.path.join(self.scratch, f'run{self.count}')
        os.makedirs(where)
        try:
            return self._fails(items, where, exe or self.exe)
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def _fails(self, items, where, exe):
        by = {}
        for it in items:
            by.setdefault(it[0], []).append(it)
        # inputs
        space = any(it[1] == 'ok-space' for it in items)
        ucd = os.path.join(where, 'u c\td' if space else 'ucd')
        os.makedirs(ucd)
        what = dict(it[1:] for it in by.get('input', []))
        for n in ALL_FILES:
            p = os.path.join(ucd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            f = what.get(n)
            if f == 'directory':
                os.makedirs(p)
            elif f == 'dangling':
                os.symlink(os.path.join(where, 'nowhere'), p)
            elif f == 'loop':
                os.symlink(os.path.basename(p), p)
            elif f == 'ioerror':
                os.symlink('/proc/self/mem', p)  # reading address 0 of its own memory: EIO
            elif f != 'missing':
                os.symlink(os.path.join(UCD, n), p)
        hard = bool(what)
        ucdArg = ucd
        for _, how in by.get('ucd', []):
            hard = hard or not how.startswith('ok')
            if how == 'missing':
                ucdArg = os.path.join(where, 'absent')
            elif how == 'file':
                ucdArg = os.path.join(where, 'plain')
                open(ucdArg, 'w').close()
            elif how == 'empty':
                ucdArg = os.path.join(where, 'empty')
                os.makedirs(ucdArg)
            elif how == 'ok-slash':
                ucdArg = ucd + '//'
            elif how == 'ok-link':
                ucdArg = os.path.join(where, 'link-ucd')
                os.symlink(ucd, ucdArg)
            elif how == 'ok-relative':
                ucdArg = os.path.join('.', os.path.relpath(ucd, where))
        # outputs
        out = os.path.join(where, 'o u t' if space else 'out')
        os.makedirs(out)
        for _, n, how in by.get('stale', []):
            p = os.path.join(out, n)
            if os.path.lexists(p):
                continue
            body = b'#error stale\n' * (1 if how == 'shorter' else self.sizes[n] // 13 + 2000)
            if how == 'same':
                body = self.want.get(n, b'')
            if how == 'linked':  # to a file elsewhere
                with open(os.path.join(where, 'elsewhere-' + n), 'wb') as f:
                    f.write(body)
                os.symlink(os.path.join(where, 'elsewhere-' + n), p)
            else:
                with open(p, 'wb') as f:
                    f.write(body)
        for _, n, how in by.get('output', []):
            p = os.path.join(out, n)
            if os.path.lexists(p):
                if os.path.isdir(p) and not os.path.islink(p):
                    os.rmdir(p)
                else:
                    os.unlink(p)
            hard = True
            if how == 'full':
                os.symlink('/dev/full', p)
            elif how == 'directory':
                os.makedirs(p)
            elif how == 'dangling':
                os.symlink(os.path.join(where, 'nowhere', n), p)
            elif how == 'loop':
                os.symlink(n, p)
        outArg = out
        for _, how in by.get('outdir', []):
            if how in ('missing', 'file', 'dangling'):
                hard = True
                out = outArg = os.path.join(where, 'other')
                if how == 'file':
                    open(out, 'w').close()
                elif how == 'dangling':
                    os.symlink(os.path.join(where, 'nowhere'), out)
            elif how == 'ok-slash':
                outArg = out + '/'
            elif how == 'ok-link':
                outArg = os.path.join(where, 'link-out')
                os.symlink(out, outArg)
            elif how == 'ok-relative':
                outArg = os.path.relpath(out, where)
        args = [exe, ucdArg, outArg, 'unicode::precompiled']
        for _, n in by.get('args', []):
            args = args[:1 + n]
            hard = hard or n < 2
        sizes = [n for _, n in by.get('size', [])]
        if sizes and min(sizes) < max(self.sizes.values()):
            hard = True
        memory = [n for _, n in by.get('memory', [])]
        talk = [how for _, how in by.get('stdout', [])]

        def before():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if sizes:
                resource.setrlimit(resource.RLIMIT_FSIZE, (min(sizes), min(sizes)))
            if memory:
                resource.setrlimit(resource.RLIMIT_AS, (min(memory) << 20, min(memory) << 20))
            if 'closed' in talk:
                os.close(1)
                # keep the number taken: the first file opened shall not become standard output
                os.open('/dev/null', os.O_RDONLY)
        fd = None
        if 'full' in talk:
            fd = os.open('/dev/full', os.O_WRONLY)
        elif 'closed-pipe' in talk:
            r, fd = os.pipe()
            os.close(r)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1')
        try:
            p = subprocess.run(args, cwd=where, env=env, stdin=subprocess.DEVNULL, stdout=fd if fd is not None else subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=200, preexec_fn=before)
        except subprocess.TimeoutExpired:
            return 'tablegen does not end within 200 s'
        finally:
            if fd is not None:
                os.close(fd)
        err = p.stderr.decode(errors='replace')
        with self.lock:
            k = 'reports ' + ('success' if p.returncode == 0 else 'failure')
            self.labels[k] = self.labels.get(k, 0) + 1
        if p.returncode == 0:
            if 'args' in by and by['args'][0][1] == 2:
                return None  # another namespace in the files
            for n in GENERATED:
                try:
                    path = os.path.join(out, n)
                    got = None if not os.path.isfile(path) else open(path, 'rb').read()
                except OSError:
                    got = None
                if got is None:
                    return f'tablegen reports success, but {n} is not there'
                if n in self.want and got != self.want[n]:
                    return f'tablegen reports success, but {n} is not what an undisturbed run writes: {len(got)} bytes instead of {len(self.want[n])}'
            return None
        if p.returncode < 0 and -p.returncode in CRASHES and not (memory and -p.returncode == signal.SIGABRT):
            return f'tablegen dies of signal {-p.returncode}: {err[-500:]}'
        if 'AddressSanitizer' in err or 'runtime error' in err:
            return 'tablegen: ' + err[-900:]
        if not hard and not memory and not talk:
            return f'tablegen fails without a reason ({p.returncode}): {err[-500:]}'
        if not err.strip() and not memory:
            return f'tablegen fails ({p.returncode}) without saying so'
        return None
    # }}}


def shrink(r, items, exe):
    k = 0
    while k < len(items):
        less = items[:k] + items[k + 1:]
        if less and r.fails(less, exe):
            items = less
        else:
            k += 1
    return items


def run(prop, tier, seed, replay, out_dir):
    r = Runs(os.path.join(out_dir, 'tgruns'))
    if replay:
        with open(replay) as f:
            case = json.loads(f.readline())
        e = r.fails(case['items'], r.asan if case['asan'] else r.exe)
        print(e or 'the case passes')
        return {'evaluations': 1}, (replay if e else None)
    deadline = time.time() + (30 if tier == 'quick' else 900)
    # every single fault first, then random combinations
    fixed = [[['input', n, f]] for n in ALL_FILES for f in INPUT_FAULTS] + [[['output', n, f]] for n in GENERATED for f in OUTPUT_FAULTS] \
        + [[['stale', n, f]] for n in GENERATED for f in ('longer', 'shorter', 'same', 'linked')] + [[['args', n]] for n in (0, 1, 2)] \
        + [[['outdir', h]] for h in ('missing', 'file', 'dangling', 'ok-slash', 'ok-space', 'ok-link', 'ok-relative')] \
        + [[['ucd', h]] for h in ('missing', 'file', 'empty', 'ok-slash', 'ok-space', 'ok-link', 'ok-relative')] \
        + [[['size', s + d]] for s in r.sizes.values() for d in (-1, 0)]
    distinct, samples, failure = set(), [], []

    def one(i):
        if failure or (i >= len(fixed) and time.time() > deadline):
            return
        rnd = random.Random(f'{seed}-{i}')
        items = fixed[i] if i < len(fixed) else r.random(rnd)
        asan = i >= len(fixed) and i % 16 == 0 and not any(it[0] == 'memory' for it in items)
        exe = r.asan if asan else r.exe
        e = r.fails(items, exe)
        with r.lock:
            distinct.add(hashlib.sha256(json.dumps(items).encode()).hexdigest())
            for it in items:
                k = it[0] + '.' + str(it[-1] if isinstance(it[-1], str) else 'n')
                r.labels[k] = r.labels.get(k, 0) + 1
            if i >= len(fixed) and len(samples) < 24:
                samples.append(json.dumps(items)[:300])
            if e and not failure:
                failure.append((items, e, asan))

    before = r.count
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, range(4000 if tier == 'quick' else 100000)))
    total = r.count - before
    print(f'{prop}: {total} runs')
    violation = None
    if failure:
        items, e, asan = failure[0]
        exe = r.asan if asan else r.exe
        items = shrink(r, items, exe)
        e = r.fails(items, exe) or e
        print(f'minimal case: {json.dumps(items)[:2000]}\n{e}'[:4000])
        violation = os.path.join(VERIF, 'replays', f'{prop}.txt')
        with open(violation, 'w') as f:
            f.write(json.dumps({'items': items, 'asan': asan}) + '\n' + e + '\n')
    shutil.rmtree(r.scratch, ignore_errors=True)
    cov = {'evaluations': total, 'distinct_nontrivial': len(distinct),
           'rule': 'a case is one run with at least one fault or oddity of its surroundings; all of them are non-trivial',
           'samples': samples, 'exhaustive': False,
           'classes': dict(r.labels, **{'generated files compared': len(r.want)}),
           'assumptions': ['faults are those the kernel can be made to produce: missing, unreadable and circular paths, full devices, file size and memory limits; no power loss']}
    return cov, violation
