#!/usr/bin/env python3
"""Runner for one property check: build from /repo's working tree, run the
driver's shards and probes, decide the verdict, write the evidence file.

usage: run.py PROPERTY [quick|thorough] [--replay FILE]
exit 0 held / 1 VIOLATION / 2 inconclusive or harness error
"""
import fcntl, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
JOBS = 8
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

COMMON = ['-std=gnu++11', '-D_GNU_SOURCE', '-w', '-g1', '-fno-omit-frame-pointer',
          '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-I', REPO]
FLAVOURS = {
    # -fwrapv: the library relies on Java wrap-around arithmetic (it is only ever built without optimisation)
    'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=shift,null,nonnull-attribute', '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O1'],
    # run under valgrind memcheck, which tracks every uninitialised bit; only its own reports decide
    'vg': ['-O1', '-g'],
    }
VALGRIND = ['valgrind', '--tool=memcheck', '--leak-check=no', '--error-limit=no', '--num-callers=25', '--fullpath-after=/', '--fair-sched=no']
ENV = {
    'ASAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:'
                    'detect_stack_use_after_return=1:strict_string_checks=0:detect_odr_violation=0:handle_abort=1:'
                    'malloc_context_size=12:quarantine_size_mb=64',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4',
    'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
}


def sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'library')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('Test.cpp') or f.endswith('Benchmark.cpp'):
                continue
            if re.search(r'\.(c|cpp|cc)$', f):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in ('library', ):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('Test.cpp') or f.endswith('Benchmark.cpp'):
                    continue
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(os.path.join(REPO, 'library.hpp'), 'rb') as fh:
        h.update(fh.read())
    h.update(repr((COMMON, FLAVOURS)).encode())
    return h.hexdigest()[:16]


def built(label):
    """The build a run uses: 'leak' is the asan build repeating each case and judging only the memory."""
    return 'asan' if label == 'leak' else label


class HarnessError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def build_lib(flavour, th):
    d = os.path.join(BUILD, flavour + '-' + th)
    lib = os.path.join(d, 'lib.a')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, flavour + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        # keep only the newest few trees
        old = sorted(glob.glob(os.path.join(BUILD, flavour + '-*')), key=os.path.getmtime)
        for o in old[:-2]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        objs, errs = [], []

        def comp(i, s):
            o = os.path.join(tmp, '%03d.o' % i)
            if s.endswith('.c'):
                cmd = ['gcc'] + [x for x in COMMON if not x.startswith('-std')]
            else:
                cmd = ['g++'] + COMMON
            r = run(cmd + FLAVOURS[flavour] + ['-c', s, '-o', o])
            if r.returncode != 0:
                errs.append(s + '\n' + r.stdout[-2000:])
            return o
        # big files first
        srcs = sorted(sources(), key=lambda s: -os.path.getsize(s))
        with ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda t: comp(*t), enumerate(srcs)))
        if errs:
            raise HarnessError('library does not compile: ' + errs[0])
        r = run(['ar', 'rcs', os.path.join(tmp, 'lib.a')] + objs)
        if r.returncode != 0:
            raise HarnessError('ar: ' + r.stdout)
        for o in objs:
            os.unlink(o)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    return lib


def build_driver(src, flavour, lib, th):
    with open(src, 'rb') as f:
        body = f.read()
    for dep in sorted(glob.glob(os.path.join(HERE, 'drivers', '*.hpp')) + glob.glob(os.path.join(HERE, 'mon', '*.hpp'))):
        with open(dep, 'rb') as f:
            body += f.read()
    tag = hashlib.sha256(body + th.encode()).hexdigest()[:12]
    out = os.path.join(os.path.dirname(lib), os.path.basename(src)[:-4] + '-' + tag)
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    m = re.search(r'^// LINK: (.*)$', body.decode('utf-8', 'replace'), re.M)
    extra = m.group(1).split() if m else []
    r = run(['g++'] + COMMON + FLAVOURS[flavour] + ['-I', HERE, src, '-o', tmp, lib, '-lpthread'] + extra)
    if r.returncode != 0:
        raise HarnessError('driver does not compile: ' + r.stdout[-6000:])
    os.rename(tmp, out)
    return out


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def read_trace(path):
    try:
        b = open(path, 'rb').read()
    except OSError:
        return None
    if len(b) < 24 + 64:
        return None
    idx, ln, st = struct.unpack('<QQQ', b[:24])
    kind = b[24:88].split(b'\0')[0].decode()
    data = b[88:88 + min(ln, 1 << 17)].decode('latin-1')
    return idx, st, kind, data


def crash_key(kind, data, out):
    ops = [l for l in data.strip().split('\n') if '(' in l]
    last = ops[-1].split('(')[0] if ops else '?'
    m = re.search(r'(ERROR: (?:Address|Leak|Thread)Sanitizer: [\w-]+|runtime error: [^\n]{0,120}|terminate called[^\n]{0,120})', out)
    return 'crash:%s:%s: %s' % (kind, last, m.group(1) if m else 'abnormal exit')


def tsan_reports(out):
    """Deduplicated race reports: list of (key, text)."""
    reps = {}
    for blk in re.findall(r'WARNING: ThreadSanitizer: (.*?)\n==================', out, re.S):
        title = blk.split('\n')[0].split(' (pid')[0]
        frames = []
        for m in re.finditer(r'#\d+ ([^\n]+)', blk):
            f = m.group(1)
            fn = re.sub(r'\s+(/|\().*$', '', f)
            if 'library/Java' in f or 'library/Javax' in f or 'library/Kernel' in f:
                if fn not in frames:
                    frames.append(fn)
        reps.setdefault(title + ' @ ' + ' | '.join(frames[:4]), blk)
    return reps


def valgrind_reports(out):
    """Deduplicated memcheck errors: {key: text}; the key names the innermost library functions."""
    reps = {}
    blocks = re.split(r'\n==\d+== *\n', re.sub(r'^==\d+== *$', lambda m: m.group(0), '\n' + out))
    for b in blocks:
        lines = [re.sub(r'^==\d+== ?', '', l) for l in b.strip().split('\n')]
        if not lines or not re.match(r'Conditional jump|Use of uninit|Syscall param|Invalid |Mismatched|Source and dest|Argument |Process terminating|Jump to', lines[0]):
            continue
        lib = [m.group(1) for m in re.finditer(r'(?:at|by) 0x[0-9A-F]+: (.*?) \([^()]*library/Java[^()]*\)', '\n'.join(lines))]
        fns = []
        for f in lib:
            f = re.sub(r'\(.*$', '', f)
            if f not in fns:
                fns.append(f)
        reps.setdefault('memcheck: ' + re.sub(r'\d+', 'N', lines[0]) + ' @ ' + ' | '.join(fns[:3]), '\n'.join(lines))
    return reps


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: run.py PROPERTY [quick|thorough]; known: ' + ' '.join(sorted(CHECKS)))
        return 2
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = 'quick'
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    env = dict(os.environ)
    env.update(ENV)
    env.update(spec.get('env', {}))
    work = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replaydir = os.path.join(HERE, 'replays')
    os.makedirs(replaydir, exist_ok=True)
    th = tree_hash()
    violations, inconclusive, known_lines = [], [], []
    agg = {'cases': 0, 'compares': 0, 'ops': {}, 'events': {}, 'samples': []}
    sigs = set()
    flav_cases = {}

    def save_replay(tag, text):
        p = os.path.join(replaydir, '%s-%s.txt' % (pid, tag))
        with open(p, 'w', errors='replace') as f:
            f.write(text)
        return p

    if len(spec['runs']) > 3:
        for flavour in sorted(set(built(f) for d, f, s in spec['runs'])):
            build_lib(flavour, th)
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda r: build_driver(os.path.join(HERE, 'drivers', r[0] + '.cpp'), built(r[1]), build_lib(built(r[1]), th), th), spec['runs']))
    for run_i, (driver, label, shards) in enumerate(spec['runs']):
        flavour = built(label)
        lib = build_lib(flavour, th)
        exe = build_driver(os.path.join(HERE, 'drivers', driver + '.cpp'), flavour, lib, th)
        base = [exe, '--seed', str(seed)] + (['--thorough'] if tier == 'thorough' else [])
        if flavour == 'vg':
            base += ['--limit', '4000' if tier == 'quick' else '400000', '--budget', str(spec['budget'][tier == 'thorough'])]
        if label == 'leak':
            base += ['--leaks', '--limit', '2000' if tier == 'quick' else '40000', '--budget', '1' if tier == 'quick' else '20']
        limit = spec.get('limit', 420) if tier == 'quick' else spec.get('limit_thorough', 5400)
        if tier == 'quick' and not replay:
            # an answer has to be there within 900 s, also when a broken library makes every build of the driver hang
            if violations and time.time() - t0 > 200:
                break
            limit = max(30, min(limit, 800 - (time.time() - t0)))
        if replay:
            meta = dict(re.findall(r'^(kind|case|seed|driver|shard)=(.*)$', open(replay, errors='replace').read(), re.M))
            if meta.get('driver', driver) != driver:
                continue
            cmd = [exe] + (['--leaks'] if label == 'leak' else []) + ['--seed', meta['seed'], '--kind', meta.get('kind', ''), '--case', meta.get('case', ''), '--out', os.path.join(work, 'replay')]
            if flavour == 'vg':     # memcheck does not know the case: repeat the whole shard, now with origins
                cmd = VALGRIND + ['--track-origins=yes', '--error-exitcode=98'] + base[:1] + ['--seed', meta['seed'], '--shard', meta['shard'], '--shards', str(shards)] + base[3:]
            r = run(cmd, env=env)
            print(r.stdout[-6000:])
            for p in glob.glob(os.path.join(work, 'replay.viol.*')):
                print(open(p, errors='replace').read()[-6000:])
            print('replay exit', r.returncode)
            if r.returncode != 0:
                return 1
            continue

        def shard(k, extra=(), tag=None):
            out = os.path.join(work, tag or '%s.%s.%d' % (driver, flavour, k))
            e = dict(env)
            t1 = time.time()
            lf = open(out + '.log', 'w+')
            try:
                wrap = VALGRIND + ['--log-file=' + out + '.vg'] if flavour == 'vg' else []
                p = subprocess.run(wrap + base + ['--shard', str(k), '--shards', str(shards), '--out', out] + list(extra),
                                   stdout=lf, stderr=subprocess.STDOUT, env=e, timeout=limit, cwd=work,
                                   stdin=subprocess.DEVNULL)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            lf.seek(0)
            txt = lf.read(4_000_000)
            lf.close()
            return k, out, rc, txt, time.time() - t1

        with ThreadPoolExecutor(min(shards, spec.get('parallel', JOBS))) as ex:
            results = list(ex.map(shard, range(shards)))
        for k, out, rc, txt, dt in results:
            if os.path.exists(out + '.stats'):
                st = json.load(open(out + '.stats'))
                agg['cases'] += st['cases']
                agg['compares'] += st['compares']
                for n in ('ops', 'events'):
                    for a, b in st[n].items():
                        agg[n][a] = agg[n].get(a, 0) + b
                agg['samples'] += st['samples'][:2]
                flav_cases[driver + '/' + label] = flav_cases.get(driver + '/' + label, 0) + st['cases']
                b = open(out + '.sigs', 'rb').read()
                sigs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
            if flavour == 'vg':
                log = open(out + '.vg', errors='replace').read() if os.path.exists(out + '.vg') else ''
                m = re.search(r'ERROR SUMMARY: (\d+) errors', log)
                for key, blk in valgrind_reports(log).items():
                    violations.append((key, 'driver=%s\nseed=%d\nshard=%d\nflavour=vg\n%s' % (driver, seed, k, blk)))
                if rc == 'timeout' or not os.path.exists(out + '.stats') or not m:
                    inconclusive.append('%s under valgrind: shard %d ended with %s' % (driver, k, rc))
                agg['events']['memcheck_runs'] = agg['events'].get('memcheck_runs', 0) + 1
                continue
            for vf in sorted(glob.glob(out + '.viol.*')):
                t = open(vf, errors='replace').read()
                key = re.search(r'^key=(.*)$', t, re.M).group(1)
                violations.append((key + (' in ' + driver if label == 'leak' else ''), 'driver=%s\n' % driver + t))
            if flavour == 'tsan':
                for key, blk in tsan_reports(txt).items():
                    violations.append(('tsan: ' + key, 'seed=%d shard=%d flavour=tsan\n%s' % (seed, k, blk)))
                if rc == 66:
                    if 'WARNING: ThreadSanitizer' not in txt:
                        inconclusive.append('tsan exit without report')
                    rc = 0
            if rc in (0, 5):
                if not os.path.exists(out + '.stats'):
                    inconclusive.append('shard %d ended without statistics' % k)
                continue
            tr = read_trace(out + '.trace')
            if label == 'leak' and not re.search(r'AddressSanitizer: (attempting|heap-use-after-free|alloc-dealloc)', txt):
                # a wrong answer, a hang or a crash is for the property the driver belongs to
                agg['events']['memory_watches_cut_short'] = agg['events'].get('memory_watches_cut_short', 0) + 1
                continue
            if rc == 'timeout':
                inconclusive.append('shard %d exceeded %d s (last case %s)' % (k, limit, tr[:3] if tr else None))
                continue
            if tr is None or tr[1] != 1:
                if 'Sanitizer' in txt or 'runtime error' in txt:
                    violations.append(('crash:outside-case: ' + crash_key('', '', txt), txt[-8000:]))
                else:
                    inconclusive.append('shard %d exit %s outside a case: %s' % (k, rc, txt[-300:]))
                continue
            idx, st, kind, data = tr
            hdr = 'driver=%s\nkind=%s\ncase=%d\nseed=%d\nexit=%s\n' % (driver, kind, idx, seed, rc)
            if rc == 97:
                # CPU-time hang: re-run that case alone once
                k2, out2, rc2, txt2, dt2 = shard(0, ['--kind', kind, '--case', str(idx)], 'rerun.%d' % k)
                if rc2 == 97:
                    ops = [l for l in data.strip().split('\n') if '(' in l]
                    violations.append(('hang:%s:%s: operation does not return' % (kind, ops[-1].split('(')[0] if ops else '?'),
                                       hdr + '--- trace ---\n' + data[-20000:]))
                else:
                    inconclusive.append('case %s#%d hung once' % (kind, idx))
                continue
            if rc == 96:
                violations.append(('stall:%s: every thread asleep, none can make progress' % kind,
                                   hdr + txt[-4000:] + '\n--- trace ---\n' + data[-20000:]))
                continue
            violations.append((crash_key(kind, data, txt),
                               hdr + '--- output ---\n' + txt[-8000:] + '\n--- trace ---\n' + data[-20000:]))

        # pinned probes
        if label in ('vg', 'leak'):
            continue
        if run_i == 0 or spec.get('probe_all'):
            r = run([exe, '--list-probes'], env=env)
            ids = r.stdout.split()
            kf = known_findings()

            def probe(i):
                try:
                    p = subprocess.run([exe, '--probe', i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                                       timeout=120, cwd=work, text=True, errors='replace', stdin=subprocess.DEVNULL)
                    return i, p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    return i, 'timeout', ''
            with ThreadPoolExecutor(JOBS) as ex:
                for i, rc, txt in ex.map(probe, ids):
                    agg['events']['probes'] = agg['events'].get('probes', 0) + 1
                    if rc == 0:
                        continue
                    if (pid, i) in kf:
                        known_lines.append('KNOWN-FINDING: property=%s probe=%s %s' % (pid, i, kf[(pid, i)]))
                    elif rc == 'timeout':
                        inconclusive.append('probe %s timed out' % i)
                    else:
                        violations.append(('probe:' + i, 'probe=%s exit=%s\n%s' % (i, rc, txt[-6000:])))
    if replay:
        return 0

    need = spec.get('min_cases', 50)
    if agg['cases'] < need and not violations:
        inconclusive.append('only %d cases observed' % agg['cases'])
    for name in spec.get('must_observe', []):
        if not agg['events'].get(name) and not agg['ops'].get(name) and not violations:
            inconclusive.append('never observed: ' + name)

    byk = {}
    for key, t in violations:
        byk.setdefault(key, t)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ops_total = sum(agg['ops'].values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['cases'],
            'distinct_nontrivial': len(sigs),
            'rule': spec['rule'],
            'samples': agg['samples'][:6] or ['(no completed shard)'],
            'oracle_comparisons': agg['compares'],
            'operations_observed': ops_total,
            'operations_by_kind': dict(sorted(agg['ops'].items(), key=lambda x: -x[1])[:120]),
            'monitor_events': agg['events'],
            'cases_by_build': flav_cases,
        },
        'assumptions': spec.get('assumptions', []) + [
            'nothing is claimed about inputs, schedules or API combinations the workloads did not drive',
            'library compiled by gcc with -fwrapv; shift and signed-overflow reports are off because the library relies on wrap-around'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(byk),
    }
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in known_lines:
        print(l)
    for n, (key, t) in enumerate(sorted(byk.items())[:40]):
        p = save_replay(hashlib.sha256(key.encode()).hexdigest()[:10], t)
        print('VIOLATION property=%s replay=%s %s' % (pid, p, key[:300]))
    print('%s %s seed=%d: %d cases, %d distinct, %d operations, %d comparisons, %d probes, %d violation kinds, %.1f s' % (
        pid, tier, seed, agg['cases'], len(sigs), ops_total, agg['compares'], agg['events'].get('probes', 0), len(byk), time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    if byk:
        return 1
    if inconclusive:
        for i in inconclusive:
            print('INCONCLUSIVE ' + i)
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except HarnessError as e:
        print('HARNESS-ERROR ' + str(e))
        sys.exit(2)
