#!/usr/bin/env python3
"""Driver: builds a harness from /repo's working tree, runs it sharded, reports and writes evidence.

usage: check.py <property> [quick|thorough]        run a check
       check.py <property> --replay <file>         re-run the recorded case
       check.py --list | --setup
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(HERE, 'build')
NCPU = os.cpu_count() or 4
from checks import CHECKS, LIBS, ASSUMPTIONS  # noqa

CXX = 'g++'
BASE = ['-std=c++17', '-O1', '-g1', '-include', 'cstdint', '-include', 'stdexcept', '-w',
        '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer',
        '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
INC = ['-I' + os.path.join(HERE, 'lib')] + ['-I' + os.path.join(REPO, d) for d in
       ('src/util', 'src/baf', 'src/spl', 'src/io', 'src/io/executables', 'external/pugixml')]
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:'
           'max_allocation_size_mb=4096:detect_stack_use_after_return=0:malloc_context_size=0',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=66', LC_ALL='C', TZ='UTC')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_one(src, flags):
    """Object file for src, cached under the hash of its preprocessed text (so it follows /repo's working tree)."""
    pre = run([CXX] + flags + ['-E', '-P', src])
    if pre.returncode:
        raise BuildError(pre.stderr.decode(errors='replace')[-4000:])
    h = hashlib.sha256()
    h.update(pre.stdout)
    h.update('\0'.join(flags).encode())
    obj = os.path.join(CACHE, 'obj', h.hexdigest()[:32] + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.tmp' % os.getpid()
        r = run([CXX] + flags + ['-c', src, '-o', tmp])
        if r.returncode:
            raise BuildError(r.stderr.decode(errors='replace')[-4000:])
        os.replace(tmp, obj)
    return obj


def link(objs, exe):
    r = run([CXX] + BASE + objs + ['-o', exe])
    if r.returncode:
        raise BuildError(r.stderr.decode(errors='replace')[-4000:])


def build(cfg, outdir):
    flags = BASE + cfg.get('flags', []) + INC + ['-I' + os.path.join(REPO, d) for d in cfg.get('inc', [])]
    srcs = [os.path.join(HERE, 'harness', s) for s in cfg['src']]
    for lib in cfg.get('libs', []):
        for s in LIBS[lib]:
            if s.endswith('*'):
                d = os.path.join(REPO, s[:-1])
                srcs += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(('.cc', '.cpp'))]
            else:
                srcs.append(os.path.join(REPO, s))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags), srcs))
    exe = os.path.join(outdir, 'harness')
    link(objs + cfg.get('link', []), exe)
    if cfg.get('tools'):
        # the command line programs of the repository, as separate executables
        d = os.path.join(REPO, cfg['tools'])
        names = sorted(f for f in os.listdir(d) if f.endswith('.cc'))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            tobj = dict(zip(names, ex.map(lambda f: compile_one(os.path.join(d, f), flags), names)))
        shared = [o for f, o in tobj.items() if '_to_' not in f] + objs[len(cfg['src']):]
        tdir = os.path.join(outdir, 'tools')
        os.makedirs(tdir)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda f: link([tobj[f]] + shared, os.path.join(tdir, f[:-3])), [f for f in names if '_to_' in f]))
        ENV['VERIF_TOOLS'] = tdir
    return exe


def shard(exe, prop, tier, i, n, scratch, timeout, only=None):
    d = os.path.join(scratch, 's%d' % i)
    os.makedirs(d, exist_ok=True)
    res = os.path.join(scratch, 'r%d' % i)
    cmd = [exe, '--property', prop, '--tier', tier, '--shard', '%d/%d' % (i, n), '--scratch', d, '--result', res]
    if only:
        cmd += ['--only', only]
    try:
        r = run(cmd, env=ENV, cwd=d, timeout=timeout, stdin=subprocess.DEVNULL)
        rc, err = r.returncode, r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, err = 'timeout', (e.stderr or b'').decode(errors='replace')
    out = {'fails': [], 'samples': [], 'done': None, 'rc': rc, 'err': err}
    if os.path.exists(res):
        for line in open(res, errors='replace'):
            f = line.rstrip('\n').split('\t')
            if f[0] == 'FAIL' and len(f) >= 3:
                out['fails'].append((f[1], f[2]))
            elif f[0] == 'SAMPLE':
                out['samples'].append(f[1])
            elif f[0] == 'DONE':
                out['done'] = [int(x) for x in f[1:7]]
    cur = ''
    if os.path.exists(res + '.cur'):
        cur = open(res + '.cur', 'rb').read().split(b'\0')[0].decode(errors='replace')
    if rc != 0 or out['done'] is None:
        if rc == 'timeout':
            out['error'] = 'time limit of the run reached in case: ' + cur
        elif rc == 3:
            out['error'] = err[-2000:]
        else:
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WATCHDOG[^\n]*|Assertion[^\n]*|terminate called[^\n]*(\n\s*what\(\)[^\n]*)?)', err)
            why = m.group(1).replace('\n', ' ') if m else 'exit status %s' % rc
            why = re.sub(r'0x[0-9a-f]+', '0x..', re.sub(r'==\d+==', '', why))
            where = re.search(r'#\d+ 0x\w+ in ([^\n]*?/src/[^\n]*)', err)
            out['fails'].append((cur, 'the code under test stopped the process: %s%s' % (why, ' at ' + where.group(1) if where else '')))
            out['crashed'] = True
    return out


def known_for(prop):
    path = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                k = json.loads(line)
                if k.get('property') == prop and k.get('status') == 'known':
                    r.append(k)
    return r


def main():
    if len(sys.argv) < 2 or sys.argv[1] == '--list':
        print('\n'.join(sorted(CHECKS)))
        return 0
    if sys.argv[1] == '--setup':
        r = run([CXX, '--version'])
        print(r.stdout.decode().splitlines()[0])
        return r.returncode
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    replay = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        if sys.argv[2] == '--replay':
            replay = json.load(open(sys.argv[3]))
            tier = replay['tier']
        else:
            tier = sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        exe = build(cfg, scratch)
        tb = time.time() - t0
        n = cfg.get('shards', NCPU)
        timeout = cfg.get('timeout', {}).get(tier, 760 - tb if tier == 'quick' else 6 * 3600)
        if replay:
            o = shard(exe, prop, tier, 0, 1, scratch, timeout, only=replay['key'])
            for k, m in o['fails']:
                print('FAIL', k, '|', m)
            if o['rc'] not in (0,):
                print(o['err'][-6000:])
            print('reproduced' if o['fails'] else 'not reproduced')
            return 1 if o['fails'] else 0
        with cf.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda i: shard(exe, prop, tier, i, n, scratch, timeout), range(n)))
        known = known_for(prop)
        hit, fresh, errors = {}, [], []
        tot = [0] * 6
        samples = []
        for o in outs:
            if o.get('error'):
                errors.append(o['error'])
            if o['done']:
                tot = [a + b for a, b in zip(tot, o['done'])]
            samples += o['samples']
            for key, msg in o['fails']:
                for k in known:
                    if re.fullmatch(k['key'], key) and re.search(k['message'], msg):
                        hit.setdefault(k['id'], (k, 0))
                        hit[k['id']] = (k, hit[k['id']][1] + 1)
                        break
                else:
                    fresh.append((key, msg, o))
        for k, cnt in hit.values():
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        rc = 0
        if fresh:
            rdir = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for key, msg, o in fresh:
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 5:
                    break
                name = '%s-%s.json' % (prop, hashlib.sha256(key.encode()).hexdigest()[:10])
                path = os.path.join(rdir, name)
                left = 780 - (time.time() - t0) if tier == 'quick' else 600
                again = shard(exe, prop, tier, 0, 1, os.path.join(scratch, 'again'), min(left, 120), only=key) if len(seen) <= 2 and left > 20 else None
                json.dump({'property': prop, 'tier': tier, 'key': key, 'message': msg,
                           'reproduced_alone': bool(again['fails']) if again else None,
                           'command': 'python3 check.py %s --replay %s' % (prop, os.path.relpath(path, HERE)),
                           'log': (o['err'] or '')[-3000:]}, open(path, 'w'), indent=1)
                print('case: %s\n  %s' % (key, msg))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        elif errors:
            print('ERROR', errors[0])
            rc = 2
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'model_checking'),
              'coverage': {'states': tot[1], 'transitions': tot[2], 'traces_validated_against_impl': tot[3],
                           'cases': tot[0], **({'oracle_comparisons': tot[4]} if tot[4] else {}),
                           'exhaustive': rc == 0, 'bounds': cfg['bounds'], 'samples': samples[:8]},
              'assumptions': ASSUMPTIONS + cfg.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(fresh), 'build_s': round(tb, 2),
              'known_findings_hit': sorted(hit)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: cases=%d states=%d transitions=%d traces=%d failures=%d known=%d build=%.1fs wall=%.1fs' % (
            prop, tier, tot[0], tot[1], tot[2], tot[3], len(fresh), len(hit), tb, time.time() - t0))
        if rc == 0 and (tot[1] == 0 or tot[2] == 0):
            print('ERROR nothing was explored')
            rc = 2
        return rc
    except BuildError as e:
        print('BUILD-ERROR', e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
