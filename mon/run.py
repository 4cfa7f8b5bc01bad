"""Runs the check of one property.

  python3 mon/run.py C05                    quick or thorough by VERIF_TIER
  python3 mon/run.py C05 --replay FILE      re-executes one recorded violation
"""
import json, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from mon import build as B
from mon import meta

PY = '/opt/vp/venv/bin/python'
NW = 8
STALL = 150.0        # seconds without a finished case before a worker is examined
MAX_RESTARTS = 12


def env_for(variant, moddir):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('PYTHON', 'ASAN', 'LD_', 'RUST'))}
    e['PYTHONPATH'] = moddir + ':' + VERIF
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['RUST_BACKTRACE'] = '0'
    e['TZ'] = 'UTC'
    e['OMP_NUM_THREADS'] = '1'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['RAYON_NUM_THREADS'] = '2'
    e['NPY_DISABLE_CPU_FEATURES'] = ('AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX '
                                     'AVX512_CNL AVX512_ICL AVX512_SPR')
    if variant == 'asan':
        e['LD_PRELOAD'] = B.ASAN_RT
        e['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:symbolize=0:handle_segv=1:'
                             'allocator_may_return_null=1:max_allocation_size_mb=4096:'
                             'quarantine_size_mb=64')
        e['PYTHONMALLOC'] = 'malloc'
    return e


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    P = meta.PROPS[pid]
    variant = P.get('variant', 'dev')
    moddir, bsec, shash = B.build(variant)
    env = env_for(variant, moddir)
    env.update(P.get('env', {}))
    if '--replay' in sys.argv:
        return replay(pid, env, sys.argv[sys.argv.index('--replay') + 1])

    scratch = tempfile.mkdtemp(prefix='mon-%s-' % pid)
    env['MON_SCRATCH'] = scratch
    try:
        return check(pid, P, tier, seed, env, scratch, t0, bsec, shash)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def start_worker(pid, seed, tier, i, n, start, scratch, env):
    prog = os.path.join(scratch, 'prog%d' % i)
    with open(prog, 'wb') as f:
        f.write(struct.pack('<q', -1))
    out = os.path.join(scratch, 'out%d' % i)
    err = open(os.path.join(scratch, 'err%d' % i), 'wb')
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), pid, str(seed), tier, str(i),
                          str(n), str(start), out, prog],
                         cwd=scratch, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
    return p


def progress(scratch, i):
    with open(os.path.join(scratch, 'prog%d' % i), 'rb') as f:
        return struct.unpack('<q', f.read(8))[0]


def tail(path, n=1500):
    try:
        with open(path, 'rb') as f:
            d = f.read().decode(errors='replace')
    except OSError:
        return ''
    i = d.find('ERROR: AddressSanitizer')
    if i >= 0:
        return d[i:i + n]
    return d[-n:]


def locate(pid, seed, tier, env, o):
    """The (family, index) of a case number, asked of the workload itself."""
    p = subprocess.run([PY, '-c', 'import sys; from mon import props; '
                        's = props.schedule(props.families(sys.argv[1], sys.argv[2])); '
                        'f, i = s[int(sys.argv[3])]; print(f.name + "\\t" + str(i))',
                        pid, tier, str(o)], env=env, stdout=subprocess.PIPE)
    name, idx = p.stdout.decode().strip().split('\t')
    return name, int(idx)


def run_one(pid, seed, tier, env, fam, idx, limit):
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), pid, str(seed), tier, '--one',
                          fam, str(idx)], env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        o, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 'timeout', ''
    return p.returncode, o.decode(errors='replace')


def check(pid, P, tier, seed, env, scratch, t0, bsec, shash):
    viol = []
    known = run_known(pid, env)
    ws = [start_worker(pid, seed, tier, i, NW, 0, scratch, env) for i in range(NW)]
    last = [(-2, time.time())] * NW
    restarts = [0] * NW
    done = [False] * NW
    crashes = 0
    inconclusive = []
    while not all(done):
        time.sleep(0.1)
        for i in range(NW):
            if done[i]:
                continue
            rc = ws[i].poll()
            cur = progress(scratch, i)
            if rc is None:
                if cur != last[i][0]:
                    last[i] = (cur, time.time())
                elif time.time() - last[i][1] > STALL:
                    ws[i].kill()
                    ws[i].wait()
                    if cur < 0:
                        die('worker %d did not start' % i)
                    fam, idx = locate(pid, seed, tier, env, cur)
                    r, o = run_one(pid, seed, tier, env, fam, idx, STALL)
                    if r == 'timeout':
                        viol.append({'family': fam, 'index': idx, 'kind': 'no-return',
                                     'msg': 'the call did not return within %d s, twice, '
                                            'once alone' % STALL})
                    else:
                        inconclusive.append('%s#%d stalled once, finished alone' % (fam, idx))
                    if not again(pid, seed, tier, i, cur + 1, scratch, env, ws, restarts, last):
                        done[i] = True
                continue
            if rc == 0:
                done[i] = True
                continue
            # the process died
            cur = progress(scratch, i)
            if rc == -signal.SIGKILL:
                inconclusive.append('worker %d was killed from outside at case %d' % (i, cur))
                if not again(pid, seed, tier, i, cur + 1, scratch, env, ws, restarts, last):
                    done[i] = True
                continue
            text = tail(os.path.join(scratch, 'err%d' % i))
            if cur < 0 or rc in (1, 2):
                # an error of the harness itself, never a verdict
                sys.stderr.write(text + '\n')
                where = locate(pid, seed, tier, env, cur) if cur >= 0 else '-'
                die('harness error in worker %d (rc %s) at %s' % (i, rc, where))
            fam, idx = locate(pid, seed, tier, env, cur)
            crashes += 1
            viol.append({'family': fam, 'index': idx, 'kind': 'crash',
                         'msg': 'the process died with status %s: %s' % (rc, text)})
            if not again(pid, seed, tier, i, cur + 1, scratch, env, ws, restarts, last):
                done[i] = True

    tot = {}
    per = {}
    keys = set()
    samples = []
    extra = {}
    for i in range(NW):
        try:
            lines = open(os.path.join(scratch, 'out%d' % i)).read().splitlines()
        except OSError:
            lines = []
        for ln in lines:
            d = json.loads(ln)
            if d['t'] == 'violation':
                viol.append(d)
            else:
                for k, v in d['stats'].items():
                    if k == 'per_family':
                        for f, (a, b) in v.items():
                            x = per.setdefault(f, [0, 0])
                            x[0] += a
                            x[1] += b
                    else:
                        tot[k] = tot.get(k, 0) + v
                keys.update(d['keys'])
                samples.extend(d['samples'])
                for k, v in d['extra'].items():
                    extra[k] = extra.get(k, 0) + v
    # one report per (family, kind), smallest index first
    viol.sort(key=lambda d: (d['family'], d['kind'], d['index']))
    uniq = []
    seen = set()
    for d in viol:
        s = (d['family'], d['kind'])
        if s not in seen:
            seen.add(s)
            uniq.append(d)
    rdir = os.path.join(VERIF, 'replays')
    if uniq:
        os.makedirs(rdir, exist_ok=True)
    for k, d in enumerate(uniq):
        if k >= 12:
            print('... and %d more kinds of violation' % (len(uniq) - 12))
            break
        path = os.path.join(rdir, '%s-%d.json' % (pid, k))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'sources': shash,
                       **{x: d[x] for x in ('family', 'index', 'kind', 'msg')}}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('    %s#%d [%s] %s' % (d['family'], d['index'], d['kind'], d['msg'][:700]))
    zero = sorted(f for f, (a, b) in per.items() if b == 0)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
        'coverage': {
            'evaluations': tot.get('evaluations', 0),
            'distinct_nontrivial': len(keys),
            'rule': P['rule'],
            'samples': samples[:12] or ['(none drawn)'],
            'values_judged': tot.get('elements', 0),
            'compared_results': tot.get('ok', 0),
            'rejected_by_both': tot.get('rejected_by_both', 0),
            'skipped_out_of_domain': tot.get('skipped', 0),
            'trivial_empty_results': tot.get('trivial', 0),
            'view_fallbacks': tot.get('view_fallbacks', 0),
            'families_exercised': len(per),
            'families_without_values': zero[:20],
            'cases_and_values_per_family': {f: per[f] for f in sorted(per)},
            'process_deaths': crashes,
            'inconclusive': inconclusive,
            'known_findings_still_present': known,
            'build_s': round(bsec, 1),
            'sources': shash[:16],
            'build_variant': P.get('variant', 'dev'),
            **extra,
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(uniq),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d results compared, %d values judged, %d distinct, '
          '%d rejected by both, %d skipped, %d families, build %.1fs, total %.1fs' % (
              pid, tier, seed, tot.get('evaluations', 0), tot.get('ok', 0),
              tot.get('elements', 0), len(keys), tot.get('rejected_by_both', 0),
              tot.get('skipped', 0), len(per), bsec, time.time() - t0))
    for m in inconclusive:
        print('INCONCLUSIVE: ' + m)
    if uniq:
        return 1
    if tot.get('ok', 0) + tot.get('rejected_by_both', 0) == 0:
        print('no case was evaluated')
        return 3
    return 0


def die(msg):
    sys.stderr.write(msg + '\n')
    sys.exit(5)


def again(pid, seed, tier, i, start, scratch, env, ws, restarts, last):
    restarts[i] += 1
    if restarts[i] > MAX_RESTARTS:
        return False
    ws[i] = start_worker(pid, seed, tier, i, NW, start, scratch, env)
    last[i] = (-2, time.time())
    return True


def run_known(pid, env):
    """Executes the recorded failing input of every known finding of this property."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if not os.path.exists(path):
        return out
    for ln in open(path):
        ln = ln.strip()
        if not ln or not ln.startswith('{'):
            continue
        d = json.loads(ln)
        if d.get('status') != 'known' or d['property'] != pid:
            continue
        p = subprocess.run([PY, '-c', 'import numpy as np, rumpy as rp\nimport warnings\n'
                            'warnings.simplefilter("ignore")\n' + d['fails_when']
                            + '\nprint("STILL" if failed else "GONE")'],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           timeout=300)
        if b'GONE' not in p.stdout:
            print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
            out.append(d['id'])
    return out


def replay(pid, env, path):
    d = json.load(open(path))
    env['MON_SCRATCH'] = tempfile.mkdtemp(prefix='mon-replay-')
    try:
        r, o = run_one(pid, d['seed'], d['tier'], env, d['family'], d['index'], 600)
    finally:
        shutil.rmtree(env['MON_SCRATCH'], ignore_errors=True)
    print(o.strip())
    if r == 0:
        print('replay: the property held on this case')
        return 0
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    try:
        sys.exit(main())
    except B.BuildError as e:
        sys.stderr.write('build failed: %s\n' % e)
        sys.exit(4)
