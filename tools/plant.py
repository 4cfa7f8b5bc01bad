"""Confirms planted bugs in a scratch copy and writes /verif/seeded/<id>/ (run by hand).

  python3 tools/plant.py [-f] ID...     confirm (build, tests, demo) and write
  python3 tools/plant.py --catch ID...  apply to /repo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/sc'
VP = '/tmp/scvp'
sys.path.insert(0, os.path.join(VERIF, 'tools'))

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export PYTHONPATH="$PWD/target/vp/pymod" PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python "$(dirname "$0")/demo.py"
'''
HEAD = '''import sys, warnings
import numpy as np, rumpy as rp
warnings.simplefilter('ignore')
np.seterr(all='ignore')


def same(got, exp):
    got, exp = np.asarray(got), np.asarray(exp)
    ok = got.shape == exp.shape and (np.array_equal(got, exp, equal_nan=True)
                                     if exp.dtype.kind in 'fc' else np.array_equal(got, exp))
    if not ok:
        print('expected', exp, 'got', got)
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def scratch():
    if not os.path.exists(SC):
        sh('cp -a /repo %s' % SC)
    sh('mkdir -p %s' % VP)
    for f in ('env.sh', 'build.sh', 'test.sh'):
        s = open('/opt/vp/' + f).read().replace('/repo', SC).replace('/opt/vp/env.sh', VP + '/env.sh') \
            .replace('/opt/vp/pytest/run.py', VP + '/run.py') \
            .replace(':/opt/vp/pytest', ':' + VP)
        open(VP + '/' + f, 'w').write(s)
    s = open('/opt/vp/pytest/run.py').read().replace('/repo', SC)
    open(VP + '/run.py', 'w').write(s)
    s = open('/opt/vp/pytest/vp_report.py').read().replace('/repo', SC)
    open(VP + '/vp_report.py', 'w').write(s)
    sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd' % SC)


def tests():
    out = '/tmp/sc-out.json'
    sh('bash %s/test.sh %s' % (VP, out))
    b = json.load(open('/opt/vp/BASELINE.json'))
    try:
        o = set(json.load(open(out))['passed'])
    except Exception:
        return ['no output']
    return [t for t in b['stable'] if t not in o]


def apply(root, bug):
    for f, old, new in bug['edits']:
        p = os.path.join(root, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (bug['id'], s.count(old), f, old[:80]))
        open(p, 'w').write(s.replace(old, new))


def confirm(bug):
    d = os.path.join(VERIF, 'seeded', bug['id'])
    tmp = '/tmp/sc-demo'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.sh', 'w').write(bug.get('demo_sh', DEMO_SH))
    open(tmp + '/demo.py', 'w').write(HEAD + bug['demo'].strip() + '\n')
    sh('cd %s && git checkout -q -f . ' % SC)
    r = sh('bash %s/build.sh' % VP)
    if r.returncode:
        raise SystemExit('clean build failed')
    r = sh('bash %s/demo.sh' % tmp, cwd=SC)
    if r.returncode != 0:
        print(bug['id'], 'DEMO FAILS ON CLEAN', r.stdout.decode()[-600:])
        return False
    apply(SC, bug)
    r = sh('bash %s/build.sh' % VP)
    if r.returncode:
        print(bug['id'], 'DOES NOT BUILD', r.stdout.decode()[-1500:])
        sh('cd %s && git checkout -q -f .' % SC)
        return False
    miss = tests()
    r = sh('bash %s/demo.sh' % tmp, cwd=SC)
    diff = sh('cd %s && git diff' % SC).stdout
    sh('cd %s && git checkout -q -f .' % SC)
    if miss:
        print(bug['id'], 'BREAKS TESTS', len(miss), miss[:4])
        return False
    if r.returncode == 0:
        print(bug['id'], 'DEMO DOES NOT FAIL')
        return False
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': bug['property'], 'needs': bug['needs'],
               'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(bug['id'], 'confirmed:', r.stdout.decode().strip()[-150:])
    return True


def catch(bug):
    d = os.path.join(VERIF, 'seeded', bug['id'])
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print(bug['id'], 'does not apply')
        return
    try:
        for pid in [bug['property']] + sys.argv[2:][:0]:
            r = sh('python3 mon/run.py %s' % pid, cwd=VERIF)
            o = r.stdout.decode()
            hit = r.returncode == 1 and 'VIOLATION property=' + pid in o
            print(bug['id'], pid, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode,
                  [l.strip()[:110] for l in o.splitlines() if l.startswith('    ')][:2])
    finally:
        sh('git -C /repo checkout -- .')


def main():
    import bugs
    by = {b['id']: b for b in bugs.BUGS}
    a = sys.argv[1:]
    if a and a[0] == '--catch':
        for i in a[1:] or list(by):
            catch(by[i])
        return
    scratch()
    for i in a or list(by):
        confirm(by[i])


main()
